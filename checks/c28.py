"""C28: reporting does not influence the optimization."""
from . import orch
from .c22 import content, nums, path
from .c23 import traces

BOUNDS = ('pairs of runs of the real minimize loop with the same arbitrary '
          'objective outputs (including non-finite trial values) and steps: '
          'one silent without history, the other with any verbosity, history '
          'file or run id, and runs with objective arguments; 1 iteration (2 without approximation), n = 1 and 2, '
          'every Hessian scheme, plus runs with a concrete beginning of 12 to '
          '40 iterations; the real trust_region with and without debug output, '
          'any outcome of each candidate (as in C18), n = 1 and 2')
ASSUMPTIONS = ['the objective is a function of its input',
               'h5py stores what it is given', 'trial steps stay inside the '
               'box (C16)', 'eigenvalues and condition numbers are arbitrary '
               'numbers']
OUTSIDE = ['n > 2', 'failures of the file system']
REACH = ['loud', 'history', 'moved', 'nonfinite', 'args', 'stopped',
         'compared']


def run(c, F, n, K, upd, mode, special, how, stop, warm,
        asym=False):
    """how: h(istory), l(oud), i(d), a(rguments)"""
    need = upd is None or upd in orch.WITH_HESS
    res = upd in orch.RES
    lb, ub = orch.bounds(c, F, n, mode)
    x0 = c.array([0.0] * n) if warm else orch.start(c, n, lb, ub, strict=True)
    opts = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0)
    if stop:
        for k in ('fatol', 'gatol'):
            opts[k] = c.real(k, nonneg=True)
    obj = orch.Objective(c, F, n, hess=need, resfun=res, special=special,
                         warm=warm, asym=asym)
    stp = orch.Stepper(c, F, n, qp='neg', counts='h' in how, warm=warm)
    a = orch.execute(c, F, n, K, upd=upd, x0=x0.copy(), lb=lb, ub=ub,
                     opts=opts, obj=obj, stp=stp, warm=warm,
                     raises=(RuntimeError,))
    loud = dict(opts)
    if 'h' in how:
        nums(c, F, n)
        loud['history_file'] = path(c, F)
        c.reach('history')
    verbose = 50
    if 'l' in how:
        verbose = (10, 20, 30)[c.choose('verbose', 3)]
        c.reach('loud')
    b = orch.execute(c, F, n, K, upd=upd, x0=x0.copy(), lb=lb, ub=ub,
                     opts=loud, warm=warm, verbose=verbose,
                     start_id='an id' if 'i' in how else None,
                     obj=orch.Objective(c, F, n, 'b', hess=need, resfun=res,
                                        share=obj),
                     stp=orch.Stepper(c, F, n, 'b', share=stp),
                     raises=(RuntimeError,))
    traces(c, a, b, 'reporting')
    if any(not bool(c.isfinite(e['f'])) for e in a.evals[1:]):
        c.reach('nonfinite')
    if a.final['converged']:
        c.reach('stopped')
    if 'h' in how:
        g = content(c, F, loud['history_file'])
        c.check(len(g) == (1 if a.exc is None else 0), 'history is written')
    c.observe('x', a.final['x'])


def args(c, F, n):
    """arguments for the objective are passed on at every evaluation"""
    p, q = c.real('p'), c.real('q')
    got = []
    obj = orch.Objective(c, F, n)

    def fun(x, scale, shift=0.0):
        got.append((scale, shift))
        return obj(x)
    inf = float('inf')
    o = F.minimize.Optimizer(fun, ub=c.array([inf] * n),
                             lb=c.array([-inf] * n), verbose=50,
                             options={'maxiter': 2},
                             funargs=dict(scale=p, shift=q))
    stp = orch.Stepper(c, F, n, qp='neg')
    orch.patch_tr(c, F, stp)
    o.minimize(c.vec('x', n))
    c.reach('args')
    c.check(len(got) == len(obj.calls) and len(got) > 0, 'one call each')
    for a, b in got:
        c.check(c.And(c.eq(a, p), c.eq(b, q)), 'arguments are passed on')


def propose(c, F, n, dim, strategy):
    """the step proposed by the real trust_region, silent and with debug
    output"""
    import io
    import logging
    from .c18 import stub
    from .steplib import diag
    SD, SB = F.constants.SubSpaceDim, F.constants.StepBackStrategy
    same, got = {}, []
    g = c.array([1.0, -2.0, 0.5][:n])
    hess = c.array([[2.0 + i if i == j else 0.25 for j in range(n)]
                    for i in range(n)])
    for level in (50, (20, 10)[c.choose('level', 2)]):
        made = []
        stub(c, F, made, range(99) if n > 2 else (), same)
        lg = logging.Logger('fides.check', level)
        lg.addHandler(logging.StreamHandler(io.StringIO()))
        st = F.trust_region.trust_region(
            c.array([0.0] * n), g.copy(), hess.copy(),
            diag(c, F, [1.0, 2.0, 0.5][:n]), 0.75,
            c.array([0.0, 1.0, 0.0][:n]), 0.9, c.array([-1.0] * n),
            c.array([2.0] * n), subspace_dim=getattr(SD, dim),
            stepback_strategy=getattr(SB, strategy), logger=lg)
        got.append((st, [m is st for m in made], len(made)))
    (a, wa, ka), (b, wb, kb) = got
    c.check(ka == kb, 'debug output: same candidates')
    c.check(wa == wb, 'debug output: same step')
    c.check_eq(a.s + a.s0, b.s + b.s0, 'debug output: same step')
    c.check(type(a) is type(b), 'debug output: same step')
    if ka > 1:
        c.reach('compared')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(n=1, K=1, upd=None, mode='n', special='', how='hl',
                      stop=False, warm=''), **p)
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    add(special='f', how='hi')
    add(special='f', how='l')
    add(mode='b', how='h')
    add(stop=True)
    add(stop=True, mode='l', how='h')
    add(n=2, how='h')
    add(n=2, how='hl', asym=True)
    add(n=2, upd='fixed', how='h', asym=True)
    add(K=2, how='l')
    add(special='fgh', how='hl')
    for u in orch.SCHEMES:
        add(upd=u, how='h')
    for i, w in enumerate(orch.WARM):
        add(how='h', warm=w, upd=(None, 'bfgs', 'tssm')[i % 3])
        add(how='li', warm=w, upd=(None, 'fixed')[i % 2])
    for w in orch.LONG:
        add(how='hl', warm=w)
    if deep:
        add(K=2, special='f', how='hli')
        add(K=2, upd='bfgs', how='h')
        add(K=2, upd='gnsbfgs', how='h')
        add(n=2, mode='bn', how='hl')
    for n in (1, 2) + ((3,) if deep else ()):
        for d, m in (('FULL', 'REFLECT'), ('FULL', 'TRUNCATE'),
                     ('TWO', 'SINGLE_REFLECT'), ('STEIHAUG', 'TRUNCATE'),
                     ('FULL', 'REFINE'), ('TWO', 'MIXED')):
            if m == 'MIXED' and not deep:
                continue
            T.append(dict(name=f'propose-{n}-{d}-{m}', harness='propose',
                          params=dict(n=n, dim=d, strategy=m)))
    T.append(dict(name='args', harness='args', params=dict(n=1), lazy=True))
    return T
