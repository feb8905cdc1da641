"""C26: optimizations of one process do not influence each other."""
from symx import shared

from . import orch
from .c23 import traces

SHARED = True
BOUNDS = ('two optimizers with different options and any Hessian schemes; up '
          'to 2 iterations each, n = 1; the second runs completely inside '
          'any objective call of the first; two threads in every sequentially '
          'consistent interleaving of the accesses to module variables, '
          'class and function attributes, module-level containers and locks. '
          'Quick: one run with arbitrary values, curvature and predicted '
          'decrease, start in [5, 7], gradients in [10, 20] and steps in '
          '[-1, -0.5], the other with values in narrow ranges (good steps, '
          'no convergence); thorough: also arbitrary gradients, steps and '
          'start points of one run. Step computations (conjugate gradients, '
          'one variable with symbolic data, two with symbolic bounds, '
          'single reflection and truncation; thorough: all cut-back '
          'strategies) before and after a different one')
ASSUMPTIONS = ['the objectives are functions of their input',
               'trial steps stay inside the box (C16)',
               'single reads and writes of variables are atomic']
OUTSIDE = ['one optimizer or one Hessian scheme object used by two runs at '
           'the same time', 'shared containers other than lists used as '
           'counters and dictionaries accessed by subscript, get, '
           'setdefault, update or in (interleaving of threads; nested runs '
           'cover them)', 'the h5py library']
REACH = ['nested', 'interleaved', 'pure', 'moved', 'cut']

OPT_A = {'gamma1': 0.5, 'gamma2': 3.0, 'delta_init': 2.0, 'gatol': 0.0,
         'fatol': 0.0, 'frtol': 0.0}
OPT_B = {'mu': 0.1, 'eta': 0.6, 'xtol': 1e-3, 'fatol': 1e-4,
         'theta_max': 0.5, 'gatol': 0.0, 'frtol': 0.0}


class Dispatch:
    """stand-in for trust_region that asks the stub of the current run"""

    def __init__(self):
        self.stack = {}

    def key(self):
        import threading
        return (threading.get_ident(), shared.current())

    def enter(self, stp):
        self.stack.setdefault(self.key(), []).append(stp)

    def leave(self):
        self.stack[self.key()].pop()

    def __call__(self, *a, **k):
        return self.stack[self.key()][-1](*a, **k)


OBJ = dict(f=orch.Objective, s=orch.SignedObjective, r=orch.RangedObjective)
STP = dict(f=orch.Stepper, s=orch.SignedStepper, r=orch.RangedStepper)


def one(c, F, disp, tag, K, upd, opts, ref=None, hook=None, kind='f'):
    n = 1
    need = upd is None or upd in orch.WITH_HESS
    res = upd in orch.RES
    obj = OBJ[kind](
        c, F, n, tag, hess=need, resfun=res, share=ref.obj if ref else None)
    if hook:
        obj.hooks.append(hook)
    stp = STP[kind](
        c, F, n, tag, qp='neg', share=ref.stp if ref else None)
    disp.enter(stp)
    try:
        x = ref.x0 if ref else c.vec(f'{tag}x', n)
        if tag == 'a' and kind == 'f' and not ref:
            c.assume(x[0] >= 1.0)
        if kind != 'f' and not ref:
            c.assume(c.And(x[0] >= 5, x[0] <= 7))
        H = F.hessian_approximation
        sch = getattr(H, orch.SCHEMES[upd])() if upd else None
        return orch.execute(c, F, n, K, upd=sch, obj=obj, stp=stp,
                            x0=x.copy(), opts=opts, install=False,
                            lb=c.array([0.0 if tag == 'a' else
                                        -float('inf')]),
                            ub=c.array([float('inf')]),
                            raises=(RuntimeError,), tag=tag)
    finally:
        disp.leave()


def nested(c, F, K, ua, ub, ka, kb):
    """the second optimization runs inside an objective call of the first"""
    orch.set_clock(c, F, lambda: 0.0)
    disp = Dispatch()
    orch.patch_tr(c, F, disp)
    G = []
    for _ in range(2):
        G.append(shared.fresh(c, F))
        orch.patch_tr(c, G[-1], disp)
    a0 = one(c, G[0], disp, 'a', K, ua, OPT_A, kind=ka)
    b0 = one(c, G[1], disp, 'b', 1, ub, OPT_B, kind=kb)
    k = c.choose('call', K + 1)
    inner = []

    def hook(i):
        if i == k:
            inner.append(one(c, F, disp, 'b', 1, ub, OPT_B, b0, kind=kb))
    a1 = one(c, F, disp, 'a', K, ua, OPT_A, a0, hook, kind=ka)
    c.reach('nested')
    traces(c, a0, a1, 'outer run')
    if inner:
        traces(c, b0, inner[0], 'inner run')
    c.observe('a', a1.final['fval'])


def bodies(c, disp, K, ua, ub, refs, ka, kb):
    def a(F):
        return one(c, F, disp, 'a', K, ua, OPT_A, refs[0],
                   kind=ka)

    def b(F):
        return one(c, F, disp, 'b', K, ub, OPT_B, refs[1],
                   kind=kb)
    return [a, b]


def interleave(c, F, K, ua, ub, ka, kb):
    orch.set_clock(c, F, lambda: 0.0)
    disp = Dispatch()
    orch.patch_tr(c, F, disp)
    refs = [f(F) for f in bodies(c, disp, K, ua, ub, (None, None), ka, kb)]

    def dry(F2):
        from symx.concrete import CCtx

        class Dry(CCtx):
            def assume(self, cond, tag=''):
                pass
        v = {}
        for t in 'ab':
            v.update({f'{t}x0': 6.0, f'{t}s0_0': -0.75, f'{t}ss0_0': -0.75,
                      f'{t}qp0': 75.0})
            for i in range(2):
                v.update({f'{t}f{i}': 100.0 / 4 ** i, f'{t}g{i}_0': 10.0 - i,
                          f'{t}H{i}_00': 1.5, f'{t}r{i}_0': 14.0 / 2 ** i,
                          f'{t}J{i}_00': 1.25})
        d = Dispatch()
        orch.patch_tr(c, F2, d)
        for f in bodies(Dry(v), d, K, ua, ub, (None, None), 'f', 'f'):
            f(F2)
    got = shared.threads(c, F, bodies(c, disp, K, ua, ub, refs, ka, kb),
                         ('interleave', K, ua, ub), dry=[dry])
    c.reach('interleaved')
    for r, g, w in zip(refs, got, ('first', 'second')):
        traces(c, r, g, w + ' thread')


def problem(c, F, n, tag, fixed):
    def real(nm, v, **k):
        if fixed or n > 1 and nm not in ('l0', 'u1'):
            return v
        return c.real(tag + nm, **k)
    x = [real(f'x{i}', 0.25 * (i + 1)) for i in range(n)]
    g = [real(f'g{i}', 1.0 - 2 * i) for i in range(n)]
    H = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            H[i][j] = H[j][i] = real(f'H{i}{j}', 1.5 - i - j)
    lo = [real(f'l{i}', -0.1) for i in range(n)]
    up = [real(f'u{i}', 1.0) for i in range(n)]
    for i in range(n):
        if not isinstance(lo[i], float) or not isinstance(up[i], float):
            c.assume(c.And(x[i] - lo[i] > 1e-3, up[i] - x[i] > 1e-3))
    if fixed or n > 1:
        H = [[2.0, 0.0], [0.0, 1.5]][:n]
        H = [h[:n] for h in H]
    delta = real('delta', 1.0, pos=True)
    theta = 0.95 if tag == 'p' else 0.5
    root = [real(f'd{i}', 1.0, pos=True) for i in range(n)]
    return dict(x=x, g=g, H=H, lo=lo, up=up, delta=delta, root=root,
                theta=theta)


def solve(c, F, n, p, strategy):
    S = [[p['root'][i] if i == j else 0.0 for j in range(n)]
         for i in range(n)]
    return F.trust_region.trust_region(
        c.array(p['x']), c.array(p['g']), c.array(p['H']),
        F.csc_matrix(c.array(S)), p['delta'], c.array([1.0] * n), p['theta'],
        c.array(p['lo']), c.array(p['up']),
        subspace_dim=F.constants.SubSpaceDim.STEIHAUG,
        stepback_strategy=getattr(F.constants.StepBackStrategy, strategy),
        logger=F.logging.create_logger(50))


def pure(c, F, n, strategy, fixed):
    p = problem(c, F, n, 'p', fixed)
    q = problem(c, F, n, 'q', not fixed)
    a = solve(c, F, n, p, strategy)
    o = solve(c, F, n, q, strategy)
    keep = [v.copy() for v in (a.s, a.s0, a.ss, a.ss0)]
    cnt = (o.reflection_count, o.truncation_count)
    b = solve(c, F, n, p, strategy)
    c.reach('pure')
    r = solve(c, shared.fresh(c, F), n, q, strategy)
    for k in ('s', 's0', 'ss', 'ss0'):
        c.check(c.vec_eq(getattr(r, k), getattr(o, k)),
                'same step as without an earlier one: ' + k)
    c.check(c.And(c.eq(r.qpval, o.qpval), c.eq(r.alpha, o.alpha)),
            'same value as without an earlier one')
    c.check(r.type == o.type and r.reflection_count == cnt[0]
            and r.truncation_count == cnt[1],
            'same kind of step as without an earlier one')
    if a.alpha is not o.alpha and bool(a.alpha < 1):
        c.reach('cut')
    for k, v in zip(('s', 's0', 'ss', 'ss0'), keep):
        c.check(c.vec_eq(v, getattr(b, k)), 'same step: ' + k)
        c.check(c.vec_eq(v, getattr(a, k)), 'step is not changed later: ' + k)
    c.check(c.eq(a.qpval, b.qpval), 'same model value')
    c.check(c.eq(a.alpha, b.alpha), 'same step length')
    c.check(a.type == b.type and a.reflection_count == b.reflection_count
            and a.truncation_count == b.truncation_count, 'same kind of step')
    c.observe('s', b.s)


def tasks(tier):
    t = []
    deep = tier == 'thorough'
    pairs = [(None, None), ('bfgs', 'bfgs'), ('sr1', 'dfp'), ('bb', 'bg'),
             ('fixed', 'fixed'), ('fraction', None), ('fx', 'fx'),
             ('ssm', 'tssm'), ('gnsbfgs', 'ssm')]
    kinds = ['sr', 'rs'] + (['fr', 'rf', 'ss'] if deep else [])
    for a, b in pairs:
        for k in kinds:
            for K in (1, 2):
                if K == 2 and (k[0] == 'f' or not deep and
                               (a is not None or k != 'sr')):
                    continue
                t.append(dict(name=f'nested-{a}-{b}-{k}-{K}',
                              harness='nested', params=dict(
                                  K=K, ua=a, ub=b, ka=k[0], kb=k[1])))
            t.append(dict(name=f'interleave-{a}-{b}-{k}',
                          harness='interleave', params=dict(
                              K=1, ua=a, ub=b, ka=k[0], kb=k[1])))
    for n in (1, 2):
        for s in ('SINGLE_REFLECT', 'REFLECT', 'TRUNCATE', 'MIXED'):
            if n == 1 and s != 'REFLECT':
                continue
            if n == 2 and s in ('REFLECT', 'MIXED') and not deep:
                continue
            for fixed in (True, False) if n == 1 or deep else (True,):
                t.append(dict(name=f'pure-{n}-{s}-{fixed}', harness='pure',
                              params=dict(n=n, strategy=s, fixed=fixed),
                              lazy=False))
    return t
