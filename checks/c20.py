"""C20: objective output contract is enforced and residuals converted."""
from . import orch
from .util import dot, mm, mtv, tr

BOUNDS = ('every configuration (no scheme, schemes with and without objective '
          'Hessian, residual functions with and without scheme); return '
          'arity 0..4 as tuple, list or bare number; every combination of '
          'shapes of value (scalar, (1,), (2,)), gradient (scalar, n-1, n, '
          'n+1, (n,1)), Hessian (scalar, (n,), (n,n), (n,n+1), (n+1,n+1), '
          '(n,n,1)); n = 1 and 2, up to 2 residuals; entries arbitrary '
          'symbolic numbers')
ASSUMPTIONS = ['outputs are real arrays and numbers']
OUTSIDE = ['n > 2', 'zero-dimensional arrays as value',
           'shape of outputs after the first evaluation (their number is '
           'covered up to the third)']
REACH = ['later', 'good', 'bad-arity', 'bad-shape', 'residual', 'res-bad']
OPTS = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0)


def fill(c, sh, t):
    if not sh:
        return c.real(t)
    return [fill(c, sh[1:], f'{t}_{i}') for i in range(sh[0])]


def val(c, sh, t):
    v = fill(c, sh, t)
    return c.array(v) if sh else v


class Raw:
    def __init__(self, first, obj):
        self.first, self.obj, self.n = first, obj, 0
        self.calls = obj.calls
        self.resfun = obj.resfun

    def __call__(self, x):
        self.n += 1
        if self.n == 1:
            return self.first
        return self.obj(x)


def attempt(c, F, n, upd, resfun, first, m=1):
    """(raised ValueError, outcome, evaluations, steps)"""
    u = orch.scheme(F, upd)
    obj = Raw(first, orch.Objective(
        c, F, n, hess=upd is None or upd in orch.WITH_HESS, resfun=resfun,
        m=m))
    stp = orch.Stepper(c, F, n)
    try:
        o = orch.execute(c, F, n, 1, upd=u, obj=obj, stp=stp, opts=OPTS,
                         raises=(RuntimeError,))
    except ValueError:
        return True, None, obj.n, len(stp.calls)
    return False, o, obj.n, len(stp.calls)


def expected(upd, resfun):
    if resfun:
        return 2
    return 3 if upd is None or upd in orch.WITH_HESS else 2


def arity(c, F, n, upd, resfun, wrap):
    k = c.choose('arity', 5)
    f, g, h = val(c, (), 'f'), val(c, (n,), 'g'), val(c, (n, n), 'h')
    if resfun:
        f, g = val(c, (n,), 'r'), val(c, (n, n), 'J')
    first = (f, g, h, h)[:k]
    if wrap == 'list':
        first = list(first)
    elif wrap == 'bare':
        first = f if k != 2 else g
    raised, o, ne, ns = attempt(c, F, n, upd, resfun, first, n)
    if wrap == 'tuple' and k == expected(upd, resfun):
        c.reach('good')
        c.check(not raised, 'the required number of values is accepted')
    elif wrap == 'list' and k == expected(upd, resfun):
        return       # a list of the right length: not pinned
    else:
        c.reach('bad-arity')
        c.check(raised, 'any other number of values raises ValueError')
        c.check(ne == 1 and ns == 0, 'before a step is taken')


def later(c, F, n, upd, resfun, at):
    """a wrong number of values at a later evaluation"""
    k = c.choose('arity', 5)
    want = expected(upd, resfun)

    class Obj(orch.Objective if at == 1 else orch.SignedObjective):
        def __call__(self, x):
            ret = super().__call__(x)
            if len(self.calls) - 1 != at:
                return ret
            return (ret + ret)[:k] if k < 4 else list(ret)
    obj = Obj(c, F, n, hess=upd is None or upd in orch.WITH_HESS,
              resfun=resfun)
    obj.resfun = resfun
    raised, o = False, None
    try:
        o = orch.execute(c, F, n, at + 1, upd=orch.scheme(F, upd), obj=obj,
                         qp='neg', opts=OPTS, resfun=resfun,
                         stp=(orch.Stepper if at == 1 else orch.SignedStepper)(
                             c, F, n, qp='neg'),
                         raises=(RuntimeError,))
    except ValueError:
        raised = True
    if k == want:
        c.check(not raised, 'the required number of values is accepted')
        return
    if k == 4 or len(obj.calls) <= at:
        return      # a list is not pinned; evaluation not reached
    c.reach('later')
    c.check(raised, 'any other number of values raises ValueError at every '
            'evaluation')


def shapes(c, F, n, upd):
    needh = expected(upd, False) == 3
    fs = [(), (1,), (2,)]
    gs = [(n,), (), (n + 1,), (n, 1)] + ([(n - 1,)] if n > 1 else [])
    hs = [(n, n), (), (n,), (n, n + 1), (n + 1, n + 1), (n, n, 1),
          (n + 1, n)]
    i = c.choose('fs', len(fs))
    j = c.choose('gs', len(gs))
    k = c.choose('hs', len(hs)) if needh else 0
    first = (val(c, fs[i], 'f'), val(c, gs[j], 'g'))
    if needh:
        first = first + (val(c, hs[k], 'h'),)
    raised, o, ne, ns = attempt(c, F, n, upd, False, first)
    if i == j == k == 0:
        c.reach('good')
        c.check(not raised, 'the required shapes are accepted')
        c.check_eq(o.states[0]['fval'], first[0], 'values are used as given')
        c.check_eq(o.states[0]['grad'], first[1], 'values are used as given')
        if upd is None:
            c.check_eq(o.states[0]['hess'], first[2], 'values are used as '
                       'given')
    else:
        c.reach('bad-shape')
        c.check(raised, 'other shapes raise ValueError')
        c.check(ne == 1 and ns == 0, 'before a step is taken')


def residual(c, F, n, m, upd):
    """conversion of residuals"""
    r, J = val(c, (m,), 'r'), val(c, (m, n), 'J')
    rk, Jk = r.copy(), J.copy()
    raised, o, ne, ns = attempt(c, F, n, upd, True, (r, J), m)
    c.check(not raised, 'residual functions are accepted')
    if raised:
        return
    c.reach('residual')
    st = o.states[0]
    c.check_eq(st['fval'] * 2, dot(rk, rk), 'half the squared residual norm')
    c.check_eq(st['grad'], mtv(Jk, rk), 'gradient J^T r')
    if upd is None:
        c.check_eq(st['hess'], mm(tr(Jk), Jk), 'Hessian J^T J')
    c.check_eq(o.steps[0]['g'], mtv(Jk, rk), 'gradient J^T r')
    c.observe('f', st['fval'])


def reshess(c, F, n, m, upd):
    """with hess0='hess' a residual scheme starts from J^T J"""
    r, J = val(c, (m,), 'r'), val(c, (m, n), 'J')
    obj = Raw((r, J), orch.Objective(c, F, n, resfun=True, m=m))
    o = orch.execute(c, F, n, 1, upd=orch.scheme(F, upd), obj=obj,
                     stp=orch.Stepper(c, F, n), hess0='hess', opts=OPTS,
                     raises=(RuntimeError,))
    c.check_eq(o.steps[0]['hess'], mm(tr(J), J), 'Hessian J^T J')
    c.reach('residual')


def resbad(c, F, n, upd):
    """residual outputs that do not fit x"""
    cases = [((2,), (2, n + 1)), ((2,), (3, n)), ((1,), (2, n)),
             ((2,), (2,))]
    if n > 1:
        cases.append(((2,), (2, n - 1)))
    k = c.choose('case', len(cases))
    rs, js = cases[k]
    raised, o, ne, ns = attempt(c, F, n, upd, True,
                                (val(c, rs, 'r'), val(c, js, 'J')))
    c.reach('res-bad')
    c.check(raised, 'residual shapes that do not fit raise ValueError')
    c.check(ne == 1 and ns == 0, 'before a step is taken')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, **p):
        T.append(dict(name=h + '-' + '-'.join(str(v) for v in p.values()),
                      harness=h, params=p, lazy=True))
    for upd, res in ((None, False), ('bfgs', False), ('fixed', False),
                     ('fraction', False), ('fx', True), ('ssm', True),
                     ('gnsbfgs', True), (None, True), ('sr1', False),
                     ('tssm', True)):
        add('arity', n=1 if res and not deep else 2, upd=upd, resfun=res,
            wrap='tuple')
        for w in ('list', 'bare'):
            add('arity', n=1, upd=upd, resfun=res, wrap=w)
        add('later', n=1, upd=upd, resfun=res, at=1)
        if upd in (None, 'bfgs', 'fx'):
            add('later', n=1, upd=upd, resfun=res, at=2)
        if res:
            add('residual', n=2, m=1, upd=upd)
            add('residual', n=1, m=2, upd=upd)
            add('resbad', n=2, upd=upd)
            add('resbad', n=1, upd=upd)
            if upd:
                add('reshess', n=2, m=1, upd=upd)
            if deep:
                add('residual', n=2, m=2, upd=upd)
        else:
            add('shapes', n=2, upd=upd)
            add('shapes', n=1, upd=upd)
    return T
