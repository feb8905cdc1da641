"""C27: start points are checked and iterates are strictly interior."""
from . import orch

NUDGE = 1e-13       # the documented nudge off the bounds is 2.2e-14
BOUNDS = ('start points with arbitrary components (also NaN or infinite), '
          'arbitrary bounds per component (finite or infinite), n = 1 and 2; '
          'runs of 1 iteration (2 with a lower bound and gradients in '
          '[10, 20]; thorough: 3) from an arbitrary start with arbitrary '
          'objective outputs and trial points anywhere in the closed box; '
          'over exact reals, and over IEEE doubles for the position of the '
          'first point and the points after one step (n = 1, one-sided '
          'bounds of magnitude up to 50)')
ASSUMPTIONS = ['ub - lb >= 1e-3',
               'start points between 0 and 1e-13 outside a bound may be '
               'refused or moved inside', 'floating point: start and steps of '
               'magnitude up to 1e9']
OUTSIDE = ['bounds of magnitude above 50 in floating point (the nudge is lost '
           'in rounding when it is below half a unit in the last place)',
           'start points whose length differs from that of the bounds']
REACH = ['refused', 'accepted', 'on-bound', 'not-a-number', 'matrix',
         'moved', 'landed', 'fp']
QUIET = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0)


def interior(c, x, lb, ub, label):
    for i in range(len(x)):
        if not orch._isinf(lb[i]):
            c.check(x[i] > lb[i], label)
        if not orch._isinf(ub[i]):
            c.check(x[i] < ub[i], label)


def start(c, F, n, mode, special):
    lb, ub = orch.bounds(c, F, n, mode)
    x0 = c.vec('x', n, special=True if special else None)
    keep = x0.copy()
    o = orch.execute(c, F, n, 0, x0=x0, lb=lb, ub=ub, raises=(RuntimeError,))
    fin = c.And(*[c.isfinite(v) for v in keep])
    if not bool(fin):
        c.reach('not-a-number')
        for v in keep:
            if not bool(c.isnan(v)):
                continue
            c.check(o.exc is not None and not o.evals,
                    'a start point that is not a number is refused')
        if any(bool(c.isnan(v)) for v in keep):
            return
    inside, outside = [True], []
    for i in range(n):
        for b, sg in ((lb[i], 1), (ub[i], -1)):
            if orch._isinf(b):
                continue
            inside.append(keep[i] >= b if sg == 1 else keep[i] <= b)
            outside.append(keep[i] < b - NUDGE if sg == 1 else
                           keep[i] > b + NUDGE)
    inside, outside = c.And(*inside), c.Or(*outside) if outside else False
    if o.exc is not None:
        if not bool(fin):
            return
        c.check(c.Not(inside), 'a start point inside the bounds is accepted')
        c.check(not o.evals, 'refused before the objective is called')
        c.check(o.final['exitflag'] == F.constants.ExitFlag.EXCEEDED_BOUNDARY,
                'refusal is reported as EXCEEDED_BOUNDARY')
        c.reach('refused')
        return
    c.check(c.Not(outside), 'a start point outside the bounds is refused')
    if not bool(fin):
        return
    c.reach('accepted')
    c.check(len(o.evals) == 1, 'evaluated once')
    x = o.evals[0]['x']
    if bool(inside):
        interior(c, x, lb, ub, 'first point strictly inside')
    for i in range(n):
        c.check(c.near(x[i], keep[i], NUDGE), 'start point moved by the nudge '
                'at most')
        clear = [keep[i] - lb[i] >= NUDGE] if not orch._isinf(lb[i]) else []
        if not orch._isinf(ub[i]):
            clear.append(ub[i] - keep[i] >= NUDGE)
        c.check(c.implies(c.And(*clear) if clear else True,
                          c.eq(x[i], keep[i])),
                'a component away from its bounds is not moved')
        if not orch._isinf(lb[i]) and bool(c.eq(keep[i], lb[i])):
            c.reach('on-bound')
    c.observe('x', x)


def matrix(c, F, n):
    """a start point that is a row or column matrix"""
    called = []

    def fun(x):
        called.append(x)
        return 0.0, x * 0.0, c.array([[1.0] * n] * n)
    inf = float('inf')
    o = F.minimize.Optimizer(fun, ub=c.array([inf] * n),
                             lb=c.array([-inf] * n), verbose=50,
                             options={'maxiter': 1})
    v = [c.real(f'x{i}') for i in range(n)]
    x0 = c.array([v]) if c.choose('column', 2) == 0 else \
        c.array([[e] for e in v])
    try:
        o.minimize(x0)
        c.fail('a matrix is refused as start point')
    except ValueError:
        c.reach('matrix')
        c.check(not called, 'a matrix is refused before the first call')


def run(c, F, n, K, mode, upd):
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, strict=False,
                     obj=orch.SignedObjective(c, F, n) if K == 2 else None,
                     box='closed', scaled=False, opts=QUIET, qp='neg')
    for s in o.steps:
        interior(c, s['x'], o.lb, o.ub, 'subproblems are posed from strictly '
                 'interior points')
        D = s['scaling'].diagonal()
        for i in range(n):
            c.check(D[i] > 0, 'scaling is positive')
    interior(c, o.final['x'], o.lb, o.ub, 'final point strictly inside')
    if o.ret is not None:
        interior(c, o.ret[1], o.lb, o.ub, 'returned point strictly inside')
    for e in o.evals[1:]:
        c.reach('moved')
        if mode[0] in 'bl' and bool(c.eq(e['x'][0], o.lb[0])):
            c.reach('landed')
    c.observe('x', o.final['x'])


def fp(c, F, K, mode):
    """over IEEE doubles"""
    inf = float('inf')
    x0 = c.dvec('x', 1)
    c.assume(c.And(x0[0] >= -1e9, x0[0] <= 1e9))
    b = c.double('b')
    c.assume(c.And(b >= -50.0, b <= 50.0))
    c.assume(x0[0] >= b if mode == 'l' else x0[0] <= b)
    lb, ub = (b, inf) if mode == 'l' else (-inf, b)
    pts = []

    def fun(x):
        pts.append(x.copy())
        return -float(len(pts)), c.array([1.0 if mode == 'l' else -1.0]), \
            c.array([[1.0]])

    class Steps(orch.Stepper):
        def make(self, k, a):
            s = c.dvec(f's{k}_', 1)
            c.assume(c.And(s[0] >= -1e9, s[0] <= 1e9))
            one = c.array([0.5])
            return dict(s=s, s0=one * 0.0, ss=one, ss0=one * 0.0, qpval=-1.0)
    if K:
        c.assume(x0[0] - b > 1.0 if mode == 'l' else b - x0[0] > 1.0)
    stp = Steps(c, F, 1, box=False)
    o = F.minimize.Optimizer(fun, ub=c.array([ub]), lb=c.array([lb]),
                             verbose=50, options=dict(QUIET, maxiter=K))
    orch.patch_tr(c, F, stp)
    try:
        o.minimize(x0)
    except RuntimeError:
        c.fail('a step inside the bounds is not refused (doubles)')
    interior(c, pts[0], [lb], [ub], 'first point strictly inside (doubles)')
    interior(c, o.x, [lb], [ub], 'current point strictly inside (doubles)')
    c.reach('fp')
    c.observe('x', o.x)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, lazy=True, **p):
        T.append(dict(name=h + '-' + '-'.join(str(v) for v in p.values()),
                      harness=h, params=p, lazy=lazy))
    for mode in 'blun':
        for sp in ('', 'x'):
            add('start', n=1, mode=mode, special=sp, lazy=False)
        add('run', n=1, K=3 if deep else 1 + (mode in 'l'), mode=mode,
            upd=None)
    for mode in ('bb', 'bl', 'bu', 'bn', 'lu', 'ln', 'un') if deep else (
            'bb', 'lu'):
        add('start', n=2, mode=mode, special='', lazy=False)
        add('run', n=2, K=1, mode=mode, upd=None)
    for u in ('bfgs', 'fixed') + (('sr1', 'fx', 'ssm') if deep else ()):
        add('run', n=1, K=1, mode='b', upd=u)
    for n in (1, 2):
        add('matrix', n=n, lazy=False)
    for mode in 'lu':
        for K in (0, 1):
            add('fp', K=K, mode=mode)
            T[-1]['obl_ms'] = 120000
    return T
