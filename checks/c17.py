"""C17: step and model value are consistent."""
from .steplib import (Problem, Solvers, first, refined,  # noqa: F401
                      steihaug, successor, two_d)
from .util import dot, quad

BOUNDS = ('the real step classes as in C16 (full, gradient, reflected and '
          'truncated n = 1, 2 from any offset and subspace, 2D n = 1, 2, '
          'conjugate gradients n = 1, 2, refined n = 2) with every symmetric '
          'Hessian, scaling, gradient and bound distances; trust_region with '
          'each subspace dimension '
          'for n = 1 with two bounds and n = 2 without; the choice among several '
          'candidates is C18')
ASSUMPTIONS = [
    'real arithmetic',
    'the subproblem solvers return any point of the ball they are given; for '
    'the sign of the model value additionally one that does not increase the '
    'model (C14, C15: they return a minimiser)',
    'least squares any vector, the eigensolver any orthonormal vectors, the '
    'interior-point minimiser any point that satisfies its constraints']
OUTSIDE = ['rounding', 'n > 3']
REACH = ['full', 'grad', 'reflect', 'truncate', 'refine', '2d', 'cg',
         'chosen', 'cut']


def chosen(c, F, n, mode, dim, strategy, axis=False):
    """the step proposed by trust_region"""
    p = Problem(c, F, n, mode)
    Solvers(c, F, p, descent=True)
    g, dv = c.vec('g', n), [c.real(f'dv{i}', nonneg=True) for i in range(n)]
    if axis:
        g[1:] = 0.0
    dv = c.array(dv)
    keep = [v.copy() for v in (g, dv)]
    if dim == 'TWO':
        linalg = [c.choose('pd', 2)]
        from .steplib import linalg_stub
        w = [1.0] if n == 1 else [0.6, 0.8]
        linalg_stub(c, F, [1.0 if linalg[0] else -1.0] + [2.0] * (n - 1),
                    [w, [-w[1], w[0]]] if n == 2 else [w],
                    [3 * v for v in w])
    st = F.trust_region.trust_region(
        p.x, g, p.hess, p.scaling, p.delta, dv, p.theta, p.lb, p.ub,
        getattr(F.constants.SubSpaceDim, dim),
        getattr(F.constants.StepBackStrategy, strategy), p.logger())
    c.reach('chosen')
    d = p.d
    model = [[d[i] * p.hess[i][j] * d[j] +
              (c.abs(g[i]) * dv[i] if i == j else 0.0)
              for j in range(n)] for i in range(n)]
    sg = [d[i] * g[i] for i in range(n)]
    for i in range(n):
        c.check_eq(st.s[i] + st.s0[i], d[i] * (st.ss[i] + st.ss0[i]),
                   'step is the scaled step in original coordinates')
    tot = [st.ss[i] + st.ss0[i] for i in range(n)]
    c.check_eq(st.qpval, quad(model, sg, tot),
               'model value belongs to the total scaled step')
    if st.type in ('nd', '2d', 'cg', 'cgs', 'g'):
        a = st.alpha
        q, l = quad(model, sg, st.og_ss), dot(sg, st.og_ss)
        c.hint(a, a, -q)
        c.hint(a, 1 - a, -l)
    c.check_le(st.qpval, 0.0, 'model value of the chosen step is not '
               'positive')
    if bool(st.alpha < 1):
        c.reach('cut')
    c.check_eq(g, keep[0], 'arguments are not modified')
    c.check_eq(dv, keep[1], 'arguments are not modified')


def scenarios(deep):
    for n, modes in ((1, ('b',)), (2, ('b', 'nu'))):
        for m in modes:
            for k in ('full', 'grad'):
                yield 'first', dict(n=n, mode=m, kind=k)
    for n in (1, 2):
        yield 'successor', dict(n=n, mode='b', kind='reflect')
    for n, cols, fixed in ((1, 1, 0), (2, 1, 0), (2, 2, 0), (2, 1, 1),
                           (2, 0, 2)):
        yield 'successor', dict(n=n, mode='b', kind='truncate', cols=cols,
                                fixed=fixed)
    yield 'refined', dict(n=2, mode='b')
    for n in (1, 2):
        for pd in (True, False):
            yield 'two_d', dict(n=n, mode='nu', posdef=pd)
    for n, m, t in ((1, 'b', False), (2, 'nu', False)):
        yield 'steihaug', dict(n=n, mode=m, turn=t)
    for dim in ('FULL', 'STEIHAUG', 'TWO'):
        yield 'chosen', dict(n=1, mode='b', dim=dim, strategy='REFLECT')
    for dim in ('FULL', 'TWO'):
        yield 'chosen', dict(n=2, mode='n', dim=dim, strategy='MIXED')


def tasks(tier):
    T = []
    for h, p in scenarios(tier == 'thorough'):
        name = h + '-' + '-'.join(str(v) for v in p.values())
        if h != 'chosen':
            p = dict(p, what='model')
        T.append(dict(name=name, harness=h, params=p, lazy=False))
    return T
