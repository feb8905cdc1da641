"""C14: the one-dimensional subproblem is solved globally."""
from .util import any_nonzero, dot, mv, quad

BOUNDS = ('the real solve_1d_trust_region_subproblem: every symmetric matrix, '
          'gradient, nonzero direction, start point inside the ball and '
          'radius for n = 1 and 2 (coordinates along and across the '
          'direction) and n = 3 with the direction in a coordinate plane; '
          'zero curvature, zero slope, start on the boundary and tangential '
          'directions included; compared with every admissible step length')
ASSUMPTIONS = ['real arithmetic', 'the matrix is symmetric',
               'the start point lies in the trust region']
OUTSIDE = ['rounding', 'n > 3 (the result depends on the scalars s.s, s0.s, '
           's0.s0, s.Bs, s.(B s0 + g) only)']
REACH = ['solve', 'zero']


def _t(c, tau):
    c.check(getattr(tau, 'shape', None) == (1,), 'shape of the step length')
    return tau[0]


def solve(c, F, n):
    B, g = c.symmat('B', n), c.vec('g', n)
    s, s0 = c.vec('s', n), c.vec('z', n)
    delta = c.real('delta', pos=True)
    c.assume(any_nonzero(c, s))
    c.assume(dot(s0, s0) <= delta * delta)
    keep = [v.copy() for v in (B, g, s, s0)]
    tau = F.subproblem.solve_1d_trust_region_subproblem(B, g, s, delta, s0)
    t = _t(c, tau)
    c.reach('solve')
    c.check(c.isfinite(t), 'finite step length')
    p = [s0[i] + t * s[i] for i in range(n)]
    c.check_le(dot(p, p), delta * delta, 'step stays in the trust region')
    u = c.real('u')
    v = [s0[i] + u * s[i] for i in range(n)]
    c.assume(dot(v, v) <= delta * delta)
    c.check_le(quad(B, g, p), quad(B, g, v), 'model value is the smallest')
    for a, b in zip(keep, (B, g, s, s0)):
        c.check_eq(a, b, 'arguments are not modified')


def plane(c, F, n):
    """orthonormal basis e (along the direction), f (across) [, k]: every
    direction [in the plane], start point, radius, gradient and symmetric
    matrix has coordinates of this form"""
    e0, e1 = c.unit('e0', 'e1')
    E = [[e0, e1], [-e1, e0]]
    if n == 3:
        E = [[e0, e1, 0.0], [-e1, e0, 0.0], [0.0, 0.0, 1.0]]

    def vec(co):
        return [dot(co, [E[k][i] for k in range(n)]) for i in range(n)]
    sg = c.real('sg', pos=True)
    s = c.array(vec([sg] + [0.0] * (n - 1)))
    z = [c.real(f'z{i}') for i in range(n)]
    mu = z[0]
    rho = c.real('rho', nonneg=True)
    c.assume(rho >= mu)
    c.assume(rho >= -mu)
    d2 = rho * rho + dot(z[1:], z[1:])
    c.assume(d2 > 0)
    delta = c.sqrt(d2)
    s0 = c.array(vec(z))
    b = c.symmat('b', n)
    B = c.array([[dot([E[k][i] for k in range(n)],
                      mv(b, [E[k][j] for k in range(n)]))
                  for j in range(n)] for i in range(n)])
    h = [c.real(f'h{i}') for i in range(n)]       # model gradient at s0
    bz = mv(b, z)
    g = c.array(vec([h[i] - bz[i] for i in range(n)]))
    keep = [v.copy() for v in (B, g, s, s0)]
    t = _t(c, F.subproblem.solve_1d_trust_region_subproblem(B, g, s, delta,
                                                            s0))
    c.reach('solve')
    c.check(c.isfinite(t), 'finite step length')
    p = mu + t * sg                # coordinate along e of the end point
    c.check_le(p * p, rho * rho, 'step stays in the trust region')
    u = c.real('u', lo=-1, hi=1) * rho
    A = b[0][0] / 2
    c.check_le(A * (p - mu) * (p - mu) + h[0] * (p - mu),
               A * (u - mu) * (u - mu) + h[0] * (u - mu),
               'model value is the smallest')
    for v, w in zip(keep, (B, g, s, s0)):
        c.check_eq(v, w, 'arguments are not modified')
    c.observe('t', t)


def zero(c, F, n, kind):
    B, g = c.symmat('B', n), c.vec('g', n)
    s, s0 = c.vec('s', n), c.vec('z', n)
    delta = c.real('delta', pos=True)
    if kind == 'radius':
        delta = 0.0
        s0 = c.array([0.0] * n)
    else:
        s = c.array([0.0] * n)
    t = _t(c, F.subproblem.solve_1d_trust_region_subproblem(B, g, s, delta,
                                                            s0))
    c.reach('zero')
    c.check_eq(t, 0.0, 'zero radius or direction: zero step')


def tasks(tier):
    T = []
    T.append(dict(name='solve-1', harness='solve', params=dict(n=1)))
    T.append(dict(name='plane-2', harness='plane', params=dict(n=2)))
    T.append(dict(name='plane-3', harness='plane', params=dict(n=3)))
    for k in ('radius', 'direction'):
        for n in (1, 2, 3):
            T.append(dict(name=f'zero-{k}-{n}', harness='zero',
                          params=dict(n=n, kind=k)))
    return T
