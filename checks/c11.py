"""C11: curvature safeguards keep approximations symmetric and positive."""
from .util import any_nonzero, chol_spd, det, dot, mv, tri_solve, tri_solve_t

BOUNDS = ('one update from an arbitrary symmetric (positive definite where '
          'required) matrix, inductive over update histories of any length; '
          'n = 1, 2 (thorough: 3); all entries of s, y, the matrix and phi '
          'in [0,1] arbitrary reals')
ASSUMPTIONS = [
    'real arithmetic: rounding of the updates is outside the claim',
    'the change of variables s = L^-T sigma, y = L eta for B = L L^T is a '
    'bijection, so it covers every s and y',
]
OUTSIDE = ['n > 3', 'loss of definiteness through rounding']
REACH = ['updated', 'discarded', 'sr1-skip', 'sr1-any', 'bb-skip',
         'structured']


def _approx(F, kind, phi):
    H = F.hessian_approximation
    if kind == 'broyden':
        return H.Broyden(phi)
    return dict(bfgs=H.BFGS, dfp=H.DFP)[kind]()


def definite(c, F, kind, n):
    phi = c.real('phi', lo=0, hi=1) if kind == 'broyden' else 0.0
    app = _approx(F, kind, phi)
    B, L = chol_spd(c, 'B', n)
    app._init_mat(n, B)
    sg = [c.real(f'sigma{i}') for i in range(n)]
    eta = [c.real(f'eta{i}') for i in range(n)]
    s = c.array(tri_solve_t(L, sg))
    y = c.array(mv(L, eta))
    b = dot(sg, eta)
    c.assume(any_nonzero(c, sg))
    c.assume(b > 0)
    app.update(s=s, y=y)
    new = app.get_mat()
    for i in range(n):
        for j in range(i):
            c.check_eq(new[i, j], new[j, i], 'symmetric')
    # M = L^-1 B+ L^-T
    cols = [tri_solve(L, [new[i, j] for i in range(n)]) for j in range(n)]
    M = [tri_solve(L, [cols[j][i] for j in range(n)]) for i in range(n)]
    for k in range(1, n + 1):
        c.check_pos(det([r[:k] for r in M[:k]]), f'leading minor {k}')
    c.reach('updated')
    c.observe('new', new)


def discarded(c, F, kind, n):
    """y.s <= 0 leaves the matrix exactly unchanged"""
    if kind == 'bb':
        app = F.hessian_approximation.BB()
    else:
        phi = c.real('phi') if kind == 'broyden' else 0.0
        app = _approx(F, kind, phi)
    B = c.symmat('B', n)
    app._init_mat(n, B)
    s, y = c.vec('s', n), c.vec('y', n)
    c.assume(dot(s, y) <= 0)
    app.update(s=s, y=y)
    c.reach('bb-skip' if kind == 'bb' else 'discarded')
    c.check_eq(app.get_mat(), B, 'matrix unchanged when y.s <= 0', tol=0)
    c.check_eq(app.get_diff(), 0.0 * B, 'reported difference is zero', tol=0)


def sr1(c, F, n):
    app = F.hessian_approximation.SR1()
    B = c.symmat('B', n)
    app._init_mat(n, B)
    s, z = c.vec('s', n), c.vec('z', n)
    y = z + B.dot(s)
    app.update(s=s, y=y)
    new = app.get_mat()
    c.reach('sr1-any')
    for i in range(n):
        for j in range(i):
            c.check_eq(new[i, j], new[j, i], 'symmetric')
    d = dot(z, s)
    if bool(c.Or(d * d <= 1e-16 * dot(s, s) * dot(z, z), d == 0)):
        c.reach('sr1-skip')
        c.check_eq(new, B, 'degenerate update is skipped', tol=0)
    c.observe('new', new)


def structured(c, F, cls, n, skip):
    """the secant part of the structured schemes uses the same safeguard"""
    app = getattr(F.hessian_approximation, cls)()
    app._init_mat(n)
    r = c.vec('r', 1)
    c.assume(r[0] != 0)
    hess = c.symmat('C', n)
    s, yb = c.vec('s', n), c.vec('yb', n)
    y = c.vec('y', n)
    A = c.symmat('A', n)
    app.A = A.copy()
    c.assume(any_nonzero(c, s))
    if cls == 'GNSBFGS':
        curv = dot(yb, s)
    else:
        curv = dot(yb, s) + dot(mv(hess, s), s)
    c.assume(curv <= 0)
    app.update(s=s, y=y, r=r, hess=hess, yb=yb)
    c.reach('structured')
    c.check_eq(app.A, A, 'structured part unchanged without positive '
               'curvature', tol=0)


def tasks(tier):
    T = []
    for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
        for kind in ('bfgs', 'dfp', 'broyden'):
            if n < 3 or kind != 'broyden':
                T.append(dict(name=f'definite-{kind}-n{n}',
                              harness='definite',
                              params=dict(kind=kind, n=n)))
        for kind in ('bfgs', 'dfp', 'broyden', 'bb'):
            T.append(dict(name=f'discarded-{kind}-n{n}', harness='discarded',
                          params=dict(kind=kind, n=n)))
        T.append(dict(name=f'sr1-n{n}', harness='sr1', params=dict(n=n)))
    for cls in ('SSM', 'TSSM', 'GNSBFGS'):
        for n in (1, 2):
            T.append(dict(name=f'structured-{cls}-n{n}',
                          harness='structured',
                          params=dict(cls=cls, n=n, skip=True)))
    return T
