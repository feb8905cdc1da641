"""C13: structured secant schemes combine Gauss-Newton and secant parts."""
from .util import any_nonzero, dot, mm, mtv, mv, tr

BOUNDS = ('one update from an arbitrary symmetric secant part A (inductive '
          'over histories of any length) with arbitrary Gauss-Newton matrix, '
          'residual, step, secant data and phi; n = 1, 2; residual dimension '
          '1, 2; two updates through Optimizer.update for n = 1')
ASSUMPTIONS = ['real arithmetic', 'steps are nonzero',
               'residual before the step nonzero where the scheme divides by '
               'its norm']
OUTSIDE = ['n > 2', 'rounding']
REACH = ['SSM-updated', 'SSM-kept', 'TSSM-updated', 'TSSM-kept', 'TSSM-zero',
         'GNSBFGS-updated', 'GNSBFGS-gn', 'opt', 'init']


def _make(c, F, cls, ecc=True):
    H = F.hessian_approximation
    phi = 0.0
    tol = None
    if cls == 'GNSBFGS':
        tol = c.real('tol')
        app = H.GNSBFGS(hybrid_tol=tol, enforce_curv_cond=ecc)
    else:
        phi = c.real('phi')
        app = getattr(H, cls)(phi=phi, enforce_curv_cond=ecc)
    return app, phi, tol


def _add(A, B, f=1):
    n = len(A)
    return [[A[i][j] + f * B[i][j] for j in range(n)] for i in range(n)]


def one(c, F, cls, n, m, ecc=True, zero_res=False):
    H = F.hessian_approximation
    app, phi, tol = _make(c, F, cls, ecc)
    app._init_mat(n, c.symmat('B', n))
    A = c.symmat('A', n)
    app.A = A.copy()
    C = c.symmat('C', n)
    s, yb, y = c.vec('s', n), c.vec('yb', n), c.vec('y', n)
    c.assume(any_nonzero(c, s))
    if zero_res:
        r = c.array([0.0] * m)
    else:
        r = c.vec('r', m)
        c.assume(any_nonzero(c, r))
    rho = c.norm(r)
    keepA, keepC, keepyb = A.copy(), C.copy(), yb.copy()
    old = app.get_mat()
    app.update(s=s, y=y, r=r, hess=C, yb=yb)
    new, A1 = app.get_mat(), app.A
    c.check_eq(C, keepC, 'Gauss-Newton matrix is not modified', tol=0)
    c.check_eq(yb, keepyb, 'secant data is not modified', tol=0)
    c.check_eq(app.get_diff(), new - old, 'reported difference')
    c.check_eq(app.get_structured_diff(), A1 - keepA,
               'reported secant-part difference')
    c.check(c.And(*[c.isfinite(e) for row in new for e in row]),
            'finite matrix')
    c.check(c.And(*[c.isfinite(e) for row in A1 for e in row]),
            'finite secant part')
    sc = rho if cls == 'TSSM' else 1
    ratio_case = True
    if cls == 'GNSBFGS':
        ratio_case = bool(dot(yb, s) > tol * dot(s, s))
    if ratio_case:
        c.check_eq(new, c.array(_add(C, A1, sc)),
                   'matrix is Gauss-Newton plus secant part')
    else:
        c.reach('GNSBFGS-gn')
        eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        c.check_eq(new, c.array(_add(C, eye, rho)),
                   'matrix is Gauss-Newton plus |r| I')
        c.check_eq(A1, keepA, 'secant part unchanged', tol=0)
    # secant data and matrix of the scheme
    if cls == 'GNSBFGS':
        ys, bs, what = yb, keepA, A1
    elif cls == 'TSSM':
        ys = c.array([a + b for a, b in zip(mv(C, s), yb)])
        bs, what = c.array(_add(C, keepA, rho)), c.array(_add(C, A1, rho))
    else:
        ys = c.array([a + b for a, b in zip(mv(C, s), yb)])
        bs, what = c.array(_add(C, keepA)), c.array(_add(C, A1))
    b = dot(ys, s)
    q = dot(mv(bs, s), s)
    if not ratio_case:
        return
    if zero_res and cls == 'TSSM':
        c.reach('TSSM-zero')
        return
    if ecc and bool(b <= 0):
        c.reach(cls + '-kept')
        c.check_eq(A1, keepA, 'no positive curvature: secant part unchanged',
                   tol=0)
        return
    if bool(c.Or(b == 0, q == 0)):
        return          # update undefined
    c.reach(cls + '-updated')
    c.check_eq(c.array(mv(what, s)), ys, 'structured secant equation')
    # same update as the classical scheme on the same data
    gh = H.Broyden(phi, enforce_curv_cond=ecc)
    gh._init_mat(n, bs)
    gh.update(s=s, y=ys)
    c.check_eq(what, gh.get_mat(), 'Broyden-class update of the structured '
               'matrix')
    c.observe('new', new)


class _Step:
    pass


def optimizer_args(c, F, cls, n, m, k_upd=1):
    """Optimizer.update: C = J+'J+, yb = (J+ - J)' r+ (scaled)"""
    H, M = F.hessian_approximation, F.minimize
    app = getattr(H, cls)()
    inf = F.np.inf
    opt = M.Optimizer(lambda x: None, ub=c.array([inf] * n),
                      lb=c.array([-inf] * n), hessian_update=app,
                      resfun=True, verbose=50)
    app._init_mat(n)
    A = c.symmat('A', n)
    app.A = A.copy()
    gh = getattr(H, cls)()
    gh._init_mat(n)
    gh.A = A.copy()
    r0, J0 = c.vec('r0_', m), c.mat('J0_', m, n)
    c.assume(any_nonzero(c, r0))
    opt.x, opt.grad = c.vec('x', n), c.array(mtv(J0, r0))
    opt.fval = dot(r0, r0) / 2
    opt.hess = app.get_mat()
    fo = M.Funout(fval=opt.fval, grad=opt.grad, x=opt.x, res=r0, sres=J0,
                  hess=c.array(mm(tr(J0), J0)))
    for k in range(k_upd):
        step = _Step()
        step.s, step.s0 = c.vec(f's{k}_', n), c.vec(f'o{k}_', n)
        step.ss, step.ss0 = c.vec(f'ss{k}_', n), c.vec(f'so{k}_', n)
        s = step.s + step.s0
        c.assume(any_nonzero(c, s))
        r1, J1 = c.vec(f'r{k + 1}_', m), c.mat(f'J{k + 1}_', m, n)
        c.assume(any_nonzero(c, r1))
        C1 = c.array(mm(tr(J1), J1))
        g1 = c.array(mtv(J1, r1))
        fn = M.Funout(fval=dot(r1, r1) / 2, grad=g1, x=opt.x + s, res=r1,
                      sres=J1, hess=C1)
        keepJ = J1.copy()
        opt.update(step, fn, fo)
        yb = mtv(J1 - J0, r1)
        if cls != 'SSM':
            f = c.norm(r1) / c.norm(r0)
            yb = [e * f for e in yb]
        gh.update(s=s, y=g1 - fo.grad, r=r1, hess=C1, yb=c.array(yb))
        c.reach('opt')
        c.check_eq(opt.hess, gh.get_mat(), 'optimizer passes the documented '
                   'secant data')
        c.check_eq(app.A, gh.A, 'secant part from the documented data')
        c.check_eq(J1, keepJ, 'Jacobian is not modified', tol=0)
        c.observe('hess', opt.hess)
        fo, r0, J0 = fn, r1, J1


def init(c, F, cls, n):
    """start of a run: small positive definite secant part"""
    app = getattr(F.hessian_approximation, cls)()
    app.A = c.symmat('stale', n)
    app._init_mat(n, c.symmat('B', n))
    c.reach('init')
    for i in range(n):
        for j in range(n):
            if i != j:
                c.check_eq(app.A[i, j], 0.0, 'initial secant part')
            else:
                c.check(c.And(app.A[i, i] > 0, app.A[i, i] <= 1e-10),
                        'initial secant part')
    c.check_eq(app.get_diff(), c.array([[0.0] * n] * n), 'initial difference')
    c.check_eq(app.get_structured_diff(), c.array([[0.0] * n] * n),
               'initial difference')


def tasks(tier):
    T = []
    deep = tier == 'thorough'
    for cls in ('SSM', 'TSSM', 'GNSBFGS'):
        for n, m in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if deep else ()):
            for ecc in (True, False):
                if n == 2 and not ecc and not deep:
                    continue
                T.append(dict(name=f'one-{cls}-{n}{m}-c{int(ecc)}',
                              harness='one', params=dict(
                                  cls=cls, n=n, m=m, ecc=ecc)))
            T.append(dict(name=f'zero-{cls}-{n}{m}', harness='one',
                          params=dict(cls=cls, n=n, m=m, zero_res=True)))
            T.append(dict(name=f'opt-{cls}-{n}{m}', harness='optimizer_args',
                          params=dict(cls=cls, n=n, m=m)))
        if deep:
            T.append(dict(name=f'opt2-{cls}', harness='optimizer_args',
                          params=dict(cls=cls, n=1, m=1, k_upd=2)))
        T.append(dict(name=f'init-{cls}', harness='init',
                      params=dict(cls=cls, n=2)))
    return T
