"""Scenarios around the step classes, shared by C16 and C17.

The subproblem solvers are replaced by stubs that return an arbitrary element
of the trust region (what C14 and C15 guarantee), scipy's least squares and
constrained minimiser by stubs that return an arbitrary vector or an arbitrary
point satisfying the constraints they are given.  Reflection and truncation
start from an arbitrary step that meets the contract checked here (s0 = D ss0,
|ss0| <= radius, x + s0 in the box), so chains of any length are covered by
induction."""
from .util import any_nonzero, dot, mv, quad

INF = float('inf')


def diag(c, F, d):
    n = len(d)
    return F.csc_matrix(c.array([[d[i] if i == j else 0.0 for j in range(n)]
                                 for i in range(n)]))


class Problem:
    """point, box, scaling, Hessian, gradient, radius"""

    def __init__(self, c, F, n, mode, radius=None, theta=None, hess=True,
                 delta=True):
        self.c, self.F, self.n = c, F, n
        self.x = c.vec('x', n)
        lb, ub = [], []
        self.lo, self.up = [], []          # distances to the bounds, > 0
        for i in range(n):
            k = mode[i % len(mode)]
            lo = c.real(f'lo{i}', pos=True) if k in 'bl' else INF
            up = c.real(f'up{i}', pos=True) if k in 'bu' else INF
            self.lo.append(lo)
            self.up.append(up)
            lb.append(self.x[i] - lo if lo is not INF else -INF)
            ub.append(self.x[i] + up if up is not INF else INF)
        self.lb, self.ub = c.array(lb), c.array(ub)
        self.d = [c.real(f'd{i}', pos=True) for i in range(n)]
        self.scaling = diag(c, F, self.d)
        self.hess = c.symmat('B', n) if hess else c.array(
            [[0.0] * n for _ in range(n)])
        self.cd = [c.real(f'c{i}', nonneg=True) if hess else 0.0
                   for i in range(n)]
        self.sg = c.vec('sg', n)
        self.delta = c.real('delta', pos=True) if delta else 1.0
        self.theta = c.real('theta', pos=True, hi=1.0) if theta is None \
            else theta
        self.args = (self.scaling, diag(c, F, self.cd), self.delta, self.theta,
                     self.ub, self.lb)
        self.keep = [v.copy() for v in (self.x, self.sg, self.hess, self.lb,
                                        self.ub)]

    def model(self):
        n, d, B = self.n, self.d, self.hess
        return [[d[i] * B[i][j] * d[j] + (self.cd[i] if i == j else 0.0)
                 for j in range(n)] for i in range(n)]

    def new(self, cls, *extra):
        c, F = self.c, self.F
        return cls(self.x, self.sg, self.hess, *self.args, *extra)

    def logger(self):
        import logging
        lg = logging.getLogger('fides.check')
        lg.propagate = False
        return lg


class Solvers:
    """stand-ins for the subproblem solvers"""

    def __init__(self, c, F, p, descent=False):
        self.c, self.p, self.k, self.descent = c, p, 0, descent
        self.out = []
        for name in ('solve_nd_trust_region_subproblem',
                     'solve_1d_trust_region_subproblem'):
            f = self.nd if '_nd_' in name else self.one
            for mod in (F.subproblem, F.steps):
                if hasattr(mod, name):
                    c.patch(mod, name, f)

    def nd(self, b, g, delta, logger=None):
        c = self.c
        n = len(g)
        sc = c.vec(f'sc{self.k}_', n)
        self.k += 1
        c.assume(dot(sc, sc) <= delta * delta)
        if self.descent:
            c.assume(dot(g, sc) <= 0)
            c.assume(quad(b, g, sc) <= 0)
        self.out.append(sc.copy())
        return sc, 'indef'

    def one(self, b, g, s, delta, s0):
        c = self.c
        t = c.real(f'sc{self.k}_0')
        self.k += 1
        v = [s0[i] + t * s[i] for i in range(len(s))]
        c.assume(dot(v, v) <= delta * delta)
        if self.descent:
            c.assume(t * dot(g, s) <= 0)
            c.assume(quad(b, g, v) <= 0)
        self.out.append(c.array([t]))
        return c.array([t])


def in_box(c, p, st):
    for i in range(p.n):
        t = st.s[i] + st.s0[i]
        for b, sg in ((p.up[i], 1), (p.lo[i], -1)):
            if b is INF:
                continue
            if c.symbolic:
                c.check_le(sg * t, b, 'step stays in the box')
            else:
                # relative to the distance, but for the rounding in x
                tol = 1e-9 * b + 1e-15 * (abs(p.x[i]) + abs(st.s0[i]))
                c.check(sg * t <= b + tol, 'step stays in the box')


def convex(c, u, v, a, r2):
    """|u + a v|^2 <= r2 given |u|^2 <= r2, |u + v|^2 <= r2, 0 <= a <= 1"""
    w = [u[i] + v[i] for i in range(len(u))]
    c.hint(a, r2 - dot(w, w))
    c.hint(1 - a, r2 - dot(u, u))
    c.hint(a, 1 - a, dot(v, v))


def geometry(c, p, st, tag=''):
    """the contract of a proposed step (C16)"""
    n = p.n
    in_box(c, p, st)
    for i in range(n):
        c.check(c.isfinite(st.s[i] + st.s0[i]), 'step is finite')
    r2 = p.delta * p.delta
    c.check_le(dot(st.ss0, st.ss0), r2, 'scaled offset stays in the trust '
               'region')
    convex(c, st.ss0, st.og_ss, st.alpha, r2)
    tot = [st.ss[i] + st.ss0[i] for i in range(n)]
    c.check_le(dot(tot, tot), p.delta * p.delta,
               'scaled step stays in the trust region')


def stepback_rule(c, p, st, og_s, og_ss, at=None):
    """the uncut step is cut to the fraction theta of the distance to the
    first bound it meets, if that is shorter"""
    n = p.n
    at = [0.0] * n if at is None else at
    fr, room = [], []
    for i in range(n):
        for dist, sg in ((p.up[i], 1), (p.lo[i], -1)):
            if dist is INF:
                continue
            # component i may use theta times the distance to the bound
            rest = dist - sg * at[i]
            room.append(sg * og_s[i] <= p.theta * rest)
            fr.append(c.And(sg * og_s[i] > 0,
                            c.eq(sg * st.s[i], p.theta * rest)))
    full = c.And(*[c.eq(st.s[i], og_s[i]) for i in range(n)],
                 *[c.eq(st.ss[i], og_ss[i]) for i in range(n)])
    # a cut step is a multiple of the uncut one
    par = [c.eq(st.s[i] * og_s[j], st.s[j] * og_s[i])
           for i in range(n) for j in range(i)]
    par += [c.eq(st.s[i] * og_ss[j], st.ss[j] * og_s[i])
            for i in range(n) for j in range(n)]
    if not room:
        c.check(full, 'step is taken in full when it stays clear')
        return
    clear = c.And(*room)
    c.check(c.Or(c.Not(clear), full),
            'step is taken in full when it stays clear')
    c.check(c.Or(clear, c.And(c.Or(*fr), *par)),
            'otherwise the fraction theta of the distance is taken')


def consistency(c, p, st):
    """C17"""
    n = p.n
    for i in range(n):
        c.check_eq(st.s[i], p.d[i] * st.ss[i],
                   'step is the scaled step in original coordinates')
        c.check_eq(st.s0[i], p.d[i] * st.ss0[i],
                   'offset is the scaled offset in original coordinates')
    tot = [st.ss[i] + st.ss0[i] for i in range(n)]
    c.check_eq(st.qpval, quad(p.model(), p.sg, tot),
               'model value belongs to the total scaled step')


def unmodified(c, p):
    for a, b in zip(p.keep, (p.x, p.sg, p.hess, p.lb, p.ub)):
        c.check_eq(b, a, 'arguments are not modified')


def judge(c, p, st, what):
    if what == 'geom':
        geometry(c, p, st)
    else:
        consistency(c, p, st)


# ---------------------------------------------------------------- scenarios


def first(c, F, n, mode, kind, what, theta=None):
    """steps that start at the current point"""
    p = Problem(c, F, n, mode, theta=theta, hess=what != 'geom')
    S = Solvers(c, F, p)
    cls = {'full': F.steps.TRStepFull, 'grad': F.steps.GradientStep}[kind]
    if kind == 'grad':
        # direction in polar form
        r = c.real('r', nonneg=True)
        e = unitvec(c, n, 'q')
        p.sg[:] = [r * v for v in e]
        p.keep[1] = p.sg.copy()
    st = p.new(cls, p.logger())
    st.calculate()
    c.reach(kind)
    if bool(st.alpha < 1):
        c.reach('cut')
    else:
        c.reach('uncut')
    judge(c, p, st, what)
    if what == 'geom':
        if kind == 'full':
            og = S.out[0]
        else:
            og = [S.out[0][0] * v for v in e] if bool(r > 0) else [0.0] * n
        stepback_rule(c, p, st, [p.d[i] * og[i] for i in range(n)], og)
    unmodified(c, p)


def unitvec(c, n, name):
    if n == 1:
        return [1.0 if c.choose(name, 2) else -1.0]
    a, b = c.unit(name + 'c', name + 's')
    if n == 2:
        return [a, b]
    u, v = c.unit(name + 'C', name + 'S')
    return [a * u, b * u, v]


def contract(c, p, ss0, used=None):
    """an offset in the box and in the trust region"""
    c.assume(dot(ss0, ss0) <= p.delta * p.delta)
    s0 = c.array([p.d[i] * ss0[i] for i in range(p.n)])
    for i in range(p.n):
        if used is not None and i not in used:
            continue
        if p.up[i] is not INF:
            c.assume(s0[i] <= p.up[i])
        if p.lo[i] is not INF:
            c.assume(-s0[i] <= p.lo[i])
    return s0


def built(c, F, n, mode, kind, what, cols=1, fixed=0, s0=True, theta=None):
    """construction of a reflected or truncated step from an arbitrary
    earlier step that meets the contract"""
    p = Problem(c, F, n, mode, hess=False, theta=theta)
    pre = p.new(F.steps.Step, p.logger())
    used = range(fixed) if kind == 'truncate' else range(n)
    if s0:
        ss0 = c.array([c.real(f'z{i}') if i in used else 0.0
                       for i in range(n)])
        pre.ss0 = ss0
        pre.s0 = contract(c, p, ss0, used)
        pre.x = p.x + pre.s0
    if kind == 'reflect':
        e = unitvec(c, n, 'q')
        r = c.real('r', pos=True)
        basis, sc = [e], c.array([r])
    else:
        basis = [[0.0] * fixed + v for v in orthobasis(c, n - fixed, cols)]
        sc = c.vec('psc', cols)
        c.assume(any_nonzero(c, sc))
    pre.subspace = c.array([[v[i] for v in basis] for i in range(n)])
    pre.sc = sc
    pre.ss = c.array([dot([v[i] for v in basis], sc) for i in range(n)])
    pre.s = c.array([p.d[i] * pre.ss[i] for i in range(n)])
    tot = [pre.ss[i] + pre.ss0[i] for i in range(n)]
    r2 = p.delta * p.delta
    c.assume(dot(tot, tot) <= r2)
    pre.step_back()
    # only steps that had to be cut get a successor
    c.assume(pre.alpha < 1)
    att = ('s', 'ss', 's0', 'ss0', 'subspace', 'og_s', 'og_ss', 'x')
    keep = [getattr(pre, k).copy() for k in att]
    cls = {'reflect': F.steps.TRStepReflected,
           'truncate': F.steps.TRStepTruncated}[kind]
    st = p.new(cls, pre)
    c.reach(kind)
    hit = [i for i in range(n) if bool(c.isfinite(pre.br[i])) and
           bool(c.eq(pre.br[i], pre.minbr, 0))]
    c.check(len(hit) > 0, 'some variable met its bound')
    # the fraction of the uncut step up to the first bound
    f = c.min(pre.minbr, 1.0)
    for i in range(n):
        # f |s_i| is at most the distance of i to the bound ahead
        if not isinstance(pre.br[i], float):
            for b, sg in ((p.up[i], 1), (p.lo[i], -1)):
                if b is not INF:
                    c.hint(sg * pre.og_s[i], pre.br[i] - f) \
                        if bool(sg * pre.og_s[i] > 0) else None
    for i in range(n):
        for b, sg in ((p.up[i], 1), (p.lo[i], -1)):
            if b is not INF:
                c.check_le(sg * st.s0[i], b, 'offset stays in the box')
        c.check_eq(st.s0[i], p.d[i] * st.ss0[i], 'offset is the scaled '
                   'offset in original coordinates')
        c.check_eq(st.x[i], p.x[i] + st.s0[i], 'step starts at the offset')
    if kind == 'reflect':
        convex(c, pre.ss0, pre.og_ss, f, r2)
        c.check_eq(st.subspace.shape, (n, 1), 'one direction')
        for i in range(n):
            c.check_eq(st.ss0[i], pre.ss0[i] + f * pre.og_ss[i],
                       'a reflected step starts where the earlier step met '
                       'its first bound')
            c.check_eq(st.subspace[i, 0] * r,
                       (-1 if i in hit else 1) * pre.og_ss[i],
                       'movement of the variables that met their bound is '
                       'reversed')
    else:
        for i in range(n):
            c.check_eq(st.ss0[i], pre.ss0[i] + (
                p.theta * pre.minbr * pre.og_ss[i] if i in hit else 0.0),
                'a truncated variable takes the fraction theta of its '
                'distance')
    c.check_le(dot(st.ss0, st.ss0), r2, 'scaled offset stays in the trust '
               'region')
    m = st.subspace.shape[1]
    col = [[st.subspace[i, k] for i in range(n)] for k in range(m)]
    for k in range(m):
        for j in range(k, m):
            c.check_eq(dot(col[k], col[j]), 1.0 if j == k else 0.0,
                       'basis of the subspace is orthonormal')
        if kind == 'truncate':
            for i in hit:
                c.check_eq(col[k][i], 0.0, 'truncated variables stay where '
                           'they are')
            for i in range(fixed):
                c.check_eq(col[k][i], 0.0, 'truncated variables stay where '
                           'they are')
    for a, k in zip(keep, att):
        c.check_eq(getattr(pre, k), a, 'the earlier step is not modified')
    unmodified(c, p)


def successor(c, F, n, mode, kind, what, cols=1, fixed=0, theta=None):
    """calculation of a reflected or truncated step from an arbitrary offset
    and subspace that meet the contract shown by `built`"""
    p = Problem(c, F, n, mode, hess=what != 'geom', theta=theta)
    S = Solvers(c, F, p)
    pre = p.new(F.steps.Step, p.logger())
    pre.s = c.array([1.0] + [0.0] * (n - 1))
    pre.ss, pre.sc = pre.s.copy(), c.array([1.0])
    pre.og_s, pre.og_ss, pre.og_sc = pre.s, pre.ss, pre.sc
    pre.br = c.array([0.0] + [INF] * (n - 1))
    pre.minbr = pre.alpha = 0.0
    pre.iminbr = c.array([0], kind='i')
    pre.subspace = c.array([[1.0]] + [[0.0]] * (n - 1))
    cls = {'reflect': F.steps.TRStepReflected,
           'truncate': F.steps.TRStepTruncated}[kind]
    st = p.new(cls, pre)
    used = range(fixed) if kind == 'truncate' else range(n)
    st.ss0 = c.array([c.real(f'z{i}') if i in used else 0.0
                      for i in range(n)])
    st.s0 = contract(c, p, st.ss0, used)
    st.x = p.x + st.s0
    if kind == 'reflect':
        basis = [unitvec(c, n, 'q')]
    else:
        basis = [[0.0] * fixed + v for v in orthobasis(c, n - fixed, cols)]
    st.subspace = c.array([[v[i] for v in basis] for i in range(n)]) \
        if basis else c.array([[0.0]] * n)[:, :0]
    sub = st.subspace.copy()
    st.calculate()
    c.reach(kind)
    judge(c, p, st, what)
    if what == 'geom':
        og = [dot([v[i] for v in basis], S.out[0]) if basis else 0.0
              for i in range(n)]
        stepback_rule(c, p, st, [p.d[i] * og[i] for i in range(n)], og,
                      at=st.s0)
    c.check_eq(st.subspace, sub, 'subspace is kept')
    unmodified(c, p)


def orthobasis(c, n, cols):
    if n == 1:
        return [[1.0]][:cols]
    if n == 2:
        a, b = c.unit('uc', 'us')
        if cols == 2:
            return [[1.0, 0.0], [0.0, 1.0]]
        return [[a, b], [-b, a]][:cols]
    if cols == n:
        return [[1.0 if i == j else 0.0 for i in range(n)]
                for j in range(n)]
    a, b = c.unit('uc', 'us')
    u, v = c.unit('uC', 'uS')
    return [[a, b, 0.0], [-b * u, a * u, v], [b * v, -a * v, u]][:cols]


def refined(c, F, n, mode, what, theta=None):
    """interior-point refinement with any result that satisfies the
    constraints handed to scipy"""
    p = Problem(c, F, n, mode, hess=what != 'geom', theta=theta)
    Solvers(c, F, p)
    tr = p.new(F.steps.TRStepFull, p.logger())
    tr.calculate()
    c.assume(tr.alpha < 1)

    class Res:
        pass

    def minimise(fun, x0, args=(), method=None, jac=None, hess=None,
                 constraints=(), bounds=None, **k):
        m = len(x0)
        r = Res()
        r.x = c.vec('ref', m)
        r.success = True
        fun(r.x)
        for con in constraints if isinstance(constraints, (list, tuple)) \
                else [constraints]:
            if hasattr(con, 'A'):
                v = con.A.dot(r.x)
            else:
                v = con.fun(r.x)
            lo, up = con.lb, con.ub
            for i in range(len(v)):
                for b, sg in ((lo, 1), (up, -1)):
                    bi = b[i] if hasattr(b, '__len__') else b
                    if not (isinstance(bi, float) and bi in (INF, -INF)):
                        c.assume(sg * (v[i] - bi) >= 0)
        r.fun = fun(r.x)
        return r
    if c.symbolic:
        F.env.opt_minimize = minimise
    else:
        import scipy.optimize as so
        c.patch(so, 'minimize', minimise)
        if hasattr(F.steps, 'minimize'):
            c.patch(F.steps, 'minimize', minimise)
    st = p.new(F.steps.RefinedStep, tr)
    st.calculate()
    c.reach('refine')
    judge(c, p, st, what)
    unmodified(c, p)


def linalg_stub(c, F, ev, V, w):
    """eigenvalues, eigenvectors and least-squares solution as given"""
    n = len(ev)

    def eig(M, *a, **k):
        return c.array(list(ev)), c.array([list(r) for r in V])

    def vals(M, *a, **k):
        return c.array(list(ev))

    def lstsq(a, b, *r, **k):
        return c.array(list(w)), None, n, None
    if c.symbolic:
        F.env.eig = F.env.eigh = eig
        F.env.eigvals = vals
        F.env.lstsq = lambda a, b: c.array(list(w))
        return
    import numpy.linalg as nla
    import scipy.linalg as sla
    for m in (nla, sla):
        c.patch(m, 'eig', eig)
        c.patch(m, 'eigh', eig)
        c.patch(m, 'eigvals', vals)
        c.patch(m, 'eigvalsh', vals)
        c.patch(m, 'lstsq', lstsq)


def two_d(c, F, n, mode, what, posdef, theta=None):
    """two-dimensional subspace, with any eigenvalues, orthonormal
    eigenvectors and Newton direction"""
    p = Problem(c, F, n, mode, theta=theta, hess=what != 'geom')
    S = Solvers(c, F, p)
    k0 = c.choose('low', n) if not posdef else 0
    ev = [float(1 + i) for i in range(n)]
    if posdef:
        e = unitvec(c, n, 'q')
        r = c.real('r', nonneg=True)
        if n == 3:
            # gradient in the plane of e and f
            a, b = c.unit('ea', 'eb')
            u, v = c.unit('fu', 'fv')
            e, f = [a, b, 0.0], [-b * u, a * u, v]
            y, z = c.real('gy'), c.real('gz')
            p.sg[:] = [y * e[i] + z * f[i] for i in range(n)]
            p.keep[1] = p.sg.copy()
        w = [-r * v for v in e]
        V = [[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)]
    else:
        ev[k0] = -1.0
        e = unitvec(c, n, 'q')
        cols = [[0.0] * n for _ in range(n)]
        cols[k0] = e
        V = [[cols[k][i] for k in range(n)] for i in range(n)]
        w = [0.0] * n
    linalg_stub(c, F, ev, V, w)
    st = p.new(F.steps.TRStep2D, p.logger())
    m = st.subspace.shape[1]
    c.check(c.And(m >= 1, m <= 2), 'one or two directions')
    col = [[st.subspace[i, k] for i in range(n)] for k in range(m)]
    for k in range(m):
        for j in range(k, m):
            v = dot(col[k], col[j])
            ok = c.eq(v, 1.0 if j == k else 0.0)
            if posdef and m == 1:
                # no direction at a stationary point
                ok = c.Or(ok, c.And(*[c.eq(x, 0.0) for x in col[0]]))
            c.check(ok, 'basis of the subspace is orthonormal')
    if n > 2 or m > 1:
        # arbitrary orthonormal basis from here on
        fresh = orthobasis(c, n, m)
        st.subspace = c.array([[v[i] for v in fresh] for i in range(n)])
    st.calculate()
    c.reach('2d')
    judge(c, p, st, what)
    unmodified(c, p)


def cut_named(c, F, p, H=None):
    """Names the entries of the uncut step after showing that it lies in the
    trust region and does not increase the model.  No restriction."""
    if not c.symbolic:
        return
    orig = F.steps.Step.step_back

    def step_back(self):
        n, r2 = p.n, p.delta * p.delta
        for i in range(n):
            c.check_eq(self.s[i], p.d[i] * self.ss[i],
                       'step is the scaled step in original coordinates')
            c.check_eq(self.ss0[i], 0.0, 'step starts at the point')
        c.check_le(dot(self.ss, self.ss), r2,
                   'uncut step stays in the trust region')
        if H is not None:
            c.check_le(quad(H, self.sg, self.ss), 0.0,
                       'model value of the uncut step is not positive')
            if n == 1:
                c.check_le(dot(self.sg, self.ss), 0.0,
                           'uncut step is a descent direction')
        self.ss = c.array([c.name(v) for v in self.ss])
        self.s = c.array([p.d[i] * self.ss[i] for i in range(n)])
        self.sc = c.array([c.name(v) for v in self.sc])
        c.assume(dot(self.ss, self.ss) <= r2)
        if H is not None:
            q, l = quad(H, self.sg, self.ss), dot(self.sg, self.ss)
            c.assume(q <= 0)
            if n == 1:
                c.assume(l <= 0)
        orig(self)
        if H is not None:
            a = self.alpha
            c.hint(a, a, -q)
            if n == 1:
                c.hint(a, 1 - a, -l)
    c.patch(F.steps.Step, 'step_back', step_back)


def steihaug(c, F, n, mode, what, theta=None, turn=True):
    """conjugate gradients; coordinates along and across the gradient"""
    p = Problem(c, F, n, mode, theta=theta, hess=False)
    st = p.new(F.steps.TRStepSteihaug, p.logger())
    h = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            h[i][j] = h[j][i] = c.real(f'h{i}{j}')
    r = c.real('r', nonneg=True)
    E = [[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)]
    if n == 2 and turn:
        a, b = c.unit('ua', 'ub')
        E = [[a, b], [-b, a]]
    H = [[dot([E[k][i] for k in range(n)],
              mv(h, [E[k][j] for k in range(n)])) for j in range(n)]
         for i in range(n)]
    st.shess = c.array(H)
    st.sg = c.array([r * E[0][i] for i in range(n)])
    cut_named(c, F, p, H if what != 'geom' else None)
    st.calculate()
    c.reach('cg')
    if what == 'geom':
        c.check_eq(st.ss0, c.array([0.0] * n), 'step starts at the point')
        c.check_le(dot(st.og_ss, st.og_ss), p.delta * p.delta,
                   'uncut step stays in the trust region')
        geometry(c, p, st)
        return
    for i in range(n):
        c.check_eq(st.s[i], p.d[i] * st.ss[i],
                   'step is the scaled step in original coordinates')
    tot = [st.ss[i] + st.ss0[i] for i in range(n)]
    c.check_eq(st.qpval, quad(H, st.sg, tot),
               'model value belongs to the total scaled step')
    # a step that is cut in two dimensions may increase the model, the
    # gradient step is proposed in its place then
    if n == 1 or bool(c.eq(st.alpha, 1.0)):
        c.check_le(st.qpval, 0.0, 'model value is not positive')


def stepback(c, F, n, mode, theta=None):
    """cutting an arbitrary step"""
    p = Problem(c, F, n, mode, theta=theta, hess=False, delta=False)
    st = p.new(F.steps.Step, p.logger())
    st.ss = c.vec('ps', n)
    st.sc = c.vec('pc', n)
    st.s = c.array([p.d[i] * st.ss[i] for i in range(n)])
    og, oss, osc = st.s.copy(), st.ss.copy(), st.sc.copy()
    st.step_back()
    c.reach('cut direct')
    in_box(c, p, st)
    stepback_rule(c, p, st, og, oss)
    for i in range(n):
        c.check_eq(st.s[i], p.d[i] * st.ss[i],
                   'step is the scaled step in original coordinates')
        c.check_eq(st.sc[i], osc[i] * st.alpha,
                   'coefficients are cut alike')
    c.check_eq(st.og_s, og, 'the uncut step is kept')
    c.check_eq(st.og_ss, oss, 'the uncut step is kept')
    unmodified(c, p)
