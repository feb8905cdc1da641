"""C15: the full trust-region subproblem is solved to optimality."""
from .util import dot

BOUNDS = ('n = 1, 2 (all rotations) and n = 3 (eigenbases with one coordinate '
          'axis, ordered and repeated eigenvalues); every gradient and '
          'radius; every outcome of the root finders: a root, any other '
          'number, failure; up to 2 (thorough: 3) interval extensions before '
          'brentq')
ASSUMPTIONS = ['real arithmetic',
               'linalg.eigh returns the eigen-decomposition in ascending '
               'order', 'brentq returns a root inside a bracketing interval; '
               'newton returns a root, an arbitrary number, or fails',
               'optimality is claimed if one of the root finders finds the '
               'root (or none is needed); otherwise feasibility']
OUTSIDE = ['rounding', 'n > 3', 'accuracy of scipy routines']
REACH = ['interior', 'boundary', 'hard', 'zero', 'fallback', 'failed']
TOL = 1e-7


def system(c, n, axis=0, tie=None, e0=None):
    """eigenvalues e (ascending), orthonormal V (columns), B = V e V^T"""
    e = [c.real(f'e{i}') for i in range(n)]
    if e0 is not None:
        e[0] = e0
    if tie is not None:
        e[tie + 1] = e[tie]
    for i in range(n - 1):
        c.assume(e[i] <= e[i + 1])
    if n == 1 or axis is None:
        V = [[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)]
    else:
        a, b = c.unit('c', 's')
        if n == 2:
            V = [[a, -b], [b, a]]
        else:
            cols = [[a, b, 0.0], [-b, a, 0.0]]
            cols.insert(axis, [0.0, 0.0, 1.0])
            V = [[cols[k][i] for k in range(3)] for i in range(3)]
    B = c.array([[dot([V[i][k] * e[k] for k in range(n)],
                      [V[j][k] for k in range(n)]) for j in range(n)]
                 for i in range(n)])
    return e, V, B


class Finder:
    """root finders with a scripted outcome"""

    def __init__(self, c, F, e, V, nmode, bmode, log):
        self.c, self.F, self.log = c, F, log
        self.nmode, self.bmode = nmode, bmode
        sub = F.subproblem
        if c.symbolic:
            V = c.array(V)
            F.env.eigh = lambda M, *a, **k: (c.array(list(e)), V.copy())
            F.env.newton, F.env.brentq = self.newton, self.brentq
            return
        import scipy.optimize as so
        self.real = so.newton, so.brentq
        for nm, f, m in (('newton', self.newton, nmode),
                         ('brentq', self.brentq, bmode)):
            c.patch(so, nm, f)
            if hasattr(sub, nm):
                c.patch(sub, nm, f)

    def newton(self, func, x0, fprime=None, args=(), **k):
        c = self.c
        self.log.append('newton')
        if self.nmode == 'fail':
            self.log.append('newton failed')
            raise RuntimeError('no convergence')
        if self.nmode == 'any' or (c.symbolic and
                                   bool(func(x0, *args) > 0)):
            self.log.append('newton failed')
            return c.real('rn')
        if not c.symbolic:
            return self.real[0](func, x0, fprime, args=args, **k)
        if fprime is not None:
            fprime(x0, *args)
        # the function is increasing and concave: Newton's method started at
        # a negative value increases
        r = c.real('rn')
        c.assume(r >= x0)
        c.assume(func(r, *args) == 0)
        return r

    def brentq(self, func, a, b, args=(), **k):
        c = self.c
        self.log.append('brentq')
        fa, fb = func(a, *args), func(b, *args)
        if bool(c.Or(c.And(fa > 0, fb > 0), c.And(fa < 0, fb < 0))):
            raise ValueError('f(a) and f(b) must have different signs')
        if self.bmode == 'fail':
            self.log.append('brentq failed')
            raise RuntimeError('no convergence')
        if not c.symbolic:
            return self.real[1](func, a, b, args=args, **k)
        r = c.real('rb')
        c.assume(r >= a)
        c.assume(r <= b)
        c.assume(func(r, *args) == 0)
        return r


def solve(c, F, n, axis, nmode, bmode, ext=2, delta=None,
          tie=None, e0=None):
    e, V, B = system(c, n, axis, tie, e0)
    w = [c.real(f'w{i}') for i in range(n)]
    g = c.array([-dot([V[i][k] for k in range(n)], w) for i in range(n)])
    if delta is None:
        delta = c.real('delta', pos=True)
    if nmode != 'root':
        # the interval search before brentq ends within ext extensions
        e0 = c.max(-e[0], 0.0)
        c.assume(dot(w, w) <= (delta * ((10 ** ext - 1) * e0 + 1e-8 +
                                        c.max(e[0], 0.0))) ** 2)
    log = []
    keep = B.copy(), g.copy()
    Finder(c, F, e, V, nmode, bmode, log)
    s, kind = F.subproblem.solve_nd_trust_region_subproblem(B, g, delta)
    c.check(s.shape == (n,), 'shape of the step')
    c.check(c.And(*[c.isfinite(v) for v in s]), 'finite step')
    c.check_eq(B, keep[0], 'arguments are not modified')
    c.check_eq(g, keep[1], 'arguments are not modified')
    p = [dot([V[i][k] for i in range(n)], s) for k in range(n)]
    pp = dot(p, p)
    c.check_le(pp, (delta + TOL * c.max(delta, 1.0)) ** 2,
               'norm at most the radius')
    nf, bf = 'newton failed' in log, 'brentq failed' in log
    if nf and 'brentq' in log:
        c.reach('fallback')
    if nf and (bf or 'brentq' not in log):
        c.reach('failed')
        return
    # interior solution: B s = -g, B positive semidefinite
    inner = c.And(e[0] >= 0, *[e[i] * p[i] == w[i] for i in range(n)])
    # boundary: lam = p.(w - E p)/p.p
    lp = dot(p, [w[i] - e[i] * p[i] for i in range(n)])
    lo = c.max(delta - TOL * c.max(delta, 1.0), 0.0)
    outer = c.And(pp >= lo * lo, lp >= 0, lp + e[0] * pp >= 0,
                  *[e[i] * p[i] * pp + lp * p[i] == w[i] * pp
                    for i in range(n)])
    if not c.symbolic:
        # rounding of the root finders
        m = [c.symbolic or None]
        sc = max([1.0] + [abs(v) for v in e] + [abs(v) for v in w])
        lam = lp / pp if pp > 0 else 0.0
        tol = 1e-5 * sc * max(1.0, delta, abs(lam))
        inner = e[0] >= -tol and all(abs(e[i] * p[i] - w[i]) <= tol
                                     for i in range(n))
        outer = pp >= lo * lo * (1 - 1e-9) and lam >= -tol and \
            lam + e[0] >= -tol and all(
                abs((e[i] + lam) * p[i] - w[i]) <= tol for i in range(n))
        del m
    c.check(c.Or(inner, outer), 'the step is a global minimiser')
    c.reach('hard' if kind == 'hard' else
            'boundary' if log else 'interior')


def zero(c, F, n):
    e, V, B = system(c, n)
    g = c.vec('g', n)
    Finder(c, F, e, V, 'root', 'root', [])
    s, kind = F.subproblem.solve_nd_trust_region_subproblem(B, g, 0.0)
    c.reach('zero')
    c.check_eq(s, c.array([0.0] * n), 'zero radius: zero step')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(n, axis, nm, bm, **k):
        T.append(dict(name=f'solve-{n}-{axis}-{nm}-{bm}-' +
                      str(k.get('delta', '')) + str(k.get('tie', '')) + str(k.get('e0', '')), harness='solve',
                      params=dict(n=n, axis=axis, nmode=nm, bmode=bm, **k)))
    for nm in ('root', 'fail', 'any'):
        for bm in ('root', 'fail') if nm != 'root' else ('root',):
            ext = 3 if deep else 2
            add(1, 0, nm, bm, ext=ext)
            if nm == 'root':
                add(2, None, nm, bm)
                add(2, 0, nm, bm)
            for d in (0.25, 1.0, 4.0) if deep else (0.25,):
                if nm == 'root':
                    add(3, None, nm, bm, delta=d, tie=0)
                    add(3, None, nm, bm, delta=d, tie=1)
                    if deep:
                        add(3, None, nm, bm, delta=d)
                elif nm == 'fail' and (bm == 'root' or deep):
                    add(2, None, nm, bm, delta=d)
                elif nm == 'fail':
                    for e0 in (-1.0, 0.0, 0.5):
                        add(2, None, nm, bm, delta=d, e0=e0, ext=1)
        if deep and nm == 'root':
            for ax in (0, 1, 2):
                add(3, ax, nm, bm)
    for n in (1, 2, 3):
        T.append(dict(name=f'zero-{n}', harness='zero', params=dict(n=n)))
    return T
