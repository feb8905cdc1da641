"""C24: initial Hessian approximation is what the caller asked for."""
from . import orch

BOUNDS = ('start of the real minimize loop for every Hessian scheme; n = 1 '
          'and 2 (3 for shapes); no initial Hessian, an arbitrary n-by-n '
          'matrix, the string "hess", and matrices of the shapes (n+1,n+1), '
          '(n,n+1), (n+1,n), (n,), (1,n,n), (n-1,n-1)')
ASSUMPTIONS = []
OUTSIDE = ['n > 3', '"hess" with a scheme whose objective returns no Hessian']
REACH = ['identity', 'matrix', 'hess', 'bad', 'ignored', 'copy']
OPTS = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0)


def eye(c, n):
    return c.array([[1.0 if i == j else 0.0 for j in range(n)]
                    for i in range(n)])


def run(c, F, n, upd, kind):
    H = None
    if kind == 'matrix':
        H = c.mat('B', n)
    elif kind == 'hess':
        H = 'hess'
    keep = H.copy() if kind == 'matrix' else None

    class Steps(orch.Stepper):
        def __call__(self, *a, **k):
            r = orch.Stepper.__call__(self, *a, **k)
            return r
    o = orch.execute(c, F, n, 1, upd=upd, hess0=H, opts=OPTS,
                     stp=Steps(c, F, n, tag='s'), raises=(RuntimeError,))
    c.check(len(o.steps) == 1, 'a step is taken')
    B = o.steps[0]['hess']
    e0 = o.evals[0]
    if upd is None:
        c.reach('ignored')
        c.check_eq(B, e0['h'], 'without a scheme the argument is ignored')
    elif kind == 'none':
        c.reach('identity')
        c.check_eq(B, eye(c, n), 'identity if nothing is given')
    elif kind == 'matrix':
        c.reach('matrix')
        c.check_eq(B, keep, 'the given matrix')
    else:
        c.reach('hess')
        c.check_eq(B, e0['h'], 'the Hessian of the objective')
    if keep is not None:
        c.check_eq(H, keep, 'the given matrix is not modified')


def copy(c, F, n, upd):
    """later changes of the given matrix have no effect"""
    H = c.mat('B', n)
    keep = H.copy()
    obj = None

    def spoil(i):
        if i == 1:
            H[0, 0] = H[0, 0] + 1.0
    needh = upd in orch.WITH_HESS
    obj = orch.Objective(c, F, n, hess=needh, resfun=upd in orch.RES)
    obj.hooks.append(spoil)
    o = orch.execute(c, F, n, 1, upd=upd, obj=obj, hess0=H, opts=OPTS,
                     stp=orch.Stepper(c, F, n, qp='real'),
                     raises=(RuntimeError,))
    if bool(c.vec_eq(o.final['x'], o.states[0]['x'])) and \
            bool(o.final['tr_ratio'] <= 0):
        c.reach('copy')
        c.check_eq(o.upd.get_mat(), keep, 'the given matrix is copied')
        c.check_eq(o.ret[3], keep, 'the given matrix is copied')
        H[n - 1, n - 1] = H[n - 1, n - 1] + 1.0
        c.check_eq(o.upd.get_mat(), keep, 'the given matrix is copied')


def direct(c, F, n, upd):
    """the scheme object copies what it is given"""
    s = orch.scheme(F, upd)
    H = c.mat('B', n)
    keep = H.copy()
    if not hasattr(s, '_init_mat'):
        return
    s._init_mat(n, H)
    H[0, 0] = H[0, 0] + 1.0
    c.check_eq(s.get_mat(), keep, 'the given matrix is copied')
    if hasattr(s, 'set_mat'):
        G = c.mat('G', n)
        kg = G.copy()
        s.set_mat(G)
        if upd not in ('fx',):
            c.check_eq(s.get_mat(), kg, 'a set matrix is taken over')
            G[0, 0] = G[0, 0] + 1.0
            c.check_eq(s.get_mat(), kg, 'a set matrix is copied')
    c.reach('copy')


def bad(c, F, n, upd, k):
    shapes = [(n + 1, n + 1), (n, n + 1), (n + 1, n), (n,), (1, n, n),
              (n - 1, n - 1)]
    sh = shapes[k]

    def fill(s, t='B'):
        if not s:
            return c.real(t)
        return [fill(s[1:], f'{t}{i}') for i in range(s[0])]
    H = c.array(fill(sh))
    try:
        o = orch.execute(c, F, n, 1, upd=upd, hess0=H, opts=OPTS,
                         raises=(RuntimeError,))
    except ValueError:
        c.reach('bad')
        c.check(True, 'a matrix of another shape raises ValueError')
        return
    c.check(upd is None, 'a matrix of another shape raises ValueError')
    if upd is None:
        c.reach('ignored')
        c.check_eq(o.steps[0]['hess'], o.evals[0]['h'],
                   'without a scheme the argument is ignored')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, **p):
        T.append(dict(name=h + '-' + '-'.join(str(v) for v in p.values()),
                      harness=h, params=p, lazy=True))
    for s in [None] + list(orch.SCHEMES):
        kinds = ['none', 'matrix']
        if s in orch.WITH_HESS:
            kinds.append('hess')
        for n in (1, 2) if deep else (1 if s in orch.RES else 2,):
            for k in kinds:
                add('run', n=n, upd=s, kind=k)
            if s is not None:
                add('copy', n=n, upd=s)
                add('direct', n=2, upd=s) if n == 2 or not deep else None
        for k in range(6) if deep or s in (None, 'bfgs') else (0, 1, 3):
            add('bad', n=2, upd=s, k=k)
    add('bad', n=3, upd='sr1', k=5)
    return T
