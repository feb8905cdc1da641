"""C19: affine scaling follows the Coleman-Li definition."""
from . import orch

BOUNDS = ('first and (after an accepted step) second subproblem of the real '
          'minimize loop; n = 1 and 2; every combination of finite and '
          'infinite bounds per component; arbitrary points, gradients '
          '(including zero and integer typed) and theta_max in (0,1)')
ASSUMPTIONS = ['trial steps stay inside the box (decided by C16)']
OUTSIDE = ['n > 2 (components are independent, theta is a maximum)',
           'rounding']
REACH = ['upper', 'lower', 'free', 'second']


def definition(c, x, g, lb, ub):
    v, dv = [], []
    for i in range(len(x)):
        if bool(g[i] < 0):
            b, free = ub[i], -1.0
        else:
            b, free = lb[i], 1.0
        if orch._isinf(b):
            c.reach('free')
            v.append(free)
            dv.append(0.0)
        else:
            c.reach('upper' if free < 0 else 'lower')
            v.append(x[i] - b)
            dv.append(1.0)
    return v, dv


def run(c, F, n, mode, ints, K):
    theta = c.real('theta_max', pos=True)
    c.assume(theta < 1)

    class Obj(orch.Objective):
        def out(self, i):
            if not ints:
                return orch.Objective.out(self, i)
            c = self.c
            g = c.array([c.integer(f'g{i}_{k}') for k in range(n)], 'i')
            return (c.real(f'f{i}'), g, c.symmat(f'H{i}_', n))
    got = []

    class Steps(orch.Stepper):
        def __call__(self, *a, **k):
            o = self.opt
            if hasattr(o, 'get_affine_scaling'):
                got.append(o.get_affine_scaling())
            return orch.Stepper.__call__(self, *a, **k)
    o = orch.execute(c, F, n, K, mode=mode, obj=Obj(c, F, n),
                     stp=Steps(c, F, n, qp='neg'),
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0, theta_max=theta),
                     raises=(RuntimeError,))
    for k, st in enumerate(o.steps):
        if k:
            c.reach('second')
        x, g = st['x'], o.states[k]['grad']
        v, dv = definition(c, x, g, o.lb, o.ub)
        c.check(c.And(*[c.eq(st['dv'][i], dv[i]) for i in range(n)]),
                'derivative of the scaling')
        D = st['scaling']
        for j in range(n):
            e = c.array([1.0 if i == j else 0.0 for i in range(n)])
            col = D.dot(e)
            for i in range(n):
                if i != j:
                    c.check(c.eq(col[i], 0.0), 'scaling is diagonal')
                else:
                    c.check(col[i] >= 0, 'scaling is the square root of |v|')
                    c.check_eq(col[i] * col[i], c.abs(v[i]),
                               'scaling is the square root of |v|')
        t = st['theta']
        m = c.abs(v[0] * g[0])
        for i in range(1, n):
            m = c.max(m, c.abs(v[i] * g[i]))
        lim = 1 - m
        c.check(t >= theta, 'theta is at least theta_max')
        c.check(t >= lim, 'theta is at least 1 - max|v g|')
        c.check(c.Or(c.eq(t, theta), c.eq(t, lim)),
                'theta is one of theta_max and 1 - max|v g|')
        if len(got) > k:
            gv, gd = got[k]
            c.check(c.And(*[c.eq(gv[i], v[i]) for i in range(n)]),
                    'signed scaling')
            c.check(c.And(*[c.eq(gd[i], dv[i]) for i in range(n)]),
                    'derivative of the scaling')
        c.check(c.vec_eq(st['x'], o.states[k]['x']), 'subproblem is posed at '
                'the current point')
        c.check(c.vec_eq(st['g'], g), 'subproblem is posed with the current '
                'gradient')
        c.observe('theta', t)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(n=1, mode='n', ints=False, K=1), **p)
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    for m in 'nblu':
        add(mode=m, K=2)
        add(mode=m, ints=True)
    for a in 'nblu':
        for b in 'nblu':
            if deep or a <= b:
                add(n=2, mode=a + b)
    if deep:
        add(n=2, mode='bb', K=2)
    return T
