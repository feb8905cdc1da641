"""C01: objective evaluated and results returned only inside the bounds."""
from . import orch

NUDGE = orch.NUDGE

BOUNDS = ('runs of up to 2 iterations (thorough: 3) of the real minimize loop, n = 1 '
          'and 2, every combination of finite/infinite bounds per component, '
          'arbitrary objective outputs (including non-finite values) and '
          'completely arbitrary proposed steps; over exact reals, and over '
          'IEEE doubles (start, bounds and steps symbolic 64-bit floats, '
          'n = 1, one-sided bounds, 1 iteration; thorough: the nudge of '
          'the start also for two-sided bounds)')
ASSUMPTIONS = ['ub - lb >= 1e-3', 'the proposed step is finite']
OUTSIDE = ['n > 2 (components are treated independently)',
           'boxes narrower than 1e-3']
REACH = ['moved', 'nudge-low', 'nudge-up', 'clipped', 'fp', 'nonfinite']


def inside(c, x, lb, ub, label):
    for i in range(len(x)):
        if not orch._isinf(lb[i]):
            c.check(x[i] >= lb[i], label)
        if not orch._isinf(ub[i]):
            c.check(x[i] <= ub[i], label)


def check_all(c, o, n):
    for k, e in enumerate(o.evals):
        inside(c, e['x'], o.lb, o.ub, 'objective called inside the bounds')
    if bool(c.isfinite(o.final['fval_min'])):
        inside(c, o.final['x_min'], o.lb, o.ub, 'best point inside the bounds')
    inside(c, o.final['x'], o.lb, o.ub, 'current point inside the bounds')
    if o.ret is not None:
        inside(c, o.ret[1], o.lb, o.ub, 'returned point inside the bounds')


def run(c, F, n, K, mode, special, upd):
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, special=special,
                     strict=False, box=False, offset=n == 1, scaled=True,
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0), raises=(RuntimeError,))
    check_all(c, o, n)
    if len(o.evals) > 1:
        c.reach('moved')
        s = o.steps[0]
        for i in range(n):
            t = s['x'][i] + s['step'].s[i] + s['step'].s0[i]
            if o.evals[1]['x'][i] is not t:
                c.reach('clipped')
    if mode[0] in 'bl':
        c.reach('nudge-low')
    if mode[0] in 'bu':
        c.reach('nudge-up')
    if o.exc is not None:
        c.reach('nonfinite')
    c.observe('x', o.final['x'])
    c.observe('xe', o.evals[-1]['x'])


class Scripted:
    """objective with concrete outputs; records the points"""

    def __init__(self, c, n, fs, gs):
        self.c, self.n, self.fs, self.gs = c, n, fs, gs
        self.calls = []

    def __call__(self, x):
        c, n = self.c, self.n
        i = len(self.calls)
        self.calls.append(dict(x=x.copy(), f=self.fs[i]))
        g = c.array([self.gs[i]] * n)
        eye = c.array([[1.0 if p == q else 0.0 for q in range(n)]
                       for p in range(n)])
        return self.fs[i], g, eye


def fp(c, F, n, K, mode):
    """the same over IEEE doubles: every rounding included"""
    inf = float('inf')
    x0 = c.dvec('x', n)
    lb, ub = [], []
    for i in range(n):
        lb.append(c.double(f'lb{i}') if mode[i] in 'bl' else -inf)
        ub.append(c.double(f'ub{i}') if mode[i] in 'bu' else inf)
        c.assume(c.isfinite(x0[i]))
        if mode[i] in 'bl':
            c.assume(c.isfinite(lb[i]))
            c.assume(x0[i] >= lb[i])
            if K:       # the nudge of the start is decided with K = 0
                c.assume(x0[i] - lb[i] > NUDGE)
        if mode[i] in 'bu':
            c.assume(c.isfinite(ub[i]))
            c.assume(x0[i] <= ub[i])
            if K:
                c.assume(ub[i] - x0[i] > NUDGE)
        if mode[i] == 'b':
            c.assume(ub[i] - lb[i] >= 1e-3)
    lb, ub = c.array(lb), c.array(ub)
    fs = [0.0]
    for k in range(K):
        fs.append([-1.0, 5.0][c.choose('f', 2)])
    gs = [1.0] * (K + 1)

    class Steps(orch.Stepper):
        def make(self, k, a):
            s = c.dvec(f's{k}_', n)
            for i in range(n):
                c.assume(c.isfinite(s[i]))
            one = c.array([0.5] * n)
            return dict(s=s, s0=one * 0.0, ss=one, ss0=one * 0.0, qpval=-1.0)
    o = orch.execute(c, F, n, K, lb=lb, ub=ub, x0=x0,
                     obj=Scripted(c, n, fs, gs),
                     stp=Steps(c, F, n, box=False),
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0), raises=(RuntimeError,))
    check_all(c, o, n)
    c.reach('fp')
    c.observe('x', o.final['x'])


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, **p):
        T.append(dict(name=h + '-' + '-'.join(str(v) for v in p.values()),
                      harness=h, params=p, lazy=True))
    for mode in 'blu' if deep else 'lu':
        add('fp', n=1, K=0, mode=mode)
        T[-1]['obl_ms'] = 240000 if deep else 60000
        if mode != 'b':
            add('fp', n=1, K=1, mode=mode)
    for mode in 'blun':
        add('run', n=1, K=3 if deep else 2, mode=mode,
            special='', upd=None)
    add('run', n=1, K=1, mode='b', special='fg', upd=None)
    add('run', n=1, K=1, mode='b', special='', upd='bfgs')
    for mode in ('bb', 'ln', 'ul') if not deep else ('bb', 'bl', 'bu', 'bn',
                                                     'ln', 'ul', 'un'):
        add('run', n=2, K=1, mode=mode, special='', upd=None)
    return T
