"""C03: returned value, point, gradient and Hessian belong together."""
from . import orch
from .util import any_nonzero

BOUNDS = ('runs of up to 2 iterations (thorough: 3) of the real minimize loop '
          'with n = 1 (2 for the objective Hessian) from an arbitrary start, '
          'arbitrary objective values, gradients, Hessians/residuals and '
          'arbitrary trial steps, every Hessian scheme; one update is '
          'inductive, so the relation between result and last accepted '
          'evaluation extends to longer runs')
ASSUMPTIONS = [
    'trial steps stay inside the box (decided by C16)',
    'real arithmetic; comparison of points allows the documented nudge',
]
OUTSIDE = ['n > 2', 'more than 3 iterations except by induction',
           'rounding']
REACH = ['accepted', 'rejected', 'scheme', 'nonfinite-trial']


def run(c, F, n, K, upd, mode, special, warm=''):
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, special=special,
                     offset=n == 1 and upd is None and not warm,
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=0.0), warm=warm,
                     raises=(RuntimeError,))
    if o.exc is not None:
        return
    cur = o.evals[0]
    for k in range(len(o.steps)):
        st = o.steps[k]
        new = o.evals[k + 1]
        s = st['step']
        xn = [st['x'][i] + s.s[i] + s.s0[i] for i in range(n)]
        c.check(orch.near_vec(c, new['x'], xn),
                'trial point is current point plus step')
        nxt = o.states[k + 1]
        old = c.And(orch.same(c, nxt, cur['f'], cur['x'], cur['g']),
                    c.vec_eq(nxt['hess'], o.states[k]['hess']))
        acc = orch.same(c, nxt, new['f'], new['x'], new['g'])
        if upd is None:
            acc = c.And(acc, c.vec_eq(nxt['hess'], new['h']))
        c.check(c.Or(old, acc), 'the state after a step is that of the trial '
                'point or is unchanged')
        if old is True:
            c.reach('rejected')
            if not c.isfinite(new['f']):
                c.reach('nonfinite-trial')
        elif acc is True:
            c.reach('accepted')
            cur = new
        else:
            if bool(acc):
                cur = new
    f, x, g, h = o.ret
    c.check(orch.same(c, dict(fval=f, x=x, grad=g), cur['f'], cur['x'],
                      cur['g']), 'returned values belong to the last '
            'accepted evaluation')
    if upd is None:
        c.check_eq(h, c.array(cur['h']), 'returned Hessian belongs to the '
                   'returned point')
    else:
        c.reach('scheme')
        c.check_eq(h, o.upd.get_mat(), 'returned Hessian is the current '
                   'approximation')
    c.check(orch.same(c, o.final, f, x, g, near=False),
            'attributes equal the returned values')
    c.check_eq(o.opt.hess, h, 'attributes equal the returned values')
    c.observe('f', f)
    c.observe('x', x)
    c.observe('h', h)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    for mode in ('n', 'b', 'l'):
        add(n=1, K=3 if deep else 2, upd=None, mode=mode, special='')
    add(n=1, K=2, upd=None, mode='n', special='f')
    add(n=2, K=1, upd=None, mode='nb', special='')
    for i, w in enumerate(orch.WARM):
        add(n=1 + i % 2, K=1, upd=(None, 'fixed', 'gnsbfgs')[i % 3], mode='n',
            special='f' if i % 3 < 2 else '', warm=w)
    for s in orch.SCHEMES:
        add(n=1, K=2, upd=s,
            mode='n', special='')
    return T
