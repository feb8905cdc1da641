"""C05: trust-region radius follows its documented schedule."""
from . import orch

BOUNDS = ('one iteration (two for the counter) of the real minimize loop from '
          'an arbitrary radius, with symbolic gamma1 in (0,1), gamma2 > 1, '
          '0 <= mu < eta, arbitrary values, model value (finite or not) and '
          'scaled step, n = 1 and 2, with and without finite bounds; the rule '
          'depends only on the current iteration, so longer runs follow by '
          'induction over the radius')
ASSUMPTIONS = ['the scaled step is finite',
               'trial steps stay inside the box (decided by C16)']
OUTSIDE = ['n > 2', 'rounding of the radius arithmetic',
           'gamma/mu/eta outside the documented ranges']
REACH = ['grow', 'shrink', 'keep-interior', 'keep-middle', 'nonfinite',
         'nan-ratio', 'gamma', 'quarter', 'count']


def rule(c, F, o, k, p):
    st, old, nxt = o.steps[k], o.states[k], o.states[k + 1]
    new = o.evals[k + 1]
    d0, d1 = old['delta'], nxt['delta']
    c.check_eq(st['delta'], d0, 'the subproblem uses the current radius')
    ss = st['step'].ss + st['step'].ss0
    q = c.norm(ss)
    # the smaller of gamma1*radius and a quarter of the step norm
    a, b = p['gamma1'] * d0, q / 4
    r = nxt['tr_ratio']
    grow = shrink = False
    if not bool(c.isfinite(new['f'])):
        c.reach('nonfinite')
        shrink = True
    elif bool(c.isnan(r)):
        c.reach('nan-ratio')
    elif bool(r >= p['eta']):
        if bool(q >= d0 * 0.9):
            grow = True
        else:
            c.reach('keep-interior')
    elif bool(r <= p['mu']):
        shrink = True
    else:
        c.reach('keep-middle')
    if grow:
        c.reach('grow')
        c.check_eq(d1, p['gamma2'] * d0, 'radius grows by gamma2')
    elif shrink:
        c.reach('shrink')
        if bool(a <= b):
            c.reach('gamma')
            c.check_eq(d1, a, 'radius shrinks to gamma1*radius')
        else:
            c.reach('quarter')
            c.check_eq(d1, b, 'radius shrinks to a quarter of the step norm')
    else:
        c.check_eq(d1, d0, 'radius is unchanged otherwise')
    c.check(not bool(c.isnan(d1)), 'radius is never NaN')
    c.check(d1 >= 0, 'radius is never negative')
    n0, n1 = old['iterations_since_tr_update'], \
        nxt['iterations_since_tr_update']
    if grow or shrink:
        c.check(bool(n1 == 0), 'the count restarts when the radius is '
                'changed')
    else:
        c.reach('count')
        c.check(bool(n1 == n0 + 1), 'the count goes on when the radius is '
                'kept')
    c.observe('delta', d1)


def run(c, F, n, K, mode, special, qp, upd, tol, offset, warm):
    p = dict(gamma1=c.real('gamma1', pos=True), mu=c.real('mu', nonneg=True),
             gamma2=c.real('gamma2', pos=True))
    p['eta'] = c.real('eta', pos=True)
    c.assume(p['gamma1'] < 1)
    c.assume(p['gamma2'] > 1)
    c.assume(p['mu'] < p['eta'])
    opts = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0,
                delta_init=c.real('delta', pos=True), **p)
    if tol:      # default values of the schedule
        p = dict(gamma1=0.25, gamma2=2.0, mu=0.25, eta=0.75)
        opts = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0)
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, special=special, qp=qp,
                     offset=offset, opts=opts, warm=warm,
                     raises=(RuntimeError,))
    if o.exc is not None:
        return
    if o.steps:
        c.check_eq(o.states[0]['delta'], opts.get('delta_init', 1.0),
                   'the first radius is delta_init')
    for k in range(len(o.steps)):
        rule(c, F, o, k, p)


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(n=1, K=1, mode='n', special='', qp='real', upd=None,
                      tol=False, offset=False, warm=''), **p)
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    add(special='f', qp='special')
    add(K=2)
    add(K=2, tol=True)
    add(mode='b', special='f', qp='special')
    add(n=2)
    add(n=2, mode='bn')
    add(upd='bfgs')
    add(upd='fixed')
    add(offset=True, special='f', qp='special')
    add(offset=True, K=2, tol=True)
    add(offset=True, mode='b')
    for i, w in enumerate(orch.WARM):
        add(n=1 + i % 2, tol=True, special='f', qp='special', warm=w)
    if deep:
        add(K=3, tol=True)
        add(K=2, mode='b')
        add(n=2, K=2)
        add(n=2, offset=True)
    return T
