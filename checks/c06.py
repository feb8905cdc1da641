"""C06: convergence flags are truthful and convergence is not missed."""
from . import orch

BOUNDS = ('one and two iterations of the real minimize loop with symbolic '
          'tolerances fatol, frtol, xtol, gatol, grtol >= 0 and mu, arbitrary '
          'values, gradients, model value and steps; n = 1 (2 for the norms), '
          'with and without bounds and approximations; the first and a later '
          'iteration are distinguished')
ASSUMPTIONS = ['trial steps stay inside the box (decided by C16)']
OUTSIDE = ['n > 2', 'rounding of the norms', 'negative tolerances']
REACH = ['FTOL', 'XTOL', 'GTOL', 'none', 'continued', 'rejected-stop',
         'later']


def conds(c, o, k, p):
    """(ftol, xtol) of iteration k and gtol at the point held afterwards"""
    st, old, nxt = o.steps[k], o.states[k], o.states[k + 1]
    new = o.evals[k + 1]
    r = nxt['tr_ratio']
    ft = False
    if bool(c.isfinite(new['f'])) and bool(c.isfinite(r)):
        df = new['f'] - old['fval']
        ft = c.And(r > p['mu'],
                   c.abs(df) < p['fatol'] + p['frtol'] * c.abs(old['fval']))
    ss = st['step'].ss + st['step'].ss0
    xt = c.norm(ss) < p['xtol'] if k > 0 else False
    gn = c.norm(nxt['grad'])
    gt = c.Or(gn <= p['gatol'], gn <= p['grtol'] * c.abs(nxt['fval']))
    return ft, xt, gt


def moved(c, o, k):
    return not bool(c.And(
        c.eq(o.states[k + 1]['fval'], o.states[k]['fval']),
        c.vec_eq(o.states[k + 1]['x'], o.states[k]['x'])))


def run(c, F, n, K, mode, upd, special, free, fix, offset,
        warm):
    E = F.constants.ExitFlag
    p = dict(fatol=0.0, frtol=0.0, xtol=0.0, gatol=0.0, grtol=0.0)
    for k in free:
        p[k] = c.real(k, nonneg=True)
    opts = dict(p)
    if 'mu' in free:
        c.assume(p['mu'] < 0.75)
    else:
        p['mu'] = 0.25
    if fix:
        opts['maxtime'] = float('inf')
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, special=special,
                     opts=opts, offset=offset, warm=warm,
                     raises=(RuntimeError,))
    if o.exc is not None:
        return
    flag = o.final['exitflag']
    conv = [E.FTOL, E.XTOL, E.GTOL]
    m = len(o.steps)
    for k in range(m - 1):
        c.reach('continued')
        ft, xt, gt = conds(c, o, k, p)
        if moved(c, o, k):
            c.check(c.Not(ft), 'FTOL convergence is not missed')
            c.check(c.Not(xt), 'XTOL convergence is not missed')
            c.check(c.Not(gt), 'GTOL convergence is not missed')
    stopped = flag in conv
    c.check(bool(o.final['converged']) == stopped,
            'positive flag exactly when the run converged')
    c.check((int(flag.value) > 0) == stopped,
            'positive flag exactly when the run converged')
    if m == 0:
        c.check(not stopped, 'no convergence without a step')
        return
    ft, xt, gt = conds(c, o, m - 1, p)
    mv = moved(c, o, m - 1)
    if m > 1:
        c.reach('later')
    if stopped:
        c.reach(flag.name)
        if not mv:
            c.reach('rejected-stop')
        cond = {E.FTOL: ft, E.XTOL: xt, E.GTOL: gt}[flag]
        c.check(cond, flag.name + ' is truthful')
        if flag == E.FTOL:
            c.check(mv, 'FTOL only after an accepted step')
    else:
        c.reach('none')
        if mv:
            c.check(c.Not(ft), 'FTOL convergence is not missed')
            c.check(c.Not(xt), 'XTOL convergence is not missed')
            c.check(c.Not(gt), 'GTOL convergence is not missed')
    c.observe('flag', float(flag.value))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(n=1, K=1, mode='n', upd=None, special='',
                      free=['fatol', 'frtol', 'xtol', 'gatol', 'grtol'],
                      fix=False, offset=False, warm=''), **p)
        name = '-'.join('+'.join(v) if isinstance(v, list) else str(v)
                        for v in p.values())
        T.append(dict(name=name, harness='run', params=p, lazy=True))
    add(special='f')
    add(K=2, free=['fatol', 'xtol', 'gatol'])
    add(K=2, free=['frtol', 'grtol'])
    add(mode='b')
    add(free=['fatol', 'mu'])
    add(n=2, free=['gatol', 'fatol'])
    add(n=2, free=['grtol', 'frtol'])
    add(upd='bfgs')
    add(K=2, free=['xtol'], offset=True)
    add(free=['fatol', 'gatol'], offset=True)
    add(upd='fx', free=['fatol', 'grtol'])
    for i, w in enumerate(orch.WARM):
        add(n=1 + i % 2, free=['fatol', 'xtol', 'gatol'], warm=w)
        add(free=['frtol', 'grtol'], warm=w, upd=('bfgs', None)[i % 2])
    if deep:
        add(K=2)
        add(K=3, free=['fatol', 'xtol', 'gatol'])
        add(n=2, K=2, free=['xtol'])
        add(K=2, mode='b', free=['fatol', 'xtol', 'gatol'])
    return T
