"""C02: best evaluated point is reported exactly."""
from . import orch

BOUNDS = ('runs of up to 2 iterations (thorough: 3) of the real minimize '
          'loop, n = 1 and 2, arbitrary objective values including NaN and '
          '+-inf at any evaluation, arbitrary steps, with and without Hessian '
          'approximation, plus a second run on the same optimizer')
ASSUMPTIONS = ['trial steps stay inside the box (decided by C16)',
               'real arithmetic; comparison of points allows the documented '
               'nudge (below 1e-12)']
OUTSIDE = ['n > 2', 'longer runs (the bookkeeping is the same at every '
           'evaluation)', 'runs that end in an exception']
REACH = ['first', 'trial', 'rejected-best', 'nonfinite', 'none', 'second']


def best(c, o, evals):
    st = o.final
    fm, xm, gm = st['fval_min'], st['x_min'], st['grad_min']
    fin = [bool(c.isfinite(e['f'])) for e in evals]
    for e, ok in zip(evals, fin):
        if ok:
            c.check_le(fm, e['f'], 'best value is a lower bound of all '
                       'finite values')
        else:
            c.reach('nonfinite')
    if not any(fin):
        c.reach('none')
        c.check(not bool(c.isfinite(fm)), 'no finite value: no best value')
        return
    alts = []
    for j, e in enumerate(evals):
        if not fin[j]:
            continue
        first = [evals[i]['f'] > e['f'] for i in range(j) if fin[i]]
        cond = c.And(c.eq(fm, e['f']), orch.near_vec(c, xm, e['x']),
                     c.vec_eq(gm, e['g']), *first)
        if cond is not False:
            c.reach('first' if j == 0 else 'trial')
        alts.append(cond)
    c.check(c.Or(*alts), 'best value, point and gradient are those of the '
            'evaluation that first attained the minimum')
    if o.steps and len(evals) > 1 and fin[1]:
        c.reach('rejected-best')
    c.observe('fmin', fm)


def run(c, F, n, K, upd, mode, special, warm=''):
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, special=special,
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=0.0), warm=warm, raises=(RuntimeError,))
    if o.exc is None:
        best(c, o, o.evals)


def infstart(c, F):
    """no run gets past a non-finite start; nothing is reported as best"""
    o = orch.execute(c, F, 1, 1, special='f', raises=(RuntimeError,))
    if o.exc is not None:
        c.check(not bool(c.isfinite(o.final['fval_min'])),
                'no finite value: no best value')
        c.reach('none')


def second(c, F, K, upd, raise_at):
    lb, ub = orch.bounds(c, F, 1, 'n')
    opts = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0)
    o1 = orch.execute(c, F, 1, K, upd=upd, lb=lb, ub=ub, opts=opts, tag='a',
                      obj=orch.Objective(c, F, 1, 'a', hess=upd is None,
                                         raise_at=raise_at),
                      raises=(RuntimeError,))
    o2 = orch.execute(c, F, 1, K, lb=lb, ub=ub, opts=opts, tag='b',
                      obj=orch.Objective(c, F, 1, 'b', hess=upd is None,
                                         special='f'),
                      opt=o1.opt, raises=(RuntimeError,))
    if o2.exc is None:
        c.reach('second')
        best(c, o2, o2.evals)
    else:
        c.check(not bool(c.isfinite(o2.final['fval_min'])) or
                bool(c.isfinite(o2.evals[0]['f'])),
                'values of an earlier run never leak in')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, **p):
        T.append(dict(name=h + '-' + '-'.join(str(v) for v in p.values()),
                      harness=h, params=p, lazy=True))
    add('run', n=1, K=3 if deep else 2, upd=None, mode='n', special='f')
    add('run', n=1, K=3 if deep else 2, upd=None, mode='b', special='f')
    add('run', n=2, K=1, upd=None, mode='nb', special='')
    add('run', n=1, K=3 if deep else 2, upd='bfgs', mode='n', special='f')
    add('run', n=1, K=1, upd='fx', mode='n', special='')
    add('run', n=1, K=1, upd='fraction', mode='n', special='f')
    for i, w in enumerate(orch.WARM):
        add('run', n=1 + i % 2, K=1, upd=(None, 'bfgs')[i % 2], mode='n',
            special='f', warm=w)
    add('infstart')
    add('second', K=1, upd=None, raise_at=None)
    add('second', K=1, upd=None, raise_at=1)
    add('second', K=1, upd='bfgs', raise_at=None)
    return T
