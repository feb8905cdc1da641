"""C09: a reused optimizer behaves like a fresh one."""
import enum

from . import orch

BOUNDS = ('a first run of 1 iteration (2 for the hybrids) with arbitrary '
          'start, objective, steps and initial Hessian, ended normally or by '
          'an exception of the objective at evaluation 1 or 2, then a second '
          'run of 1 iteration with arbitrary inputs on the same and on a '
          'fresh optimizer (same objective outputs and steps); n = 1, all '
          'Hessian schemes')
ASSUMPTIONS = ['the objective is a function of its input and of nothing the '
               'optimizer does', 'trial steps stay inside the box (C16)']
OUTSIDE = ['n > 1 (nothing in the reset depends on n)',
           'more than one earlier run']
REACH = ['same', 'after-error', 'scheme', 'moved']
OPTS = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0)
KEYS = ('fval', 'fval_min', 'delta', 'iteration', 'converged', 'exitflag',
        'iterations_since_tr_update', 'n_intermediate_tr_radius', 'tr_ratio',
        'x', 'grad', 'hess', 'x_min', 'grad_min')


def make(F, upd, cfg):
    return orch.scheme(F, upd, **cfg)


def same_val(c, a, b):
    if hasattr(a, 'shape') and getattr(a, 'ndim', 0):
        return c.vec_eq(a, b)
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if isinstance(a, enum.Enum):
        return a == b
    if bool(c.isnan(a)) or bool(c.isnan(b)):
        return bool(c.isnan(a)) and bool(c.isnan(b))
    if not bool(c.isfinite(a)) or not bool(c.isfinite(b)):
        return bool(a == b)
    return c.eq(a, b)


def run(c, F, upd, cfg, K1, K2, raise_at, hess1, hess2, mode, special,
        warm):
    resfun = upd in orch.RES
    needh = upd is None or upd in orch.WITH_HESS
    cfg = dict(cfg)
    lb, ub = orch.bounds(c, F, 1, mode)

    def objective(tag, cls=orch.Objective, **kw):
        return cls(c, F, 1, tag, hess=needh, resfun=resfun,
                              special=special if tag == 'b' else '', **kw)
    H1 = c.symmat('P', 1) if hess1 else None
    def first(**kw):
        # for schemes the first run varies in what reaches the scheme only
        obj = objective('a', raise_at=raise_at, warm=warm,
                        cls=orch.Objective if upd is None else
                        orch.SignedObjective)
        if warm:
            return obj
        if upd is not None and not resfun:
            # an accepted step: the state of the scheme has changed
            obj.hooks.append(lambda i: i >= 2 and c.assume(
                obj.calls[1]['f'] < obj.calls[0]['f']))
        return obj
    o1 = orch.execute(c, F, 1, K1, upd=make(F, upd, cfg), lb=lb, ub=ub,
                      opts=OPTS, tag='a', hess0=H1,
                      obj=first(), warm=warm,
                      stp=(orch.Stepper if upd is None else
                           orch.SignedStepper)(c, F, 1, 'a', qp='neg',
                                               warm=warm),
                      raises=(RuntimeError,))
    if raise_at is not None and o1.exc is not None:
        c.reach('after-error')
    H2 = c.symmat('Q', 1) if hess2 else None
    # the second run on the used optimizer ...
    o1.opt.options['maxiter'] = K2
    o2 = orch.execute(c, F, 1, K2, lb=lb, ub=ub, opts=OPTS, tag='b',
                      hess0=H2, obj=objective('b'), opt=o1.opt,
                      raises=(RuntimeError,))
    # ... and on a fresh one
    o3 = orch.execute(c, F, 1, K2, upd=make(F, upd, cfg), lb=lb, ub=ub,
                      x0=o2.x0, opts=OPTS, tag='b3', hess0=H2,
                      obj=objective('b3', share=o2.obj),
                      stp=orch.Stepper(c, F, 1, 'b3', share=o2.stp),
                      raises=(RuntimeError,))
    c.check((o2.exc is None) == (o3.exc is None), 'same outcome')
    c.check(len(o2.evals) == len(o3.evals), 'same number of evaluations')
    for a, b in zip(o2.evals, o3.evals):
        c.check(c.vec_eq(a['x'], b['x']), 'same evaluated points')
    for a, b in zip(o2.steps, o3.steps):
        c.check(c.And(c.eq(a['delta'], b['delta']),
                      c.vec_eq(a['hess'], b['hess']),
                      c.vec_eq(a['g'], b['g'])), 'same subproblems')
    if len(o2.evals) > 1:
        c.reach('moved')
    fin = bool(c.isfinite(o3.final['fval_min']))
    for k in KEYS:
        if k in ('x_min', 'grad_min') and not fin:
            continue
        if k == 'hess' and len(o3.steps) == 0 and o3.exc is not None:
            continue
        c.check(same_val(c, o2.final[k], o3.final[k]), f'same {k}')
    if upd is not None and o2.exc is None:
        c.reach('scheme')
        c.check_eq(o2.upd.get_mat(), o3.upd.get_mat(),
                   'same approximation')
        if len(o2.evals) > 1 and bool(o2.final['tr_ratio'] > 0):
            c.check_eq(o2.upd.get_diff(), o3.upd.get_diff(),
                       'same approximation difference')
    if o2.ret is not None and o3.ret is not None:
        for a, b in zip(o2.ret, o3.ret):
            c.check(same_val(c, a, b), 'same result')
        c.reach('same')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(upd=None, cfg={}, K1=1, K2=1, raise_at=None,
                      hess1=False, hess2=False, mode='n', special='', warm=''), **p)
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    add(special='f')
    add(mode='b')
    add(raise_at=0)
    add(raise_at=1)
    add(upd='bfgs', raise_at=1, hess1=True)
    for s in ('bfgs', 'sr1', 'bg', 'bb', 'fx', 'ssm', 'tssm', 'gnsbfgs'):
        add(upd=s, hess1=s not in orch.RES)
    add(upd='fixed', cfg=dict(switch_iteration=1), K1=2, K2=1)
    add(upd='fraction', cfg=dict(switch_threshold=0.5), K1=1, K2=1)
    for i, w in enumerate(orch.WARM):
        add(K1=0, special='f', warm=w)
        u = ('bfgs', 'fixed', 'fraction', 'tssm', 'fx')[i % 5]
        add(K1=0, upd=u, cfg=dict(fixed=dict(switch_iteration=5)).get(u, {}),
            warm=w)
    if deep:
        add(upd='dfp', hess1=True)
        add(upd='bfgs', K1=2, hess1=True, hess2=True)
        add(upd='fixed', cfg=dict(switch_iteration=1), K1=2, K2=2)
        add(K1=2, K2=1)
        add(upd='ssm', raise_at=1, special='r')
    return T
