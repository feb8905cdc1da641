"""C08: non-finite objective output is never accepted."""
from . import orch

BOUNDS = ('start and first trial (thorough: two trials) of the real minimize '
          'loop; every entry of value, gradient, Hessian (or residual and '
          'Jacobian) is finite, NaN, +inf or -inf independently; n = 1 and 2, '
          'with and without Hessian approximation')
ASSUMPTIONS = ['trial steps stay inside the box (decided by C16)',
               'arithmetic on finite numbers does not overflow']
OUTSIDE = ['n > 2', 'more than two residuals']
REACH = ['init-raise', 'trial-raise', 'rejected', 'clean']


def run(c, F, n, K, mode, upd, special, m, resfun, H, warm):
    E = F.constants.ExitFlag
    name = upd
    u = orch.scheme(F, upd)
    needh = upd is None or name in orch.WITH_HESS
    obj = orch.Objective(c, F, n, hess=needh, resfun=resfun, m=m,
                         special=special, warm=warm)
    kw = {}
    if H:
        kw['hess0'] = c.symmat('B', n)
    o = orch.execute(c, F, n, K, upd=u, mode=mode, obj=obj,
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0), warm=warm, raises=(RuntimeError,), **kw)
    flag = o.final['exitflag']

    def ok(e):
        r = orch.all_finite(c, dict(e, h=e['h'] if needh else None))
        return bool(r)
    if not o.evals:
        c.fail('no evaluation')
    if not ok(o.evals[0]):
        c.reach('init-raise')
        c.check(o.exc is not None, 'non-finite output at the start raises '
                'RuntimeError')
        c.check(flag == E.NOT_FINITE, 'exit flag NOT_FINITE')
        c.check(len(o.evals) == 1, 'no evaluation after a non-finite start')
        return
    for k in range(1, len(o.evals)):
        e = o.evals[k]
        old = o.states[k - 1]
        nxt = o.states[k]
        last = k == len(o.evals) - 1
        if not bool(c.isfinite(e['f'])):
            c.reach('rejected')
            c.check(o.exc is None or not last, 'a non-finite trial value '
                    'never raises')
            c.check(c.And(c.eq(nxt['fval'], old['fval']),
                          c.vec_eq(nxt['x'], old['x']),
                          c.vec_eq(nxt['grad'], old['grad']),
                          c.vec_eq(nxt['hess'], old['hess'])),
                    'a non-finite trial leaves the state unchanged')
            if o.upd is not None and last:
                c.check_eq(o.upd.get_mat(), old['hess'],
                           'a non-finite trial leaves the approximation '
                           'unchanged')
            c.check(nxt['delta'] <= old['delta'] / 4, 'a non-finite trial '
                    'shrinks the trust region')
        elif not ok(e):
            c.reach('trial-raise')
            c.check(last and o.exc is not None, 'a finite trial value with '
                    'non-finite derivatives raises RuntimeError')
            c.check(flag == E.NOT_FINITE, 'exit flag NOT_FINITE')
        else:
            c.reach('clean')
            c.check(not (last and o.exc is not None), 'finite output never '
                    'raises')
    if o.exc is None:
        c.check(flag != E.NOT_FINITE, 'flag NOT_FINITE only with an error')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(n=1, K=1, mode='n', upd=None, special='fgh', m=1,
                      resfun=False, H=False, warm=''), **p)
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    add()
    add(mode='b')
    add(n=2, special='g')
    add(n=2, special='h')
    add(n=2, special='f')
    add(upd='bfgs', special='fg', H=True)
    add(upd='sr1', special='fg')
    add(upd='fixed')
    add(upd='fx', resfun=True, special='rJ')
    add(upd='ssm', resfun=True, special='r', m=1)
    add(upd='tssm', resfun=True, special='J')
    add(upd=None, resfun=True, special='rJ', m=1)
    add(upd=None, resfun=True, special='r', m=2)
    for i, w in enumerate(orch.WARM):
        add(n=1 + i % 2, special='fg', warm=w)
        add(upd='tssm', resfun=True, special='r', warm=w)
    if deep:
        add(K=2, special='fgh')
        add(n=2, special='fgh')
        add(n=2, upd='bfgs', special='fg')
        add(upd='gnsbfgs', resfun=True, special='rJ')
        add(upd='bfgs', K=2, special='fg')
    return T
