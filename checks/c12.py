"""C12: hybrid schemes use and switch between their sources as documented."""
from . import orch
from .util import any_nonzero, dot, mm, mtv, mv, tr

BOUNDS = ('every sequence of up to 3 updates (n = 1; 2 updates for n = 2) '
          'from an arbitrary initial matrix with arbitrary steps, gradient '
          'changes, Hessians, counters and thresholds; Optimizer.update from '
          'an arbitrary optimizer state; complete runs with a concrete '
          'beginning of 11 to 30 iterations (accepted, rejected, growing, '
          'shrinking, invalid), an arbitrary limit or threshold and one '
          'arbitrary iteration')
ASSUMPTIONS = ['real arithmetic (in complete runs the fraction is not '
               'within 1e-9 of the threshold)', 'residuals before a Fletcher-Xu update are '
               'not all zero (the documented ratio is undefined otherwise)',
               'steps are nonzero']
OUTSIDE = ['n > 2', 'more than 3 consecutive updates (the switch state '
           'after 3 updates is the state after any number)']
REACH = ['fixed-before', 'fixed-after', 'fraction-before', 'fraction-after',
         'fx-hess', 'fx-iter', 'opt-fixed', 'opt-fraction', 'opt-fx',
         'loop', 'loop-switched']


def _iter(F, happ):
    H = F.hessian_approximation
    if happ == 'default':
        return None
    return getattr(H, happ)()


def _sy(c, n, k):
    s, y = c.vec(f's{k}_', n), c.vec(f'y{k}_', n)
    c.assume(any_nonzero(c, s))
    return s, y


def switch(c, F, kind, happ, n, steps):
    """ghost: an independent instance of the iterative scheme fed with every
    (s, y) pair, and the switch condition of the documentation"""
    H = F.hessian_approximation
    ghost = (H.BFGS() if happ == 'default' else _iter(F, happ))
    if kind == 'fixed':
        thr = c.integer('limit', lo=0)
        app = H.HybridFixed(_iter(F, happ), switch_iteration=thr)
    else:
        thr = c.real('threshold', lo=0, hi=1)
        app = H.HybridFraction(_iter(F, happ), switch_threshold=thr)
    B = c.symmat('B', n)
    if happ == 'default':
        for i in range(n):
            c.assume(B[i][i] > 0)
    app._init_mat(n, B)
    ghost._init_mat(n, B)
    c.check_eq(app.get_mat(), B, 'initial matrix')
    switched = False
    for k in range(steps):
        s, y = _sy(c, n, k)
        hess = c.symmat(f'H{k}_', n)
        keep = hess.copy()
        if kind == 'fixed':
            cnt = c.integer(f'cnt{k}', lo=0)
            kw = dict(iter_since_tr_update=cnt)
            met = cnt >= thr
        else:
            it = c.integer(f'it{k}', lo=1)
            num = c.integer(f'num{k}', lo=0)
            kw = dict(tr_nonupdates=num, iterations=it)
            met = c.And(it > 25, num > thr * it)
        old = app.get_mat()
        app.update(s=s, y=y, hess=hess, **kw)
        ghost.update(s=s, y=y)
        new = app.get_mat()
        if switched:
            c.reach(kind + '-after')
            c.check_eq(new, ghost.get_mat(), 'after the switch: iterative '
                       'approximation updated on every step')
        else:
            c.reach(kind + '-before')
            c.check_eq(new, hess, 'before the switch: objective Hessian')
        c.check_eq(hess, keep, 'Hessian argument is not modified', tol=0)
        c.check_eq(app.get_diff(), new - old, 'reported difference')
        switched = switched or bool(met)
        c.observe(f'm{k}', new)


def fx(c, F, happ, n, steps, m):
    H = F.hessian_approximation
    tol = c.real('tol')
    app = H.FX(_iter(F, happ), hybrid_tol=tol)
    B = c.symmat('B', n)
    if happ == 'default':
        for i in range(n):
            c.assume(B[i][i] > 0)
    app._init_mat(n, B)
    c.check_eq(app.get_mat(), B, 'initial matrix')
    for k in range(steps):
        d, g = _sy(c, n, k)
        hess = c.symmat(f'H{k}_', n)
        r, rp = c.vec(f'r{k}_', m), c.vec(f'q{k}_', m)
        c.assume(any_nonzero(c, rp))
        old = app.get_mat()
        app.update(delta=d, gamma=g, r=r, rprev=rp, hess=hess)
        new = app.get_mat()
        if bool(dot(rp, rp) - dot(r, r) >= tol * dot(rp, rp)):
            c.reach('fx-hess')
            c.check_eq(new, hess, 'sufficient decrease: Gauss-Newton Hessian')
        else:
            c.reach('fx-iter')
            gh = H.BFGS() if happ == 'default' else _iter(F, happ)
            gh._init_mat(n, old)
            gh.update(s=d, y=g)
            c.check_eq(new, gh.get_mat(), 'otherwise: iterative update of '
                       'the last matrix')
        c.check_eq(app.get_diff(), new - old, 'reported difference')
        c.observe(f'm{k}', new)


class _Step:
    pass


def optimizer_args(c, F, kind, n, m):
    """Optimizer.update passes the right data and counters"""
    H, M = F.hessian_approximation, F.minimize
    seen = []
    if kind == 'fixed':
        lim = c.integer('limit', lo=0)
        app = H.HybridFixed(H.BG(), switch_iteration=lim)
    elif kind == 'fraction':
        thr = c.real('threshold', lo=0, hi=1)
        app = H.HybridFraction(H.BG(), switch_threshold=thr)
    else:
        tol = c.real('tol')
        app = H.FX(H.BG(), hybrid_tol=tol)
    inf = F.np.inf
    opt = M.Optimizer(lambda x: None, ub=c.array([inf] * n),
                      lb=c.array([-inf] * n), hessian_update=app,
                      resfun=kind == 'fx', verbose=50)
    B = c.symmat('B', n)
    app._init_mat(n, B)
    opt.hess = app.get_mat()
    x, g0 = c.vec('x', n), c.vec('g0_', n)
    opt.x, opt.grad, opt.fval = x, g0, c.real('f0')
    ghost = H.BG()
    ghost._init_mat(n, B)
    switched = False
    res, sres = (c.vec('r0_', m), c.mat('J0_', m, n)) if kind == 'fx' \
        else (None, None)
    if kind == 'fx':
        c.assume(any_nonzero(c, res))
    old = M.Funout(fval=opt.fval, grad=g0, x=x, res=res, sres=sres)
    for k in range(2 if kind != 'fx' else 1):
        step = _Step()
        step.s, step.s0 = c.vec(f's{k}_', n), c.vec(f'o{k}_', n)
        s = step.s + step.s0
        step.ss, step.ss0 = c.vec(f'ss{k}_', n), c.vec(f'so{k}_', n)
        c.assume(any_nonzero(c, s))
        g1 = c.vec(f'g{k + 1}_', n)
        y = g1 - opt.grad
        prev = opt.hess
        if kind == 'fx':
            r1, J1 = c.vec('r1_', m), c.mat('J1_', m, n)
            hess = c.array(mm(tr(J1), J1))
        else:
            r1 = J1 = None
            hess = c.symmat(f'H{k}_', n)
        it, cnt, num = (c.integer(f'it{k}', lo=1),
                        c.integer(f'cnt{k}', lo=0),
                        c.integer(f'num{k}', lo=0))
        opt.iteration, opt.iterations_since_tr_update = it, cnt
        opt.n_intermediate_tr_radius = num
        new = M.Funout(fval=c.real(f'f{k + 1}'), grad=g1,
                       x=opt.x + s, hess=hess, res=r1, sres=J1)
        opt.update(step, new, old)
        if kind == 'fx':
            c.reach('opt-fx')
            if bool(dot(res, res) - dot(r1, r1) >= tol * dot(res, res)):
                c.check_eq(opt.hess, hess, 'optimizer uses J^T J')
            else:
                gam = mv(hess, s)
                t = mtv(J1 - sres, r1)
                gam = c.array([gam[i] + t[i] for i in range(n)])
                ghost.update(s=s, y=gam)
                c.check_eq(opt.hess, ghost.get_mat(), 'optimizer uses the '
                           'Fletcher-Xu gradient change')
        else:
            c.reach('opt-' + kind)
            ghost.update(s=s, y=y)
            c.check_eq(opt.hess, ghost.get_mat() if switched else hess,
                       'optimizer Hessian follows the scheme')
            met = cnt >= lim if kind == 'fixed' else \
                c.And(it > 25, num > thr * it)
            switched = switched or bool(met)
        c.check_eq(app.get_diff(), opt.hess - prev, 'difference of the '
                   'optimizer Hessian')
        c.observe(f'm{k}', opt.hess)
        old = new


def loop(c, F, kind, n, warm):
    """the counters of a whole run: a concrete beginning, arbitrary limit or
    threshold and an arbitrary last iteration"""
    H = F.hessian_approximation
    if kind == 'fixed':
        lim = c.integer('limit', 0, len(warm) + 3)
        app = H.HybridFixed(H.BG(), switch_iteration=lim)
    else:
        thr = c.real('threshold', lo=0, hi=1)
        app = H.HybridFraction(H.BG(), switch_threshold=thr)
    o = orch.execute(c, F, n, 1, upd=app, warm=warm, qp='neg',
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0), raises=(RuntimeError,))
    if o.exc is not None:
        return
    ghost = H.BG()
    ghost._init_mat(n, o.states[0]['hess'])
    cnt = num = 0
    switched = False
    for k in range(len(o.steps)):
        st, old, nxt = o.steps[k], o.states[k], o.states[k + 1]
        new, r = o.evals[k + 1], nxt['tr_ratio']
        q = c.norm(st['step'].ss + st['step'].ss0)
        if bool(c.Or(r <= 0.25, c.And(r >= 0.75, q >= old['delta'] * 0.9))):
            cnt = 0
        else:
            cnt += 1
            if bool(c.And(r > 0.25, r < 0.75)):
                num += 1
        if not bool(r > 0):
            c.check_eq(nxt['hess'], old['hess'], 'rejected: Hessian is kept')
            continue
        s = st['step'].s + st['step'].s0
        ghost.update(s=s, y=new['g'] - old['grad'])
        c.check_eq(nxt['hess'], ghost.get_mat() if switched else
                   c.array(new['h']), 'source of the Hessian during a run')
        if switched:
            c.reach('loop-switched')
        c.reach('loop')
        if kind == 'fixed':
            met = cnt >= lim
        else:
            c.assume(c.abs(num - thr * (k + 1)) > 1e-9)
            met = k + 1 > 25 and num > thr * (k + 1)
        switched = switched or bool(met)
    c.observe('h', o.final['hess'])


def tasks(tier):
    T = []
    deep = tier == 'thorough'
    for w in ('mamamamrmmmm', 'aaaaaaaaaaaa', 'mmrmmmgmmmmmm',
              'aaimmmpmmmm'):
        T.append(dict(name=f'loop-fixed-{w}', harness='loop', lazy=True,
                      params=dict(kind='fixed', n=1, warm=w)))
    for w in ('m' * 26, 'mmmmr' * 5 + 'mmm', 'mag' * 9, 'mmmmpi' * 5,
              'a' * 25 + 'mmm'):
        T.append(dict(name=f'loop-fraction-{w}', harness='loop', lazy=True,
                      params=dict(kind='fraction', n=1, warm=w)))
    for kind in ('fixed', 'fraction'):
        for happ in ('default', 'SR1', 'BG', 'BB', 'DFP'):
            if happ == 'DFP' and not deep:
                continue
            T.append(dict(name=f'{kind}-{happ}-n1', harness='switch',
                          params=dict(kind=kind, happ=happ, n=1,
                                      steps=3 if happ != 'BB' or deep
                                      else 2)))
        T.append(dict(name=f'{kind}-BG-n2', harness='switch',
                      params=dict(kind=kind, happ='BG', n=2,
                                  steps=3 if deep else 2)))
        if deep:
            T.append(dict(name=f'{kind}-BFGS-n2', harness='switch',
                          params=dict(kind=kind, happ='default', n=2,
                                      steps=2)))
        T.append(dict(name=f'opt-{kind}', harness='optimizer_args',
                      params=dict(kind=kind, n=1, m=1)))
        T.append(dict(name=f'opt-{kind}-n2', harness='optimizer_args',
                      params=dict(kind=kind, n=2, m=1)))
    for happ in ('default', 'SR1', 'BG', 'BB', 'DFP'):
        for m in (1, 2):
            T.append(dict(name=f'fx-{happ}-n1-m{m}', harness='fx',
                          params=dict(happ=happ, n=1, steps=2, m=m)))
        T.append(dict(name=f'fx-{happ}-n2', harness='fx',
                      params=dict(happ=happ, n=2, steps=1, m=2)))
    for n, m in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if deep else ()):
        T.append(dict(name=f'opt-fx-{n}{m}', harness='optimizer_args',
                      params=dict(kind='fx', n=n, m=m)))
    return T
