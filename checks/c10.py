"""C10: quasi-Newton updates satisfy the secant equation."""
from . import orch

BOUNDS = ('one update from an arbitrary stored matrix; n = 1, 2 (3 in the '
          'thorough tier); every entry of s, y, the matrix and phi an '
          'arbitrary real; two consecutive updates for n = 1 (thorough: 2); '
          'the data the optimizer feeds to the scheme: two iterations of the '
          'real loop for n = 1, one for n = 2, with offset (reflected) '
          'steps')
ASSUMPTIONS = [
    'real arithmetic: rounding of the updates is outside the claim',
    'numpy array operations have their documented element-wise meaning '
    '(checked on sampled paths against the real numpy)',
]
OUTSIDE = ['n > 3', 'rounding errors', 'overflow']
REACH = ['bfgs', 'dfp', 'broyden', 'sr1-updated', 'sr1-skipped', 'bg',
         'bb-updated', 'bb-skipped', 'finite',
         'rejected'] + ['loop-' + k for k in
                        ('bfgs', 'dfp', 'broyden', 'sr1', 'bg', 'bb')]


def _dot(a, b):
    r = 0
    for i in range(len(a)):
        r = r + a[i] * b[i]
    return r


def _mv(M, v):
    return [_dot(M[i], v) for i in range(len(v))]


def _any_nonzero(c, v):
    return c.Or(*[e != 0 for e in v])


def _make(F, kind, phi, ecc):
    H = F.hessian_approximation
    if kind == 'broyden':
        return H.Broyden(phi, enforce_curv_cond=ecc)
    if kind in ('bfgs', 'dfp'):
        return dict(bfgs=H.BFGS, dfp=H.DFP)[kind](enforce_curv_cond=ecc)
    return dict(sr1=H.SR1, bg=H.BG, bb=H.BB)[kind]()


def secant(c, F, kind, n, ecc=True, sym=True, steps=1):
    phi = 0.0
    if kind == 'broyden':
        phi = c.real('phi')
    app = _make(F, kind, phi, ecc)
    B = c.symmat('B', n) if sym else c.mat('B', n)
    app._init_mat(n, B)
    for k in range(steps):
        s = c.vec(f's{k}_', n)
        old = app.get_mat()
        if kind == 'sr1':
            # y ranges over all vectors as z does
            y = c.vec(f'z{k}_', n) + old.dot(s)
        else:
            y = c.vec(f'y{k}_', n)
        sc, yc = s.copy(), y.copy()
        c.assume(_any_nonzero(c, s))
        bs = _mv(old, s)
        b = _dot(y, s)
        cc = _dot(bs, s)
        if kind in ('bfgs', 'dfp', 'broyden'):
            if ecc:
                c.assume(b > 0)
            else:
                c.assume(b != 0)
            c.assume(cc != 0)
        app.update(s=s, y=y)
        new = app.get_mat()
        diff = app.get_diff()
        res = _mv(new, s)
        c.check_eq(new, old + diff, 'reported difference equals the change')
        c.check_eq(s, sc, 'step argument is not modified', tol=0)
        c.check_eq(y, yc, 'gradient change argument is not modified', tol=0)
        c.check(c.And(*[c.isfinite(e) for r in new for e in r]),
                'finite matrix')
        if kind == 'sr1':
            z = [y[i] - bs[i] for i in range(n)]
            d = _dot(z, s)
            # clearly not degenerate: 1e-7 instead of sqrt(spacing(1))=1.49e-8
            cond = c.And(d * d >= 1e-14 * _dot(s, s) * _dot(z, z),
                         _any_nonzero(c, z))
            if not bool(_any_nonzero(c, z)):
                c.check_eq(c.array(res), y, 'secant equation')
            if bool(cond):
                c.reach('sr1-updated')
                c.check_eq(c.array(res), y, 'secant equation')
            else:
                c.reach('sr1-skipped')
        elif kind == 'bb':
            if bool(c.And(b > 0, _dot(y, bs) != 0)):
                c.reach('bb-updated')
                c.check_eq(c.array(res), y, 'secant equation')
            else:
                # undefined, or discarded by the curvature condition
                c.reach('bb-skipped')
                c.check_eq(new, old, 'skipped update changes nothing')
        else:
            c.reach(kind)
            c.check_eq(c.array(res), y, 'secant equation')
        if kind == 'broyden' and k == 0:
            # phi-combination of the real BFGS and DFP updates
            ends = []
            for nm in ('bfgs', 'dfp'):
                o = _make(F, nm, 0.0, ecc)
                o._init_mat(n, B)
                o.update(s=s, y=y)
                ends.append(o.get_mat())
            c.check_eq(new, (1 - phi) * ends[0] + phi * ends[1],
                       'phi-combination of BFGS and DFP')
        c.observe(f'new{k}', new)


def closed_form(c, F, kind, n):
    """DFP has the textbook rank-two form, BFGS likewise"""
    app = _make(F, kind, 0.0, True)
    B = c.symmat('B', n)
    app._init_mat(n, B)
    s, y = c.vec('s', n), c.vec('y', n)
    b = _dot(y, s)
    u = _mv(B, s)
    q = _dot(u, s)
    c.assume(b > 0)
    c.assume(q != 0)
    app.update(s=s, y=y)
    new = app.get_mat()
    for i in range(n):
        for j in range(n):
            if kind == 'bfgs':
                ref = B[i][j] + y[i] * y[j] / b - u[i] * u[j] / q
            else:
                # (I - y s'/b) B (I - s y'/b) + y y'/b
                ref = B[i][j] - y[i] * u[j] / b - u[i] * y[j] / b + \
                    y[i] * y[j] * q / (b * b) + y[i] * y[j] / b
            c.check_eq(new[i, j], ref, f'{kind} closed form')


def finite(c, F, kind, n, ecc):
    """a nonzero step never makes the matrix non-finite"""
    phi = c.real('phi') if kind == 'broyden' else 0.0
    app = _make(F, kind, phi, ecc)
    B = c.symmat('B', n)
    app._init_mat(n, B)
    s, y = c.vec('s', n), c.vec('y', n)
    if kind == 'sr1':
        y = y + B.dot(s)
    c.assume(_any_nonzero(c, s))
    app.update(s=s, y=y)
    new = app.get_mat()
    c.reach('finite')
    c.check(c.And(*[c.isfinite(e) for r in new for e in r]),
            'finite step data keep the matrix finite')
    c.observe('new', new)


def loop(c, F, n, kind, K, mode, offset, warm=''):
    """the optimizer feeds the scheme with the accepted step and the change
    of the gradient along it; nothing is updated on a rejected step"""
    phi = c.real('phi') if kind == 'broyden' else 0.0
    app = _make(F, kind, phi, True)
    B = c.mat('B', n) if kind in ('bg', 'bb') else c.symmat('B', n)
    if warm:
        B = c.array([[float(i == j) for j in range(n)] for i in range(n)])
    o = orch.execute(c, F, n, K, upd=app, mode=mode, offset=offset, hess0=B,
                     qp='neg', warm=warm,
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0), raises=(RuntimeError,))
    if o.exc is not None:
        return
    if o.steps:
        c.check_eq(o.states[0]['hess'], B, 'first Hessian')
    for k in range(len(o.steps)):
        st, old, nxt = o.steps[k], o.states[k], o.states[k + 1]
        new = o.evals[k + 1]
        s = st['step'].s + st['step'].s0
        if not bool(_any_nonzero(c, s)):
            c.reach('zero')
            return
        if bool(c.eq(nxt['fval'], old['fval'])):
            # values of accepted steps differ
            c.check_eq(nxt['hess'], old['hess'], 'no update without an '
                       'accepted step')
            c.reach('rejected')
            continue
        # the schemes themselves are decided by the other harnesses: an
        # independent instance is fed with the accepted step and gradients
        c.reach('loop-' + kind)
        ghost = _make(F, kind, phi, True)
        ghost._init_mat(n, old['hess'])
        ghost.update(s=s, y=new['g'] - old['grad'])
        c.check_eq(nxt['hess'], ghost.get_mat(),
                   'updated with the accepted step and gradient change')
        c.observe(f'h{k}', nxt['hess'])


def tasks(tier):
    T = []
    for kind in ('bfgs', 'dfp', 'broyden', 'sr1', 'bg', 'bb'):
        for n, K, mode, off in ((1, 2, 'n', False), (1, 1, 'n', True),
                                (2, 1, 'n', True)):
            T.append(dict(name=f'loop-{kind}-n{n}-K{K}-{mode}-o{int(off)}',
                          harness='loop', lazy=True, params=dict(
                              n=n, kind=kind, K=K, mode=mode, offset=off)))
        for w in ('ararar', 'agirmp'):
            T.append(dict(name=f'loop-{kind}-{w}', harness='loop', lazy=True,
                          params=dict(n=1, kind=kind, K=1, mode='n',
                                      offset=True, warm=w)))
    deep = tier == 'thorough'
    for n in (1, 2, 3) if deep else (1, 2):
        for kind in ('bfgs', 'dfp', 'broyden', 'sr1', 'bg', 'bb'):
            for sym in (True, False):
                if n == 1 and not sym:
                    continue
                if not sym and kind not in ('bg', 'bb'):
                    continue
                for ecc in ((True, False) if kind in
                            ('bfgs', 'dfp', 'broyden') else (True,)):
                    T.append(dict(
                        name=f'secant-{kind}-n{n}-sym{int(sym)}-c{int(ecc)}',
                        harness='secant', params=dict(
                            kind=kind, n=n, ecc=ecc, sym=sym)))
            if n <= 2:
                for ecc in (True, False):
                    if ecc or kind in ('bfgs', 'dfp', 'broyden'):
                        T.append(dict(
                            name=f'finite-{kind}-n{n}-c{int(ecc)}',
                            harness='finite',
                            params=dict(kind=kind, n=n, ecc=ecc)))
        for kind in ('bfgs', 'dfp'):
            T.append(dict(name=f'closed-{kind}-n{n}', harness='closed_form',
                          params=dict(kind=kind, n=n)))
    for kind in ('bfgs', 'dfp', 'sr1', 'bg', 'bb'):
        T.append(dict(name=f'twice-{kind}-n1', harness='secant',
                      params=dict(kind=kind, n=1, steps=2)))
        if deep and kind != 'dfp':
            T.append(dict(name=f'twice-{kind}-n2', harness='secant',
                          params=dict(kind=kind, n=2, steps=2)))
    return T
