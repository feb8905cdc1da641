"""C23: inputs are read-only and integer arrays mean the same as floats."""
from . import orch
from .c09 import KEYS, OPTS, same_val

BOUNDS = ('runs of up to 2 iterations of the real minimize loop; n = 1 and 2; '
          'initial point, lower bound, upper bound and initial Hessian are '
          'integer or floating arrays of the same arbitrary integers in every '
          'combination, the point anywhere in the box including its bounds, '
          'the other bound fractional or infinite; callers arrays compared '
          'after the run and overwritten after construction, after the call '
          'and after the first evaluation; every classical scheme from an '
          'integer initial matrix')
ASSUMPTIONS = ['the objective is a function of its input and of nothing the '
               'optimizer does', 'trial steps stay inside the box (C16)']
OUTSIDE = ['n > 2', 'objective functions that modify their argument']
REACH = ['ints', 'on-bound', 'readonly', 'mutated', 'scheme', 'moved']


def traces(c, a, b, what):
    """the two runs are indistinguishable"""
    c.check((a.exc is None) == (b.exc is None), what + ': same outcome')
    c.check(len(a.evals) == len(b.evals), what + ': number of evaluations')
    for p, q in zip(a.evals, b.evals):
        c.check(c.vec_eq(p['x'], q['x']), what + ': evaluated points')
    for p, q in zip(a.steps, b.steps):
        c.check(c.And(c.eq(p['delta'], q['delta']),
                      c.vec_eq(p['x'], q['x']), c.vec_eq(p['g'], q['g']),
                      c.vec_eq(p['hess'], q['hess']),
                      c.vec_eq(p['lb'], q['lb']), c.vec_eq(p['ub'], q['ub']),
                      c.vec_eq(p['dv'], q['dv']),
                      c.eq(p['theta'], q['theta'])), what + ': subproblems')
    if len(a.evals) > 1:
        c.reach('moved')
    if a.exc is not None:
        return
    for k in KEYS:
        c.check(same_val(c, a.final[k], b.final[k]), f'{what}: {k}')
    for p, q in zip(a.ret, b.ret):
        c.check(same_val(c, p, q), what + ': result')


def box(c, n, mode, kinds):
    """integer bounds (i) or fractional ones (f), infinite (-)"""
    inf = float('inf')
    lb, ub, x = [], [], []
    for i in range(n):
        k = mode[i % len(mode)]
        v = c.integer(f'x{i}')
        lo = -inf if k in 'nu' else (c.integer if 'l' in kinds else c.real)(
            f'lb{i}')
        hi = inf if k in 'nl' else (c.integer if 'u' in kinds else c.real)(
            f'ub{i}')
        if k in 'bl':
            c.assume(v >= lo)
        if k in 'bu':
            c.assume(v <= hi)
        if k == 'b':
            c.assume(hi - lo >= 1e-3)
        if k in 'bl' and bool(c.eq(v, lo, 0)) or \
                k in 'bu' and bool(c.eq(v, hi, 0)):
            c.reach('on-bound')
        lb.append(lo)
        ub.append(hi)
        x.append(v)
    return lb, ub, x


def ints(c, F, n, K, mode, kinds, upd, offset):
    lb, ub, x = box(c, n, mode, kinds)
    H = None
    if upd is not None:
        H = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                H[i][j] = H[j][i] = c.integer(f'P{i}{j}')
    need = upd is None or upd in orch.WITH_HESS
    res = upd in orch.RES

    def arr(v, k):
        return c.array([list(r) for r in v] if isinstance(v[0], list)
                       else list(v), 'i' if k in kinds else 'f')
    obj = orch.Objective(c, F, n, hess=need, resfun=res)
    stp = orch.Stepper(c, F, n, offset=offset, qp='neg')
    a = orch.execute(c, F, n, K, upd=upd, x0=arr(x, 'x'), lb=arr(lb, 'l'),
                     ub=arr(ub, 'u'), hess0=arr(H, 'h') if H else None,
                     opts=OPTS, obj=obj, stp=stp, raises=(RuntimeError,))
    f = dict((k, 'f') for k in 'xluh')
    kinds = ''
    b = orch.execute(c, F, n, K, upd=upd, x0=arr(x, 'x'), lb=arr(lb, 'l'),
                     ub=arr(ub, 'u'), hess0=arr(H, 'h') if H else None,
                     opts=OPTS, obj=orch.Objective(
                         c, F, n, 'b', hess=need, resfun=res, share=obj),
                     stp=orch.Stepper(c, F, n, 'b', share=stp),
                     raises=(RuntimeError,))
    c.reach('ints')
    traces(c, a, b, 'integer and floating arrays')
    c.observe('fval', b.final['fval'])
    c.observe('x', b.final['x'])


def scheme_ints(c, F, n, kind):
    """the scheme itself, started from an integer matrix"""
    from .c10 import _make
    H = [[c.integer(f'P{i}{j}') for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            H[i][j] = H[j][i]
    apps = []
    s, y = c.vec('s', n), c.vec('y', n)
    for k in 'if':
        M = c.array([list(r) for r in H], k)
        app = _make(F, kind, 0.0, True)
        app._init_mat(n, M)
        first = app.get_mat().copy()
        # the caller goes on using the array
        M[0, 0] = M[0, 0] + 1
        c.check_eq(app.get_mat(), first, 'later changes of the initial '
                   'matrix have no effect')
        app.update(s=s, y=y)
        back = c.array([list(r) for r in H], k)
        back[0, 0] = back[0, 0] + 1
        c.check_eq(M, back, 'initial matrix is not modified', tol=0)
        apps.append(app)
    c.reach('scheme')
    c.check_eq(apps[0].get_mat(), apps[1].get_mat(),
               'same approximation from integer and floating matrix')
    c.observe('m', apps[0].get_mat())


def readonly(c, F, n, K, mode, kinds, upd, resfun, when):
    """when: caller's arrays are overwritten after 'construction', at the
    first ('start') or second ('step') evaluation, or never ('end')"""
    lb, ub, x = box(c, n, mode, kinds)
    need = upd is None or upd in orch.WITH_HESS
    res = upd in orch.RES

    def arr(v, k):
        return c.array([list(r) for r in v] if isinstance(v[0], list)
                       else list(v), 'i' if k in kinds else 'f')
    H = None
    if upd is not None:
        H = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                H[i][j] = H[j][i] = (c.integer if 'h' in kinds else c.real)(
                    f'P{i}{j}')
    mine = dict(x0=arr(x, 'x'), lb=arr(lb, 'l'), ub=arr(ub, 'u'))
    if H:
        mine['hess0'] = arr(H, 'h')
    keep = {k: v.copy() for k, v in mine.items()}
    opts = dict(OPTS, maxiter=K)
    if when == 'end':
        names = F.constants.Options
        opts[names.SUBSPACE_DIM.value] = ('2D', 'full', 'scg')[
            c.choose('subspace', 3)]
        opts[names.STEPBACK_STRAT.value] = ('reflect', 'truncate')[
            c.choose('strategy', 2)]
    keepo = dict(opts)
    obj = orch.Objective(c, F, n, hess=need, resfun=res)
    stp = orch.Stepper(c, F, n, qp='neg')

    def spoil(names):
        for k in names:
            if k not in mine:
                continue
            a = mine[k]
            for i in range(n):
                if a.ndim == 2:
                    a[i, i] = a[i, i] + 3
                else:
                    a[i] = 7
    opt = F.minimize.Optimizer(obj, ub=mine['ub'], lb=mine['lb'], verbose=50,
                               options=opts, hessian_update=orch.scheme(
                                   F, upd), resfun=res)
    if when == 'construction':
        spoil(('lb', 'ub'))
    if when == 'start':
        obj.hooks.append(lambda i: i == 0 and spoil(('lb', 'ub', 'x0')))
    if when == 'step':
        obj.hooks.append(lambda i: i == 1 and spoil(
            ('lb', 'ub', 'x0', 'hess0')))
    # the steps are confined to the original box
    real_lb, real_ub = keep['lb'], keep['ub']
    o = orch.execute(c, F, n, K, x0=mine['x0'], lb=real_lb, ub=real_ub,
                     hess0=mine.get('hess0'), obj=obj, stp=stp, opt=opt,
                     raises=(RuntimeError,))
    if when == 'end':
        c.reach('readonly')
        for k, v in mine.items():
            c.check_eq(v, keep[k], 'callers array is not modified', tol=0)
        c.check(sorted(map(str, opts)) == sorted(map(str, keepo)) and
                all(type(k) is str for k in opts) and
                all(opts[k] is keepo[k] or type(opts[k]) is type(keepo[k])
                    and opts[k] == keepo[k] for k in keepo), 'option dictionary is not modified')
        return
    c.reach('mutated')
    b = orch.execute(c, F, n, K, upd=upd, x0=keep['x0'], lb=keep['lb'],
                     ub=keep['ub'], hess0=keep.get('hess0'), opts=OPTS,
                     obj=orch.Objective(c, F, n, 'b', hess=need, resfun=res,
                                        share=obj),
                     stp=orch.Stepper(c, F, n, 'b', share=stp),
                     raises=(RuntimeError,))
    traces(c, o, b, 'later changes of the arrays')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, **p):
        d = dict(ints=dict(n=1, K=1, mode='n', kinds='x', upd=None,
                           offset=False),
                 readonly=dict(n=1, K=1, mode='b', kinds='', upd=None,
                               resfun=False, when='end'),
                 scheme_ints=dict())[h]
        p = dict(d, **p)
        T.append(dict(name='-'.join([h] + [str(v) for v in p.values()]),
                      harness=h, params=p, lazy=h != 'scheme_ints'))
    add('ints')
    for k in ('x', 'l', 'u', 'xl', 'xu', 'lu', 'xlu'):
        add('ints', mode='b', kinds=k)
    add('ints', mode='l', kinds='xl')
    add('ints', mode='u', kinds='xu')
    add('ints', n=2, mode='bn', kinds='x')
    add('ints', n=2, mode='l', kinds='xl')
    for s in orch.SCHEMES:
        if s not in orch.RES:
            add('ints', upd=s, kinds='xh')
    add('ints', upd='ssm', kinds='xh')
    for s in ('bfgs', 'dfp', 'sr1', 'bg', 'bb'):
        add('scheme_ints', n=1, kind=s)
        add('scheme_ints', n=2, kind=s)
    for k in ('', 'xlu'):
        add('readonly', kinds=k)
        add('readonly', kinds=k, mode='l' if not k else 'b', K=2 if not k
            else 1)
        for w in ('construction', 'start', 'step'):
            add('readonly', kinds=k, when=w)
    for s in ('bfgs', 'bg', 'sr1', 'fixed', 'fx', 'ssm'):
        add('readonly', upd=s, mode='n')
        add('readonly', upd=s, kinds='xh', mode='n')
        add('readonly', upd=s, mode='n', when='step')
    add('readonly', upd='bg', mode='n', K=2, when='step')
    add('readonly', n=2, mode='bl')
    if deep:
        add('ints', n=2, mode='b', kinds='xlu')
        add('ints', K=2, mode='b', kinds='xlu')
        for s in orch.SCHEMES:
            add('ints', upd=s, kinds='xh', K=2)
        add('readonly', n=2, mode='b', when='step')
    # names are unique
    seen = {}
    for t in T:
        seen.setdefault(t['name'], t)
    return list(seen.values())
