"""Runs the real Optimizer.minimize with an arbitrary objective and arbitrary
trial steps.

The objective's outputs are unconstrained symbols (optionally also NaN or
infinite); trust_region is replaced by a stub that returns an arbitrary step
that keeps the new point inside the box (the contract of C16).  Everything
else (scaling, radius, acceptance, convergence, bookkeeping, Hessian updates)
is the real code."""
from .util import any_nonzero, dot, mm, mtv, tr

TR_ARGS = ('x', 'g', 'hess', 'scaling', 'delta', 'dv', 'theta', 'lb', 'ub',
           'subspace_dim', 'stepback_strategy', 'logger')
NUDGE = 1e-12       # documented nudge off the bounds is about 2e-14
TYPES = ('2d', 'nd', 'g', 'trr', 'trt', 'cgs', 'ref')


class Warm:
    """a concrete beginning of a run, one letter per iteration: a(ccepted),
    g(rowing radius), m(edium ratio), p(oor ratio), r(ejected), i(nvalid
    value); what follows is arbitrary"""
    RATIO = dict(a=1.0, g=1.0, m=0.5, p=0.125)

    def __init__(self, pattern):
        self.pattern = pattern
        cur, self.res, self.cur = 64.0, [64.0], [64.0]
        for k in pattern:
            new = cur - 1.0 if k in self.RATIO else cur + 1.0
            self.res.append(new if k != 'i' else float('nan'))
            cur = new if k in self.RATIO else cur
            self.cur.append(cur)

    def out(self, c, i, n, m, hess, resfun):
        """outputs of evaluation i; None: not part of the beginning"""
        if i > len(self.pattern):
            return None
        r = self.res[i]
        if resfun:
            return (c.array([r] + [0.0] * (m - 1)), c.array(
                [[1.0 + i % 3 + p + q for q in range(n)] for p in range(m)]))
        g = c.array([(1.0 + i % 3 + p) * (-1) ** p for p in range(n)])
        H = c.array([[float(i % 4) + (p == q) for q in range(n)]
                     for p in range(n)])
        return (r * r / 2, g, H) if hess else (r * r / 2, g)

    def step(self, c, k, n, a):
        if k >= len(self.pattern):
            return None
        kind = self.pattern[k]
        # in coordinates of the scaled step: along one variable
        ss = [0.0] * n
        ss[k % n] = (-1) ** (k // 2) * a['delta'] * (
            1.0 if kind == 'g' else 0.5)
        qp = -1.0
        if kind in self.RATIO:
            f = [v * v / 2 for v in (self.cur[k], self.cur[k + 1])]
            qp = (f[1] - f[0]) / self.RATIO[kind]
        z = c.array([0.0] * n)
        return dict(s=c.array(ss), ss=c.array(ss), s0=z, ss0=z.copy(),
                    qpval=qp, nrefl=k % 3, ntrunc=k % 2)


# longer ones, the radius stays of order one
LONG = ('a' * 40, 'gggr' * 9, 'mmam' * 10)
WARM = ('rrrrrrrrrrrr', 'aaaaaaaaaaaa', 'gggggggggggg', 'mpmpmpmpmpmp',
        'rararararara', 'iiiiiiiiiiii', 'agirmpagirmp')


class Objective:
    def __init__(self, c, F, n, tag='', hess=True, resfun=False, m=1,
                 special='', raise_at=None, share=None, warm='', asym=False):
        self.asym = asym         # Hessians need not be symmetric
        self.warm = Warm(warm) if warm else None
        self.c, self.F, self.n, self.tag = c, F, n, tag
        self.hess, self.resfun, self.m = hess, resfun, m
        self.special, self.raise_at = special, raise_at
        self.calls = []
        self.hooks = []
        self.share = share       # same outputs as another objective

    def out(self, i):
        c, n, t = self.c, self.n, self.tag
        if self.warm is not None:
            ret = self.warm.out(c, i, n, self.m, self.hess, self.resfun)
            if ret is not None:
                return ret

        def sp(k):
            return True if k in self.special else None
        if self.resfun:
            r = c.vec(f'{t}r{i}_', self.m, special=sp('r'))
            J = c.mat(f'{t}J{i}_', self.m, n, special=sp('J'))
            return (r, J)
        f = c.real(f'{t}f{i}', special=sp('f'))
        g = c.vec(f'{t}g{i}_', n, special=sp('g'))
        if not self.hess:
            return (f, g)
        if self.asym:
            return (f, g, c.mat(f'{t}H{i}_', n, n, special=sp('h')))
        return (f, g, c.symmat(f'{t}H{i}_', n, special=sp('h')))

    def __call__(self, x, **kw):
        i = len(self.calls)
        for h in self.hooks:
            h(i)
        if self.share is not None and i < len(self.share.calls):
            ret = self.share.calls[i]['ret']
        else:
            ret = self.out(i)
        if self.resfun:
            r, J = ret
            d = dict(f=dot(r, r) / 2, g=mtv(J, r), h=mm(tr(J), J))
            keep = (r.copy(), J.copy())
        else:
            d = dict(f=ret[0], g=ret[1].copy(),
                     h=ret[2].copy() if self.hess else None)
            keep = (ret[0], ret[1].copy()) + (
                (ret[2].copy(),) if self.hess else ())
        self.calls.append(dict(d, x=x.copy(), ret=keep))
        if self.raise_at == i:
            raise RuntimeError('objective failed')
        return ret


class Stepper:
    """stand-in for trust_region"""

    def __init__(self, c, F, n, tag='', offset=False, scaled=True,
                 qp='real', box=True, share=None, small=False, types=False,
                 counts=False, tie=False, warm=''):
        self.warm = Warm(warm) if warm else None
        self.__dict__.update(c=c, F=F, n=n, tag=tag, offset=offset,
                             scaled=scaled, qp=qp, box=box, share=share,
                             types=types, counts=counts, tie=tie)
        self.calls = []
        self.opt = None

        class Stub(F.steps.Step):
            type = '2d'

            def __init__(self):
                pass
        self.Stub = Stub

    def make(self, k, a):
        c, n, t = self.c, self.n, self.tag
        s = dict(s=c.vec(f'{t}s{k}_', n))
        zero = c.array([0.0] * n)
        s['s0'] = c.vec(f'{t}o{k}_', n) if self.offset else zero
        if self.scaled:
            s['ss'] = c.vec(f'{t}ss{k}_', n)
            s['ss0'] = c.vec(f'{t}so{k}_', n) if self.offset else \
                zero.copy()
        else:
            s['ss'], s['ss0'] = s['s'].copy(), s['s0'].copy()
        if self.qp == 'special':
            s['qpval'] = c.real(f'{t}qp{k}', special=True)
        elif self.qp == 'neg':
            s['qpval'] = -c.real(f'{t}qp{k}', pos=True)
        else:
            s['qpval'] = c.real(f'{t}qp{k}')
        if self.counts:
            s['nrefl'] = c.choose(f'{t}nrefl', 3)
            s['ntrunc'] = c.choose(f'{t}ntrunc', 2) if not s['nrefl'] else 0
        if self.types:
            s['type'] = TYPES[c.choose(f'{t}type', 3)]
        return s

    def __call__(self, *args, **kw):
        c, n = self.c, self.n
        a = dict(zip(TR_ARGS, args))
        a.update(kw)
        k = len(self.calls)
        if self.share is not None and k < len(self.share.calls):
            d = self.share.calls[k]['data']
        else:
            d = self.warm.step(c, k, n, a) if self.warm is not None else None
            d = d or self.make(k, a)
        st = self.Stub()
        for key, v in d.items():
            setattr(st, key, v.copy() if hasattr(v, 'copy') and
                    getattr(v, 'ndim', 0) else v)
        st.x = a['x']
        st.alpha, st.theta, st.minbr = 1.0, a.get('theta', 1.0), 2.0
        st.delta, st.lb, st.ub = a['delta'], a['lb'], a['ub']
        st.reflection_indices = set(range(d.get('nrefl', 0)))
        st.truncation_indices = set(range(d.get('ntrunc', 0)))
        eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        st.subspace = c.array(eye)
        st.shess = c.array(eye)
        st.og_s, st.og_ss = st.s, st.ss
        st.logger = a.get('logger')
        if self.box:
            for i in range(n):
                xn = a['x'][i] + st.s[i] + st.s0[i]
                for b, sg in ((a['lb'][i], 1), (a['ub'][i], -1)):
                    if not _isinf(b):
                        c.assume(sg * (xn - b) >= 0
                                 if self.box == 'closed' else
                                 sg * (xn - b) > NUDGE)
        rec = dict(a, data=d, step=st)
        rec['x'], rec['g'] = a['x'].copy(), a['g'].copy()
        rec['hess'] = a['hess'].copy()
        if self.opt is not None:
            rec['opt'] = snapshot(self.opt)
        self.calls.append(rec)
        return st


class SignedObjective(Objective):
    """arbitrary values, gradients that decide all comparisons"""

    def out(self, i):
        ret = super().out(i)
        if self.warm is not None and i <= len(self.warm.pattern):
            return ret
        c, g = self.c, ret[1][0]
        if self.resfun:
            c.assume(c.And(ret[0][0] >= 1.0, g[0] >= 10.0))
        else:
            c.assume(c.And(g >= 10.0, g <= 20.0))
        return ret


class SignedStepper(Stepper):
    def make(self, k, a):
        s = super().make(k, a)
        c = self.c
        c.assume(c.And(s['s'][0] >= -1.0, s['s'][0] <= -0.5,
                       s['ss'][0] >= -1.0, s['ss'][0] <= -0.5))
        return s


class RangedObjective(Objective):
    """decreasing values in narrow ranges: good steps, no convergence"""

    def out(self, i):
        ret = super().out(i)
        if self.warm is not None and i <= len(self.warm.pattern):
            return ret
        c, f = self.c, 100.0 / 4 ** i
        if self.resfun:
            r = ret[0][0]
            c.assume(c.And(r >= (2 * f) ** 0.5, r <= (2 * f) ** 0.5 + 1e-3,
                           ret[1][0][0] >= 1.0, ret[1][0][0] <= 1.5))
        else:
            c.assume(c.And(ret[0] >= f, ret[0] <= f + 1e-2,
                           ret[1][0] >= 10.0 - i, ret[1][0] <= 10.5 - i))
            if self.hess:
                c.assume(c.And(ret[2][0][0] >= 1, ret[2][0][0] <= 2))
        return ret


class RangedStepper(Stepper):
    def make(self, k, a):
        s = super().make(k, a)
        c, q = self.c, -75.0 / 4 ** k
        c.assume(c.And(s['s'][0] >= -1.0, s['s'][0] <= -0.5,
                       s['ss'][0] >= -1.0, s['ss'][0] <= -0.5,
                       s['qpval'] >= q - 0.1, s['qpval'] <= q))
        return s


def _isinf(b):
    return isinstance(b, float) and b in (float('inf'), float('-inf'))


def snapshot(o):
    d = {}
    for k in ('fval', 'fval_min', 'delta', 'iteration', 'converged',
              'exitflag', 'iterations_since_tr_update', 'tr_ratio',
              'n_intermediate_tr_radius'):
        d[k] = getattr(o, k)
    for k in ('x', 'grad', 'hess', 'x_min', 'grad_min'):
        v = getattr(o, k)
        d[k] = v.copy() if hasattr(v, 'copy') else v
    return d


def bounds(c, F, n, mode, tag=''):
    """mode: one letter per component: n(one) b(oth) l(ower) u(pper)"""
    inf = float('inf')
    lb, ub = [], []
    for i in range(n):
        k = mode[i % len(mode)]
        lo = c.real(f'{tag}lb{i}') if k in 'bl' else -inf
        hi = c.real(f'{tag}ub{i}') if k in 'bu' else inf
        if k == 'b':
            c.assume(hi - lo >= 1e-3)
        lb.append(lo)
        ub.append(hi)
    return c.array(lb), c.array(ub)


def start(c, n, lb, ub, tag='', strict=False):
    x0 = c.vec(f'{tag}x', n)
    for i in range(n):
        if not _isinf(lb[i]):
            c.assume(x0[i] - lb[i] > NUDGE if strict else x0[i] >= lb[i])
        if not _isinf(ub[i]):
            c.assume(ub[i] - x0[i] > NUDGE if strict else x0[i] <= ub[i])
    return x0


def set_clock(c, F, fn):
    if c.symbolic:
        F.env.clock = fn
    else:
        import time
        for nm in ('time', 'perf_counter', 'monotonic', 'process_time'):
            c.patch(time, nm, fn)


def patch_tr(c, F, stub):
    for mod in (F.minimize, F.trust_region):
        if hasattr(mod, 'trust_region'):
            c.patch(mod, 'trust_region', stub)


SCHEMES = {'bfgs': 'BFGS', 'dfp': 'DFP', 'sr1': 'SR1', 'bg': 'BG', 'bb': 'BB',
           'fixed': 'HybridFixed', 'fraction': 'HybridFraction', 'fx': 'FX',
           'ssm': 'SSM', 'tssm': 'TSSM', 'gnsbfgs': 'GNSBFGS'}
RES = ('fx', 'ssm', 'tssm', 'gnsbfgs')
WITH_HESS = ('fixed', 'fraction') + RES


def scheme(F, name, **kw):
    if name is None:
        return None
    H = F.hessian_approximation
    if name in ('fixed', 'fraction', 'fx') and 'happ' not in kw:
        kw['happ'] = H.BG()
    return getattr(H, SCHEMES[name])(**kw)


class Outcome:
    pass


def execute(c, F, n, K, upd=None, resfun=False, mode='n', opts=None,
            special='', x0=None, lb=None, ub=None, obj=None, stp=None,
            opt=None, hess0=None, tag='', verbose=50, start_id=None,
            strict=True, raises=(), install=True, warm='', **stepper):
    """one run; returns an Outcome with the trace; warm: see Warm, K counts
    the iterations that follow"""
    if warm:
        K = K + len(warm)
    o = Outcome()
    if isinstance(upd, str):
        name = upd
        upd = scheme(F, upd)
        resfun = name in RES
        needh = name in WITH_HESS
    else:
        needh = upd is None or bool(upd.requires_hess)
    if lb is None:
        lb, ub = bounds(c, F, n, mode, tag)
    if x0 is None:
        x0 = c.array([0.0] * n) if warm else start(c, n, lb, ub, tag, strict)
    o.lb, o.ub, o.x0 = lb, ub, x0
    o.obj = obj or Objective(c, F, n, tag, hess=needh, resfun=resfun,
                             special=special, warm=warm)
    o.stp = stp or Stepper(c, F, n, tag, warm=warm, **stepper)
    options = {'maxiter': K}
    options.update(opts or {})
    o.options = options
    if opt is None:
        opt = F.minimize.Optimizer(o.obj, ub=ub, lb=lb, verbose=verbose,
                                   options=options, hessian_update=upd,
                                   resfun=resfun or getattr(
                                       o.obj, 'resfun', False))
    else:
        opt.fevaler.fun = o.obj
    o.opt = opt
    o.upd = opt.hessian_update
    o.stp.opt = opt
    if install:
        patch_tr(c, F, o.stp)
    o.exc = None
    o.ret = None
    try:
        kw = {}
        if hess0 is not None:
            kw['hess0'] = hess0
        if start_id is not None:
            kw['start_id'] = start_id
        o.ret = opt.minimize(x0, **kw)
    except raises as e:
        o.exc = e
    o.evals = o.obj.calls
    o.steps = o.stp.calls
    o.final = snapshot(opt)
    # states[k]: before iteration k; last: at the end
    o.states = [s['opt'] for s in o.steps] + [o.final]
    return o


def all_finite(c, e):
    r = [c.isfinite(e['f'])]
    for v in e['g']:
        r.append(c.isfinite(v))
    if e['h'] is not None:
        for row in e['h']:
            for v in row:
                r.append(c.isfinite(v))
    return c.And(*r)


def near_vec(c, a, b, tol=NUDGE):
    return c.And(*[c.near(a[i], b[i], tol) for i in range(len(a))])


def same(c, st, f, x, g, near=True):
    """state st holds value f, point x (up to the nudge) and gradient g"""
    return c.And(c.eq(st['fval'], f),
                 near_vec(c, st['x'], x) if near else
                 c.vec_eq(st['x'], x), c.vec_eq(st['grad'], g))
