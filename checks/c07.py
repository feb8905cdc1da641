"""C07: iteration, time and radius budgets are respected."""
from . import orch

BOUNDS = ('runs of up to 3 iterations of the real minimize loop with symbolic '
          'maxiter in 0..3, symbolic maxtime, an arbitrary monotone clock and '
          'an arbitrary radius, n = 1; once with the iteration counter set to '
          'an arbitrary N >= 1 before the second iteration, which covers runs '
          'of any length')
ASSUMPTIONS = ['the clock is monotone and time passes in the objective '
               '(between evaluations), not inside the bookkeeping',
               'trial steps stay inside the box (decided by C16)']
OUTSIDE = ['time spent outside the objective']
REACH = ['MAXITER', 'MAXTIME', 'DELTA_TOO_SMALL', 'converged', 'continued',
         'havoc', 'zero']
SPACING = 2.220446049250313e-16


def run(c, F, K, maxit, timed, radius, havoc, upd, conv, warm=''):
    E = F.constants.ExitFlag
    opts = dict(fatol=0.0, frtol=0.0, gatol=0.0 if conv else -1.0, grtol=0.0,
                xtol=-1.0)
    K += len(warm)
    M = K
    if maxit:
        M = c.integer('maxiter', 0, K)
    opts['maxiter'] = M
    inf = float('inf')
    mt = inf
    if timed:
        mt = c.real('maxtime')
        opts['maxtime'] = mt
    if radius:
        opts['delta_init'] = c.real('delta', nonneg=True)
    T = [0.0]
    t = 0.0
    if timed:
        t = c.real('t0')
        T = [t]
        for j in range(K + 2):
            t = t + c.real(f'dt{j}', nonneg=True)
            T.append(t)
    obj = orch.Objective(c, F, 1, hess=upd is None, warm=warm)
    if havoc:
        # budgets do not depend on the values: keep those paths few
        obj.hooks.append(lambda i: i >= 2 and c.assume(
            obj.calls[1]['f'] < obj.calls[0]['f']))
    orch.set_clock(c, F, lambda: T[min(len(obj.calls), len(T) - 1)])
    N = None
    if havoc:
        N = c.integer('N', 1)

    class Steps(orch.Stepper):
        def __call__(self, *a, **k):
            r = orch.Stepper.__call__(self, *a, **k)
            if havoc and len(self.calls) == 1:
                # any later iteration of a longer run
                self.opt.iteration = N
            return r
    o = orch.execute(c, F, 1, None, upd=upd, obj=obj,
                     stp=Steps(c, F, 1, warm=warm), opts=opts, raises=(RuntimeError,))
    if o.exc is not None:
        return
    m = len(o.steps)
    flag = o.final['exitflag']
    if m == 0:
        c.reach('zero')

    def stops(j, st):
        """stopping conditions after j iterations"""
        it = j if not havoc or j == 0 else N + (j - 1)
        el = T[min(j + 1, len(T) - 1)] - T[0]
        r = {E.MAXITER: it >= M if havoc or maxit else j >= M}
        left = mt - el if timed else None
        avg = el / (it if havoc and j else max(j, 1)) if timed else None
        r[E.MAXTIME] = left < avg if timed else False
        r[E.DELTA_TOO_SMALL] = st['delta'] < SPACING
        return r
    for j in range(m):
        c.reach('continued')
        for f, cond in stops(j, o.states[j]).items():
            c.check(c.Not(cond), f'no iteration is started past {f.name}')
        c.check(not o.states[j]['converged'], 'no iteration after '
                'convergence')
    if havoc and m > 1:
        c.reach('havoc')
    end = stops(m, o.final)
    if flag in end:
        c.reach(flag.name)
        c.check(end[flag], f'{flag.name} is truthful')
        c.check(not o.final['converged'], 'negative flag only without '
                'convergence')
    else:
        c.reach('converged')
        c.check(bool(o.final['converged']), 'the run stops only for a '
                'documented reason')
        c.check(flag in (E.FTOL, E.XTOL, E.GTOL), 'the run stops only for a '
                'documented reason')
    c.check(len(o.evals) == m + 1, 'one evaluation per iteration plus one')
    if not havoc:
        c.check_le(m, M, 'at most maxiter iterations')
        c.check_eq(o.final['iteration'], m, 'iteration counter')
    c.observe('m', m)
    c.observe('flag', float(flag.value))


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(K=2, maxit=False, timed=False, radius=False,
                      havoc=False, upd=None, conv=False), **p)
        T.append(dict(name='-'.join(str(v) for v in p.values()),
                      harness='run', params=p, lazy=True))
    add(maxit=True, conv=True)
    add(K=1, timed=True)
    add(timed=True)
    add(radius=True)
    add(K=1, radius=True, timed=True, maxit=True)
    add(timed=True, havoc=True)
    add(maxit=True, havoc=True, K=2)
    for i, w in enumerate(orch.WARM):
        add(K=1, maxit=True, warm=w)
        if i % 3 == 0:
            add(K=1, timed=True, warm=w)
    if deep:
        add(timed=True, upd='bfgs')
        add(K=3, maxit=True)
        add(K=3, timed=True)
        add(K=2, radius=True, timed=True, maxit=True, conv=True)
    return T
