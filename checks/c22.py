"""C22: recorded history mirrors the run."""
import os

from . import orch

BOUNDS = ('runs of up to 2 iterations (thorough: 3) of the real minimize loop '
          'with a history file, maxiter 0..2, arbitrary objective values '
          '(including non-finite trials), steps, step types, numbers of '
          'reflections and truncations, radii; one or two runs of the same or '
          'of two optimizers into a file that already holds a group; n = 1 '
          '(2 for the norms)')
ASSUMPTIONS = ['h5py stores and returns what it is given (replays use the '
               'real h5py)', 'eigenvalues and condition numbers are arbitrary '
               'numbers', 'trial steps stay inside the box (C16)']
OUTSIDE = ['n > 2', 'values of the spectral statistics', 'runs that end in '
           'an exception', 'run ids that are not plain names']
REACH = ['accepted', 'rejected', 'nonfinite', 'two-runs', 'auto-id',
         'no-iteration', 'reflections', 'truncations']

KEYS = ('fval', 'tr_ratio', 'tr_radius', 'normstep', 'accept', 'reflections',
        'truncations')


def path(c, F):
    if c.symbolic:
        return 'history.h5'
    k = 0
    while os.path.exists(f'history{k}.h5'):
        k += 1
    return f'history{k}.h5'


def prepare(c, F, name):
    """a file with an older group"""
    if c.symbolic:
        F.env.h5[name] = {'older': {'fval': [1.5, 2.5]}}
    else:
        import h5py
        with h5py.File(name, 'w') as f:
            f.create_group('older').create_dataset('fval', data=[1.5, 2.5])


def content(c, F, name):
    if c.symbolic:
        return {g: dict(d) for g, d in F.env.h5.get(name, {}).items()}
    if not os.path.exists(name):
        return {}
    import h5py
    with h5py.File(name, 'r') as f:
        return {g: {k: list(v[()]) for k, v in f[g].items()} for g in f}


def nums(c, F, n):
    """arbitrary spectral data"""
    if not c.symbolic:
        return

    def vals(M, *a, **k):
        i = c.counter('spectrum')
        return c.vec(f'ev{i}_', len(M))

    def cond(M, *a, **k):
        return c.real(f'cond{c.counter("cond")}')
    F.env.eigvals = F.env.eigvalsh = vals
    F.env.cond = cond


def same(c, a, b, label):
    c.check(c.eq(a, b, None), label)


def compare(c, o, g):
    m = len(o.steps)
    for k in g:
        c.check(len(g[k]) == m, 'one entry per iteration')
    if m == 0:
        c.reach('no-iteration')
        return
    for k in KEYS:
        c.check(k in g, 'quantity is recorded')
    if any(k not in g or len(g[k]) != m for k in KEYS):
        return
    for k in range(m):
        st, old, nxt = o.steps[k], o.states[k], o.states[k + 1]
        new, step = o.evals[k + 1], st['step']
        same(c, g['fval'][k], new['f'], 'trial value')
        if not bool(c.isfinite(new['f'])):
            c.reach('nonfinite')
        same(c, g['tr_ratio'][k], nxt['tr_ratio'], 'ratio')
        same(c, g['tr_radius'][k], st['delta'], 'radius used for the '
             'iteration')
        same(c, g['normstep'][k], c.norm(step.s + step.s0), 'step norm')
        d = st['data']
        c.check(int(g['reflections'][k]) == d['nrefl'],
                'number of reflections')
        c.check(int(g['truncations'][k]) == d['ntrunc'],
                'number of truncations')
        if d['nrefl']:
            c.reach('reflections')
        if d['ntrunc']:
            c.reach('truncations')
        # accepted values strictly decrease (C04)
        acc = not bool(c.eq(nxt['fval'], old['fval']))
        c.reach('accepted' if acc else 'rejected')
        c.check(bool(g['accept'][k]) == acc, 'accept flag')
    c.observe('fvals', o.final['fval'])


def run(c, F, n, K, upd, mode, special, runs, offset, qp, again,
        warm):
    """runs: names of the run ids (None: chosen by the optimizer)"""
    name = path(c, F)
    prepare(c, F, name)
    nums(c, F, n)
    opts = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0,
                history_file=name, delta_init=1.0 if warm else c.real('delta', pos=True))
    if again:
        opts['maxtime'] = float('inf')
    before = content(c, F, name)
    opt = None
    for r, rid in enumerate(runs):
        o = orch.execute(c, F, n, K if r == 0 else 1, upd=upd, mode=mode,
                         special=special, opts=opts, tag=f'r{r}', qp=qp,
                         offset=offset, counts=True, opt=opt if again
                         else None, start_id=rid, raises=(RuntimeError,),
                         warm=warm if r == 0 else '',
                         lb=None if opt is None else opt_lb,
                         ub=None if opt is None else opt_ub)
        if o.exc is not None:
            return
        opt, opt_lb, opt_ub = o.opt, o.lb, o.ub
        after = content(c, F, name)
        for k, v in before.items():
            c.check(k in after and sorted(after[k]) == sorted(v) and all(
                len(after[k][q]) == len(v[q]) and all(
                    bool(c.eq(x, y)) if not isinstance(x, (str, bytes))
                    else x == y for x, y in zip(after[k][q], v[q]))
                for q in v), 'existing groups are left untouched')
        added = [k for k in after if k not in before]
        c.check(len(added) == 1, 'exactly one group per run')
        if len(added) != 1:
            return
        if rid is not None:
            c.check(added[0] == rid, 'group is named by the run id')
        else:
            c.reach('auto-id')
            c.check(added[0] == o.opt.start_id, 'group is named by the run '
                    'id')
        if r:
            c.reach('two-runs')
        compare(c, o, after[added[0]])
        before = after


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(**p):
        p = dict(dict(n=1, K=1, upd=None, mode='n', special='', runs=['a'],
                      offset=False, qp='real', again=True, warm=''), **p)
        nm = '-'.join('+'.join(map(str, v)) if isinstance(v, list)
                      else str(v) for v in p.values())
        T.append(dict(name=nm, harness='run', params=p, lazy=True))
    add(special='f', qp='special')
    add(K=0)
    add(K=0, runs=[None])
    add(K=2, offset=True, qp='neg')
    add(mode='b', runs=[None])
    add(n=2, offset=True, qp='neg')
    add(runs=['a', 'b'], qp='neg')
    add(runs=['a', None], again=False, qp='neg')
    for u in orch.SCHEMES:
        add(upd=u, qp='neg')
    for w in orch.WARM[4:] + orch.LONG:
        add(warm=w, qp='neg', runs=[None])
    if deep:
        add(K=3, qp='neg')
        add(K=2, special='f')
        add(K=2, upd='tssm', qp='neg')
        add(K=2, upd='bfgs', qp='neg', runs=['a', 'b'])
        add(n=2, mode='bn')
    return T
