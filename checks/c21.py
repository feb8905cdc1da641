"""C21: options are validated at construction and honoured."""
from . import orch
from .c09 import same_val
from .c18 import select
from .c23 import traces

BOUNDS = ('option dictionaries with one or two entries; every key: a member, '
          'any string at all (symbolic), or something that is no string; '
          'every value of a numeric option: any real (symbolic), integers, '
          'booleans, numpy numbers, NaN and infinity, None, strings, lists, '
          'complex numbers, arrays; every value of a choice option: a member, '
          'any string at all, or something that is no string; lookup of all '
          'options for arbitrary given values; one iteration of the real loop '
          'for every way of giving the options, and for the defaults')
ASSUMPTIONS = ['a symbolic string equals one of the short string constants '
               'and member names in the package, or is different from all of '
               'them', 'trial steps stay inside the box (C16)']
OUTSIDE = ['types of the history file name', 'more than two entries (each is '
           'validated on its own)']
REACH = ['accepted', 'refused', 'other-key', 'other-choice', 'integer-valued',
         'fractional', 'second', 'defaults', 'enum-keys', 'incompatible']

NUM = {'maxiter': 1e3, 'maxtime': float('inf'), 'fatol': 1e-8,
       'frtol': 1e-8, 'xtol': 0, 'gatol': 1e-6, 'grtol': 0,
       'theta_max': 0.95, 'delta_init': 1.0, 'mu': 0.25, 'eta': 0.75,
       'gamma1': 0.25, 'gamma2': 2}
SOLVER = {'TWO': '2D', 'FULL': 'full', 'STEIHAUG': 'scg'}
STRATEGY = {'SINGLE_REFLECT': 'reflect_single', 'REFLECT': 'reflect',
            'TRUNCATE': 'truncate', 'MIXED': 'mixed', 'REFINE': 'refine'}
CHOICE = {'subspace_solver': (SOLVER, '2D'),
          'stepback_strategy': (STRATEGY, 'reflect')}
DEFAULTS = dict(NUM, subspace_solver='2D', stepback_strategy='reflect')
MEMBER = {'subspace_solver': 'SUBSPACE_DIM',
          'stepback_strategy': 'STEPBACK_STRAT'}
BAD = ('None', 'string', 'list', 'complex', 'array', 'dict')
KINDS = ('real', 'nan', 'inf', 'int', 'bool', 'np64', 'np32', 'npint') + BAD


def member(F, name):
    return getattr(F.constants.Options, MEMBER.get(name, name.upper()))


def value(c, F, kind, tag):
    import numpy as np
    return {'real': lambda: c.real('v' + tag),
            'nan': lambda: float('nan'), 'inf': lambda: float('inf'),
            'int': lambda: 3, 'bool': lambda: True,
            'np64': lambda: np.float64(2.5), 'np32': lambda: np.float32(4.0),
            'npint': lambda: np.int64(7), 'None': lambda: None,
            'string': lambda: '1', 'list': lambda: [1.0],
            'complex': lambda: 1 + 2j, 'dict': lambda: {},
            'array': lambda: c.array([1.0])}[kind]()


def number_ok(c, name, kind, v):
    if kind in BAD:
        return False
    if name != 'maxiter':
        return True
    if kind in ('nan', 'inf'):
        return False
    if kind == 'real':
        from math import floor
        if c.symbolic:
            r = bool(v == v // 1)
        else:
            r = floor(v) == v
        c.reach('integer-valued' if r else 'fractional')
        return r
    return kind != 'np64'


def build(c, F, opts):
    """the optimizer, or the refusal"""
    inf = float('inf')
    try:
        return F.minimize.Optimizer(
            lambda x: None, ub=c.array([inf]), lb=c.array([-inf]),
            verbose=50, options=opts), None
    except (ValueError, TypeError) as e:
        return None, e


def which(c, key):
    """name of the documented option the key denotes"""
    for n in list(DEFAULTS) + ['history_file']:
        if bool(key == n):
            return n
    return None


def entry(c, F, tag, key, kind):
    """(key, value, accepted, name); key: name | any | member:.. | odd.."""
    if key == 'any':
        k = c.string('key' + tag)
    elif key.startswith('member:'):
        k = member(F, key[7:])
    elif key.startswith('odd:'):
        k = {'int': 3, 'none': None, 'tuple': ('mu',), 'bytes': b'mu',
             'float': 0.5}[key[4:]]
        return k, 1, False, None
    else:
        k = key
    name = which(c, k)
    if name in CHOICE:
        table = CHOICE[name][0]
        if kind == 'any':
            v = c.string('choice' + tag)
            ok = False
            for w in table.values():
                if bool(v == w):
                    ok = True
                    break
            if not ok:
                c.reach('other-choice')
        elif kind.startswith('member:'):
            cls = {'subspace_solver': F.constants.SubSpaceDim,
                   'stepback_strategy': F.constants.StepBackStrategy}[name]
            v, ok = getattr(cls, kind[7:]), True
        elif kind in KINDS:
            v, ok = value(c, F, kind, tag), False
        else:
            v, ok = kind, kind in table.values()
    else:
        if kind == 'any' or kind not in KINDS:
            kind = 'string' if kind != 'any' else 'real'
        v = value(c, F, kind, tag)
        ok = name is not None and name != 'history_file' and \
            number_ok(c, name, kind, v)
        if name == 'history_file':
            v, ok = 'history.h5', True
        if name is None:
            c.reach('other-key')
    return k, v, ok, name


def given(c, a, b):
    """a is the value b that was given"""
    if a is b:
        return True
    if isinstance(b, (str, type(None))) or hasattr(b, 'ops') or \
            isinstance(a, (str, type(None))):
        return bool(a == b)
    return same_val(c, a, b)


def validate(c, F, first, second=None):
    es = [entry(c, F, '0', *first)]
    if second:
        es.append(entry(c, F, '1', *second))
        if es[0][3] is not None and es[0][3] == es[1][3]:
            return
        c.reach('second')
    opts = {}
    for k, v, ok, name in es:
        opts[k] = v
    good = all(e[2] for e in es)
    vals = {e[3]: e[1] for e in es}
    if good and bool(vals.get('subspace_solver', '2D') == 'scg') and \
            bool(vals.get('stepback_strategy', 'reflect') == 'refine'):
        good = False
        c.reach('incompatible')
    opt, err = build(c, F, opts)
    if not good:
        c.reach('refused')
        c.check(err is not None, 'undocumented options are refused')
        return
    c.reach('accepted')
    c.check(err is None, 'documented options are accepted')
    if opt is None:
        return
    for n in DEFAULTS:
        got = opt.get_option(member(F, n))
        if n in vals:
            c.check(given(c, got, vals[n]), 'a given option has its given '
                    'value')
        else:
            c.check(given(c, got, DEFAULTS[n]),
                    'an option that is not given has its documented default')
    if 'history_file' not in vals:
        c.check(opt.get_option(member(F, 'history_file')) is None,
                'an option that is not given has its documented default')


def loop(c, F, how, mode, K):
    """the same run, however the options are given"""
    n = 1
    lb, ub = orch.bounds(c, F, n, mode)
    x0 = orch.start(c, n, lb, ub, '', True)
    obj = orch.Objective(c, F, n)
    stp = orch.Stepper(c, F, n, qp='neg')
    inf = float('inf')

    def go(opts, tag, **kw):
        opt = F.minimize.Optimizer(None, ub=ub, lb=lb, verbose=50,
                                   options=opts)
        return orch.execute(c, F, n, K, lb=lb, ub=ub, x0=x0, opt=opt,
                            raises=(RuntimeError,), **kw)
    v = {'maxiter': K}
    if how == 'defaults':
        c.reach('defaults')
        a = go(dict(v), '', obj=obj, stp=stp)
        full = {k: w for k, w in DEFAULTS.items() if k != 'maxiter'}
        b = dict(full, **v)
    else:
        c.reach('enum-keys')
        for k in ('fatol', 'gatol', 'delta_init', 'gamma2'):
            v[k] = c.real(k, nonneg=True)
        c.assume(v['gamma2'] > 1)
        c.assume(v['delta_init'] > 0)
        v['subspace_solver'] = list(SOLVER.values())[c.choose('sd', 3)]
        v['stepback_strategy'] = list(STRATEGY.values())[c.choose('sb', 4)]
        a = go({member(F, k): (
            {'subspace_solver': F.constants.SubSpaceDim,
             'stepback_strategy': F.constants.StepBackStrategy}[k](w)
            if k in CHOICE else w) for k, w in v.items()}, '', obj=obj,
            stp=stp)
        b = dict(v)
    b = go(b, 'b', obj=orch.Objective(c, F, n, 'b', share=obj),
           stp=orch.Stepper(c, F, n, 'b', share=stp))
    traces(c, a, b, 'options')
    for p, q in zip(a.steps, b.steps):
        for k, w in (('subspace_dim', 'subspace_solver'),
                     ('stepback_strategy', 'stepback_strategy')):
            want = v.get(w, DEFAULTS[w])
            c.check(p.get(k) == want and q.get(k) == want,
                    'the choice is passed to the step')
    c.check(c.eq(a.steps[0]['delta'], v.get('delta_init', 1.0))
            if a.steps else True, 'initial radius')


def maxiter_default(c, F):
    """a thousand iterations unless told otherwise"""
    inf = float('inf')
    N = c.integer('N', lo=0, hi=None)
    c.assume(N <= 5000)

    class Stop(Exception):
        pass
    obj = orch.Objective(c, F, 1)
    opt = F.minimize.Optimizer(obj, ub=c.array([inf]), lb=c.array([-inf]),
                               verbose=50, options=None)
    seen = []

    def hook(i):
        if i == 0:
            opt.iteration = N
        if i == 1:
            seen.append(True)
            raise Stop
    obj.hooks.append(hook)
    orch.execute(c, F, 1, 0, opt=opt, obj=obj, qp='neg',
                 x0=c.array([0.5]), lb=c.array([-inf]), ub=c.array([inf]),
                 raises=(Stop, RuntimeError))
    c.check(bool(N < 1000) == bool(seen), 'a run has a thousand iterations '
            'by default')


def strings(c, F, dim, strategy):
    """choices given by name select the same step computations"""
    select(c, F, 2, dim, strategy, nan=False, by='value')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, name, **p):
        T.append(dict(name=name, harness=h, params=p, lazy=h != 'strings'))
    for k in KINDS:
        add('validate', f'any-{k}', first=['any', k])
        for n in ('maxiter', 'mu') if not deep else NUM:
            add('validate', f'member-{n}-{k}', first=['member:' + n, k])
    for n in NUM:
        add('validate', f'name-{n}', first=[n, 'real'])
        add('validate', f'member-{n}', first=['member:' + n, 'real'])
    add('validate', 'any-any', first=['any', 'any'])
    for n, (table, d) in CHOICE.items():
        for pre in ('', 'member:'):
            add('validate', f'{pre}{n}-any', first=[pre + n, 'any'])
            for m in table:
                add('validate', f'{pre}{n}-{m}', first=[pre + n,
                                                        'member:' + m])
            for k in ('real', 'None', 'int', 'list'):
                add('validate', f'{pre}{n}-{k}', first=[pre + n, k])
    for o in ('int', 'none', 'tuple', 'bytes', 'float'):
        add('validate', f'odd-{o}', first=['odd:' + o, 'int'])
    # two entries
    for a in (['maxiter', 'np32'], ['mu', 'real'],
              ['subspace_solver', 'scg'], ['member:maxiter', 'int'],
              ['history_file', 'string']):
        add('validate', '+'.join(a) + '+any', first=a, second=['any', 'any'])
        add('validate', '+'.join(a) + '+any-None', first=a,
            second=['any', 'None'])
        add('validate', 'any+' + '+'.join(a), first=['any', 'real'],
            second=a)
        add('validate', '+'.join(a) + '+odd', first=a,
            second=['odd:int', 'int'])
    for h in ('defaults', 'keys'):
        add('loop', f'loop-{h}', how=h, mode='n', K=1)
    add('loop', 'loop-defaults-b', how='defaults', mode='b', K=1)
    add('maxiter_default', 'maxiter-default')
    if deep:
        add('loop', 'loop-defaults-2', how='defaults', mode='n', K=2)
    for d in SOLVER:
        for s in STRATEGY:
            if s in ('MIXED',) and not deep or (d, s) == ('STEIHAUG',
                                                          'REFINE'):
                continue
            add('strings', f'strings-{d}-{s}', dim=d, strategy=s)
    return T
