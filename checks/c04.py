"""C04: steps are accepted only on predicted and actual descent."""
from . import orch
from .util import dot

BOUNDS = ('one and two iterations of the real minimize loop from an arbitrary '
          'state (point, value, gradient, Hessian, radius), n = 1 and 2, '
          'arbitrary trial value (finite, NaN, +-inf), arbitrary step and '
          'model value (finite, NaN, +-inf), bounded and unbounded variables; '
          'acceptance depends on the current iteration only; once more with '
          'values and model value as IEEE doubles')
ASSUMPTIONS = ['trial steps stay inside the box (decided by C16)',
               'the scaled gradient term of bounded variables is not pinned: '
               'with bound contributions only necessity of descent is '
               'required']
OUTSIDE = ['n > 2', 'overflow or underflow of the quotient']
REACH = ['accepted', 'rejected', 'nonfinite', 'nan-model', 'no-predicted',
         'exact']


def step_rule(c, F, o, k, n, exact):
    st, old, nxt = o.steps[k], o.states[k], o.states[k + 1]
    new = o.evals[k + 1]
    qp = st['step'].qpval
    f0, f1 = old['fval'], new['f']
    fin = bool(c.isfinite(f1))
    keep = c.And(c.eq(nxt['fval'], f0), c.vec_eq(nxt['x'], old['x']),
                 c.vec_eq(nxt['grad'], old['grad']),
                 c.vec_eq(nxt['hess'], old['hess']))
    moved = c.And(c.eq(nxt['fval'], f1), orch.near_vec(c, nxt['x'], new['x']),
                  c.vec_eq(nxt['grad'], new['g']))
    if not fin:
        c.reach('nonfinite')
        c.check(keep, 'a non-finite trial is never accepted')
        return
    descent = c.And(f1 < f0, qp < 0)
    c.check(c.Or(keep, c.And(moved, descent)),
            'accepted steps decrease the objective and the model')
    if isinstance(qp, float) and qp != qp or bool(c.isnan(qp)):
        c.reach('nan-model')
        c.check(keep, 'no acceptance without a model value')
        return
    if keep is True:
        c.reach('rejected')
    if moved is True:
        c.reach('accepted')
    if not exact or not bool(c.isfinite(qp)):
        return
    c.reach('exact')
    if bool(qp < 0):
        if bool(f1 < f0):
            c.check(moved, 'actual and predicted decrease: accepted')
        else:
            c.check(keep, 'no actual decrease: rejected')
        r = nxt['tr_ratio']
        c.check_eq(r * (-qp), f0 - f1, 'recorded ratio is the quotient '
                   'of actual and predicted decrease')
        c.observe('ratio', r)
    else:
        c.reach('no-predicted')
        c.check(keep, 'no predicted decrease: rejected')


def run(c, F, n, K, mode, upd, special, qp, offset, warm=''):
    o = orch.execute(c, F, n, K, upd=upd, mode=mode, special=special, qp=qp,
                     offset=offset,
                     opts=dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0,
                               xtol=-1.0,
                               delta_init=1.0 if warm else
                               c.real('delta', pos=True)), warm=warm,
                     raises=(RuntimeError,))
    if o.exc is not None:
        return
    for k in range(len(o.steps)):
        step_rule(c, F, o, k, n, exact=set(mode) == {'n'})


class Doubles(orch.Objective):
    def out(self, i):
        c = self.c
        return (c.double(f'f{i}'), c.array([1.0]), c.array([[1.0]]))


def fp(c, F):
    """values and model value as IEEE doubles, no bounds"""
    class Steps(orch.Stepper):
        def make(self, k, a):
            one = c.array([0.5])
            qp = [-1.0, 0.0, 2.0][c.choose('qp', 3)]
            return dict(s=one, s0=one * 0.0, ss=one, ss0=one * 0.0, qpval=qp)
    obj = Doubles(c, F, 1)
    opts = dict(fatol=0.0, frtol=0.0, gatol=-1.0, grtol=0.0, xtol=-1.0,
                mu=0.0)
    o = orch.execute(c, F, 1, 1, obj=obj, stp=Steps(c, F, 1, box=False),
                     opts=opts, x0=c.array([0.0]), raises=(RuntimeError,))
    if o.exc is not None:
        return
    f0, f1 = o.evals[0]['f'], o.evals[1]['f']
    qp = o.steps[0]['step'].qpval
    x = o.final['x'][0]
    if not bool(x == 0.0):
        c.reach('accepted')
        c.check(f1 < f0, 'accepted steps decrease the objective and the '
                'model')
        c.check(bool(qp < 0.0), 'accepted steps decrease the objective and the '
                'model')
        c.check(c.isfinite(f1), 'a non-finite trial is never accepted')


def tasks(tier):
    deep = tier == 'thorough'
    T = []

    def add(h, **p):
        T.append(dict(name=h + '-' + '-'.join(str(v) for v in p.values()),
                      harness=h, params=p, lazy=True))
    add('fp')
    add('run', n=1, K=1, mode='n', upd=None, special='f', qp='special',
        offset=True)
    add('run', n=1, K=2, mode='n', upd=None, special='', qp='real',
        offset=False)
    add('run', n=1, K=1, mode='b', upd=None, special='f', qp='special',
        offset=True)
    add('run', n=2, K=1, mode='nn', upd=None, special='', qp='real',
        offset=False)
    add('run', n=2, K=1, mode='bn', upd=None, special='', qp='real',
        offset=False)
    add('run', n=1, K=1, mode='n', upd='bfgs', special='f', qp='real',
        offset=True)
    add('run', n=1, K=1, mode='n', upd='fx', special='', qp='real',
        offset=False)
    add('run', n=1, K=1, mode='l', upd='sr1', special='', qp='real',
        offset=False)
    for i, w in enumerate(orch.WARM):
        add('run', n=1 + i % 2, K=1, mode='n', upd=(None, None, 'fixed')[i % 3],
            special='f', qp='real', offset=False, warm=w)
    if deep:
        add('run', n=2, K=1, mode='bb', upd=None, special='f', qp='special',
            offset=True)
        add('run', n=1, K=3, mode='n', upd=None, special='', qp='real',
            offset=False)
    return T
