"""C16: proposed steps stay in the box and in the trust region."""
from .steplib import (built, first, refined, stepback, steihaug,  # noqa: F401
                      successor, two_d)

BOUNDS = ('the real step classes: steps from the current point (full '
          'subproblem, gradient) n = 1, 2, Newton/2D subspaces n = 1..3, '
          'conjugate gradients n = 1, 2, refined n = 2, cutting of an '
          'arbitrary step n = 1..3; reflected and truncated steps from an '
          'arbitrary earlier step meeting the contract proved here, hence '
          'chains of any length, n = 1..3; any point inside the box, '
          'distances to one- and two-sided and absent bounds, scaling, radius '
          'and theta in (0, 1]')
ASSUMPTIONS = [
    'real arithmetic',
    'the subproblem solvers return any point of the ball they are given '
    '(C14, C15), least squares any vector, the eigensolver any orthonormal '
    'vectors',
    'the interior-point minimiser returns a point that satisfies the '
    'constraints it is given',
    'reflected and truncated steps are built by the class constructor and '
    'computed by calculate(); the attributes s0, ss0, x and subspace carry '
    'the state in between']
OUTSIDE = ['rounding', 'n > 3',
           'feasibility of what scipy\'s trust-constr returns',
           'the direction of the negative-curvature subspace for n = 3']
REACH = ['full', 'grad', 'cut', 'uncut', 'reflect', 'truncate', 'refine',
         '2d', 'cg', 'cut direct']


def scenarios(deep):
    yield from (('first', dict(n=n, mode=m, kind=k))
                for n, modes in ((1, ('n', 'b', 'l', 'u')),
                                 (2, ('b', 'bn', 'lu')))
                for m in modes for k in ('full', 'grad'))
    for h in ('built', 'successor'):
        for n, m in ((1, 'b'), (2, 'b')) + \
                (((3, 'bnn'), (3, 'b')) if deep else ()):
            yield h, dict(n=n, mode=m, kind='reflect')
        for n, cols, fixed in ((1, 1, 0), (2, 1, 0), (2, 2, 0), (2, 1, 1),
                               (3, 2, 1)):
            yield h, dict(n=n, mode='b', kind='truncate', cols=cols,
                          fixed=fixed)
        for n, cols, fixed, m in ((3, 3, 0, 'b'), (3, 2, 0, 'b')) if deep \
                else ((3, 3, 0, 'nbn'), (3, 2, 0, 'unn')):
            yield h, dict(n=n, mode=m, kind='truncate', cols=cols,
                          fixed=fixed)
    yield 'refined', dict(n=2, mode='b')
    for n, m in ((1, 'b'), (2, 'b'), (3, 'bnb')) + \
            (((3, 'b'),) if deep else ()):
        yield 'stepback', dict(n=n, mode=m)
    for n in (1, 2, 3):
        for pd in (True, False):
            if n < 3 or pd or deep:
                yield 'two_d', dict(n=n, mode='n', posdef=pd)
    for n, m, t in ((1, 'b', False), (2, 'nu', False)) + \
            (((2, 'b', False), (2, 'nu', True)) if deep else ()):
        yield 'steihaug', dict(n=n, mode=m, turn=t)


def tasks(tier):
    T = []
    for h, p in scenarios(tier == 'thorough'):
        name = h + '-' + '-'.join(str(v) for v in p.values())
        if h != 'stepback':
            p = dict(p, what='geom')
        T.append(dict(name=name, harness=h, params=p, lazy=False))
    return T
