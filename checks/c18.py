"""C18: the best candidate step is selected."""
from .util import dot

BOUNDS = ('the real trust_region, stepback_reflect, stepback_truncate and the '
          'constructors of all step classes, n = 1..3 variables, every '
          'subspace dimension and strategy; the model value of each candidate '
          'is any real number or undefined and each candidate is cut by any '
          'fraction in (0, 1], meeting its bound in any single variable')
ASSUMPTIONS = ['real arithmetic', 'Step.calculate (C16, C17) is replaced by '
               'any outcome', 'a candidate without directions left to move '
               'in is not cut']
OUTSIDE = ['n > 3', 'infinite model values']
REACH = ['one', 'several', 'undefined', 'reflected', 'truncated', 'refined',
         'long chain']


def stub(c, F, made, quiet, same=None):
    """same: outcomes of an earlier call, by candidate"""
    S = F.steps
    same = {} if same is None else same

    def once(key, make):
        if key not in same:
            same[key] = make()
        return same[key]

    def calculate(self):
        k = len(made)
        n = len(self.sg)
        if getattr(self, 'subspace', None) is None:
            self.subspace = c.array([[1.0 if i == 0 else 0.5]
                                     for i in range(n)])
        m = self.subspace.shape[1]
        self.reduce_to_subspace()
        # any movement within the subspace
        free = [i for i in range(n)
                if any(float(v) != 0 for v in self.subspace[i])]
        self.sc = c.array([0.01 * (k + 1)] * m)
        ss = [0.01 * (k + 1 + i) if i in free else 0.0 for i in range(n)]
        self.ss = c.array(ss)
        self.s = self.scaling.dot(self.ss)
        self.og_s, self.og_ss, self.og_sc = (
            self.s.copy(), self.ss.copy(), self.sc.copy())
        self.br = c.array([2.0] * n)
        self.minbr, self.alpha = 2.0, 1.0
        self.iminbr = c.array([0] if n else [], kind='i')
        if free:
            a = once((k, 'a'), lambda: c.real(f'alpha{k}', pos=True,
                                               hi=1.0))
            if bool(a < 1):
                hit = free[once((k, 'hit'), lambda: c.choose(f'hit{k}',
                                                             len(free)))]
                self.alpha = a
                self.br[hit] = 0.5
                self.minbr = 0.5
                self.iminbr = c.array([hit], kind='i')
        if k in quiet:
            self.qpval = once((k, 'q'), lambda: c.real(f'q{k}'))
        else:
            self.qpval = once((k, 'q'), lambda: c.real(
                f'q{k}', special=('nan',)))
        made.append(self)
    for nm in dir(S):
        cls = getattr(S, nm)
        if isinstance(cls, type) and issubclass(cls, S.Step) and (
                'calculate' in vars(cls)):
            c.patch(cls, 'calculate', calculate)


def select(c, F, n, dim, strategy, nan=True, by='member'):
    SD, SB = F.constants.SubSpaceDim, F.constants.StepBackStrategy
    made = []
    stub(c, F, made, () if nan else range(99))
    x = c.array([0.0] * n)
    g = c.array([1.0, -2.0, 0.5][:n])
    hess = c.array([[2.0 + i if i == j else 0.25 for j in range(n)]
                    for i in range(n)])
    from .steplib import diag
    scaling = diag(c, F, [1.0, 2.0, 0.5][:n])
    dv = c.array([0.0, 1.0, 0.0][:n])
    lb, ub = c.array([-1.0] * n), c.array([2.0] * n)
    delta, theta = 0.75, 0.9
    import logging
    lg = logging.getLogger('fides.check')
    lg.propagate = False
    st = F.trust_region.trust_region(
        x, g, hess, scaling, delta, dv, theta, lb, ub,
        *[v.value if by == 'value' else v for v in
          (getattr(SD, dim), getattr(SB, strategy))], lg)
    S = F.steps
    want = {'TWO': S.TRStep2D, 'FULL': S.TRStepFull,
            'STEIHAUG': S.TRStepSteihaug}[dim]
    c.check(len(made) > 0 and type(made[0]) is want,
            'trust-region step of the selected subspace comes first')
    if not made:
        return
    tr = made[0]

    def of(cls):
        return [m for m in made if type(m) is cls]
    refl, trunc = of(S.TRStepReflected), of(S.TRStepTruncated)
    grad, ref = of(S.GradientStep), of(S.RefinedStep)
    cut = bool(tr.alpha < 1) and n > 1
    c.check(len(of(want)) == 1, 'one trust-region step')
    c.check(len(grad) == (1 if cut else 0),
            'the gradient step is a candidate exactly if the trust-region '
            'step is cut')
    # reflections
    nr = 0
    if cut and strategy == 'SINGLE_REFLECT':
        nr = 1
    elif cut and strategy in ('REFLECT', 'MIXED'):
        nr = n
        for k in range(1, n):
            if len(refl) >= k and not bool(refl[k - 1].alpha < 1):
                nr = k
                break
    c.check(len(refl) == nr, 'reflection continues until a step needs no '
            'cutting, up to the number of variables')
    # truncation
    c.check(cut and strategy in ('TRUNCATE', 'MIXED') or not trunc,
            'truncation belongs to its strategies')
    if cut and strategy in ('TRUNCATE', 'MIXED'):
        c.check(len(trunc) > 0, 'truncation is tried')
        for k, t in enumerate(trunc):
            last = k == len(trunc) - 1
            done = not bool(t.alpha < 1) or t.subspace.shape[1] == 0
            c.check(done == last, 'truncation continues until a step needs '
                    'no cutting')
    c.check(len(ref) == (1 if cut and strategy == 'REFINE' and
                         tr.subspace.shape[1] > 1 else 0),
            'refinement belongs to its strategy')
    c.check(len(made) == 1 + len(grad) + len(refl) + len(trunc) + len(ref),
            'no other candidates')
    # data and chaining
    for m in made:
        c.check_eq(m.sg, c.array([a * b for a, b in zip(
            [1.0, 2.0, 0.5], [1.0, -2.0, 0.5])][:n]),
            'candidates solve the same problem')
        sh = [[[1.0, 2.0, 0.5][i] * float(hess[i][j]) * [1.0, 2.0, 0.5][j] +
               (2.0 if i == j == 1 else 0.0) for j in range(n)]
              for i in range(n)]
        c.check_eq(m.shess, c.array(sh), 'candidates solve the same problem')
        c.check_eq(m.delta, delta, 'candidates solve the same problem')
        c.check_eq(m.theta, theta, 'candidates solve the same problem')
        c.check_eq(m.lb, lb, 'candidates solve the same problem')
        c.check_eq(m.ub, ub, 'candidates solve the same problem')
    for chain, f in ((refl, None), (trunc, theta)):
        for k, m in enumerate(chain):
            pre = chain[k - 1] if k else tr
            hit = int(pre.iminbr[0])
            for i in range(n):
                if f is None:
                    v = min(pre.minbr, 1.0) * pre.og_ss[i]
                else:
                    v = theta * pre.minbr * pre.og_ss[i] if i == hit else 0.0
                c.check_eq(m.ss0[i], pre.ss0[i] + v,
                           'each candidate continues the previous one')
    # counts
    for m in made:
        hits = set()
        for chain in (refl, trunc):
            if m in chain:
                hits = {int(p.iminbr[0])
                        for p in [tr] + chain[:chain.index(m)]}
        c.check(m.reflection_count == (len(hits) if m in refl else 0),
                'number of reflections is reported')
        c.check(m.truncation_count == (len(hits) if m in trunc else 0),
                'number of truncations is reported')
    # selection
    c.check(any(st is m for m in made), 'the proposed step is a candidate')
    q = st.qpval
    for m in made:
        c.check(c.Or(c.isnan(m.qpval), c.And(c.Not(c.isnan(q)), c.le(
            q, m.qpval)) if not c.isnan(q) else False),
            'the proposed step has the smallest model value')
        if c.isnan(m.qpval):
            c.reach('undefined')
    c.reach('several' if len(made) > 1 else 'one')
    for nm, l in (('reflected', refl), ('truncated', trunc),
                  ('refined', ref)):
        if l:
            c.reach(nm)
    if len(refl) == 3 or len(trunc) == 3:
        c.reach('long chain')


def tasks(tier):
    deep = tier == 'thorough'
    T = []
    for n in (1, 2, 3):
        for dim in ('FULL', 'TWO', 'STEIHAUG'):
            for s in ('SINGLE_REFLECT', 'REFLECT', 'TRUNCATE', 'MIXED',
                      'REFINE'):
                nan = True
                if not deep:
                    if n == 3 and s == 'MIXED':
                        continue
                    if n > 1 and dim != 'FULL' and s in ('MIXED', 'REFLECT'):
                        continue
                    nan = n < 3 and s != 'MIXED'
                T.append(dict(name=f'{n}-{dim}-{s}', harness='select',
                              params=dict(n=n, dim=dim, strategy=s,
                                          nan=nan), lazy=False))
    return T
