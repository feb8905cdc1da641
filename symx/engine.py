"""Path-exploring symbolic executor: symbolic reals, booleans and IEEE doubles.

The real Python code of fides is executed on these values.  Every Python-level
decision on a symbolic condition (``bool(cond)``) is a branch decided by the
SMT solver: infeasible sides are pruned, feasible ones are explored by
re-execution.  Reals are exact rational functions (poly.py) extended by
algebraic square-root variables; NaN and infinities are ordinary Python floats
that a symbolic input may turn out to be (class variables decided lazily).
"""
import math
import re
import os
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly as P


class Unsupported(Exception):
    """the encoding cannot represent an operation"""


class PathAbort(BaseException):
    """the current path is infeasible or cut"""


class BoundReached(BaseException):
    """a stated bound was reached (path cut outside the claim)"""


class Budget(BaseException):
    """out of time"""


# --------------------------------------------------------------------------
# session: variables, definitions, solver


class VarInfo:
    __slots__ = ('name', 'z', 'kind', 'defn', 'deps', 'sq', 'sign', 'isint',
                 'opaque')

    def __init__(self, name, z, kind):
        self.name = name
        self.isint = self.opaque = False
        self.z = z
        self.kind = kind      # 'in' (input), 'aux', 'sqrt'
        self.defn = []        # z3 constraints that define / restrict it
        self.deps = set()     # variables occurring in defn
        self.sq = None        # poly its square rewrites to
        self.sign = None      # '+' (>0), '0+' (>=0) or None


class Session:
    def __init__(self, feas_ms=1500, obl_ms=20000):
        self.vars = []
        self.by_name = {}
        self.bools = {}
        self.sqrt_cache = {}
        self.z_cache = {}
        self.aux_cache = {}
        self.z_keep = []
        self.factors = []
        self.factor_ids = {}
        self.has_rules = False
        self.query_cache = {}
        self.feas_ms = feas_ms
        self.obl_ms = obl_ms
        self.n_queries = 0
        self.t_solver = 0.0
        self.n_unknown_feas = 0
        self.extra_sat = None
        self.has_floor = False

    # variables ---------------------------------------------------------
    def var(self, name, kind='in'):
        i = self.by_name.get(name)
        if i is None:
            i = len(self.vars)
            self.by_name[name] = i
            self.vars.append(VarInfo(name, z3.Real(name), kind))
        return i

    def boolvar(self, name):
        b = self.bools.get(name)
        if b is None:
            b = self.bools[name] = z3.Bool(name)
        return b

    def restrict(self, i, zexpr, deps=()):
        v = self.vars[i]
        if not any(zexpr.eq(d) for d in v.defn):
            v.defn.append(zexpr)
            v.deps |= set(deps)

    # polynomials --------------------------------------------------------
    def reduce(self, p):
        if not self.has_rules:
            return p
        while True:
            todo = None
            for m in p:
                for v, e in m:
                    if e >= 2 and self.vars[v].sq is not None:
                        todo = v
                        break
                if todo is not None:
                    break
            if todo is None:
                return p
            v = todo
            keep = {}
            change = []
            for m, c in p.items():
                d = dict(m)
                e = d.get(v, 0)
                if e >= 2:
                    if e % 2:
                        d[v] = 1
                    else:
                        del d[v]
                    change.append((e // 2, tuple(sorted(d.items())), c))
                else:
                    keep[m] = c
            r = keep
            sq = self.vars[v].sq
            for k, m, c in change:
                r = P.add(r, P.mul({m: c}, P.power(sq, k)))
            p = r

    def pmul(self, a, b):
        return self.reduce(P.mul(a, b))

    def pz3(self, p):
        if P.is_const(p):
            return z3num(P.const_val(p))
        k = P.key(p)
        e = self.z_cache.get(k)
        if e is None:
            terms = []
            for m, c in sorted(p.items(), key=lambda t: P._mono_order(t[0])):
                fs = []
                if c != 1 or not m:
                    fs.append(z3num(c))
                for v, ex in m:
                    fs += [self.vars[v].z] * ex
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            e = terms[0] if len(terms) == 1 else z3.Sum(terms)
            self.z_cache[k] = e
        return e

    def factor(self, p):
        """id of a primitive, sign-normalised non-constant polynomial"""
        k = P.key(p)
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.factor_ids[k] = i
        return i


_S = None     # current session
_C = None     # current path context


def session():
    return _S


def ctx():
    return _C


def z3num(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.RealVal(f'{c.numerator}/{c.denominator}')


# --------------------------------------------------------------------------
# booleans


class SBool:
    __slots__ = ('z', 'vs')

    def __init__(self, z, vs):
        self.z = z
        self.vs = vs

    def __bool__(self):
        return _C.decide(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return b_not(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return self ^ o
        return NotImplemented

    __hash__ = None

    def __format__(self, spec):
        return '<cond>'

    def __repr__(self):
        return f'SBool({self.z})'

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def all(self):
        return self

    def any(self):
        return self

    # ordering, as in sort keys
    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    # arithmetic on conditions: count / mask multiplication
    def _num(self):
        return b2n(self)

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays
        return arrays.apply_ufunc(ufunc, method, inputs, kw)


def b_and(*xs):
    zs, vs = [], frozenset()
    for x in xs:
        if isinstance(x, SBool):
            zs.append(x.z)
            vs |= x.vs
        elif not x:
            return False
    if not zs:
        return True
    if len(zs) == 1:
        return SBool(zs[0], vs)
    return SBool(z3.And(*zs), vs)


def b_or(*xs):
    zs, vs = [], frozenset()
    for x in xs:
        if isinstance(x, SBool):
            zs.append(x.z)
            vs |= x.vs
        elif x:
            return True
    if not zs:
        return False
    if len(zs) == 1:
        return SBool(zs[0], vs)
    return SBool(z3.Or(*zs), vs)


def b_not(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.z), x.vs)
    return not x


def b_implies(a, b):
    return b_or(b_not(a), b)


# --------------------------------------------------------------------------
# reals


def is_sym(x):
    return isinstance(x, (R, XVar, FVal, SBool))


# texts of symbolic numbers (checks that compare names)
TAGS = None


def tag_text(v):
    for i, w in enumerate(TAGS):
        if w is v:
            return f'\x01{i}\x02'
    TAGS.append(v)
    return f'\x01{len(TAGS) - 1}\x02'


def text_eq(a, b):
    """equality of texts with embedded symbolic integers"""
    pa, pb = re.split('\x01(\\d+)\x02', a), re.split('\x01(\\d+)\x02', b)
    if pa[::2] == pb[::2]:
        return b_and(*[TAGS[int(i)] == TAGS[int(j)]
                       for i, j in zip(pa[1::2], pb[1::2])])
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 3 and len(y) == 1:
            m = re.fullmatch(re.escape(x[0]) + r'(-?\d+)' + re.escape(x[2]),
                             y[0])
            return TAGS[int(x[1])] == int(m.group(1)) if m else False
    if len(pa) == len(pb) == 1:
        return a == b
    raise Unsupported('comparison of different symbolic texts')


class SymNum:
    """common marker of symbolic numbers"""
    __slots__ = ()
    __hash__ = None

    def __format__(self, spec):
        if TAGS is not None and re.fullmatch(r'\d*d?', spec):
            return tag_text(self)
        return '<sym>'

    def __str__(self):
        return '<sym>' if TAGS is None else tag_text(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays
        return arrays.apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays
        return arrays.array_function(func, args, kwargs)

    # numpy scalar interface
    @property
    def T(self):  # noqa: N802
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conj(self):
        return self

    conjugate = conj

    def item(self):
        return self

    def copy(self):
        return self

    def dot(self, o):
        return self * o

    def __pos__(self):
        return self

    def __bool__(self):
        return bool(self != 0)

    def is_integer(self):
        raise Unsupported('is_integer of symbolic number')


class R(SymNum):
    """finite symbolic real: num / prod factor^exp"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den        # tuple of (factor id, exp), sorted

    # ---- construction helpers
    def is_const(self):
        return not self.den and P.is_const(self.num)

    def const_val(self):
        return P.const_val(self.num)

    def __repr__(self):
        return f'R({_S.pz3(self.num)}{" / ..." if self.den else ""})'

    # ---- arithmetic
    def __neg__(self):
        return R(P.neg(self.num), self.den)

    def __add__(self, o):
        return _add(self, o)

    def __radd__(self, o):
        return _add(o, self)

    def __sub__(self, o):
        return _sub(self, o)

    def __rsub__(self, o):
        return _sub(o, self)

    def __mul__(self, o):
        return _mul(self, o)

    def __rmul__(self, o):
        return _mul(o, self)

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def __pow__(self, o):
        return xpow(self, o)

    def __rpow__(self, o):
        return xpow(o, self)

    def __abs__(self):
        return xabs(self)

    def __mod__(self, o):
        return xmod(self, o)

    def __floordiv__(self, o):
        return xfloor(self / o)

    def __rfloordiv__(self, o):
        return xfloor(o / self)

    def is_integer(self):
        return xfloor(self) == self

    def __lt__(self, o):
        return _cmp(self, o, '<')

    def __le__(self, o):
        return _cmp(self, o, '<=')

    def __gt__(self, o):
        return _cmp(self, o, '>')

    def __ge__(self, o):
        return _cmp(self, o, '>=')

    def __eq__(self, o):
        return _cmp(self, o, '==')

    def __ne__(self, o):
        return _cmp(self, o, '!=')

    __hash__ = None

    def __float__(self):
        if self.is_const():
            return float(self.const_val())
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        if self.is_const():
            return int(self.const_val())
        raise Unsupported('int() of a symbolic real')

    def __index__(self):
        if self.is_const() and type(self.const_val()) is int:
            return self.const_val()
        raise Unsupported('index from a symbolic real')

    def sqrt(self):
        return xsqrt(self)


class XVar(SymNum):
    """symbolic input that may be finite, NaN, +inf or -inf; resolved lazily"""
    __slots__ = ('name', 'allow')

    def __init__(self, name, allow=('nan', 'pinf', 'ninf')):
        self.name = name
        self.allow = allow

    def _bools(self):
        s = _S
        n = self.name
        return (SBool(s.boolvar(n + '!fin'), frozenset([n + '!fin'])),
                SBool(s.boolvar(n + '!nan'), frozenset([n + '!nan'])),
                SBool(s.boolvar(n + '!pos'), frozenset([n + '!pos'])))

    def f(self):
        memo = _C.memo
        r = memo.get(self.name)
        if r is None:
            fin, isnan, pos = self._bools()
            if fin:
                r = R(P.var(_S.var(self.name)))
            else:
                opts = list(self.allow)
                r = None
                if 'nan' in opts:
                    if len(opts) == 1 or bool(isnan):
                        r = math.nan
                if r is None:
                    inf = [o for o in opts if o != 'nan']
                    if len(inf) == 2:
                        r = math.inf if bool(pos) else -math.inf
                    elif inf:
                        r = math.inf if inf[0] == 'pinf' else -math.inf
                    else:
                        raise PathAbort()
            memo[self.name] = r
        return r

    def isfinite(self):
        r = _C.memo.get(self.name)
        if r is not None:
            return xisfinite(r)
        return self._bools()[0]

    def isnan(self):
        r = _C.memo.get(self.name)
        if r is not None:
            return xisnan(r)
        fin, isnan, _ = self._bools()
        if 'nan' not in self.allow:
            return False
        if len(self.allow) == 1:
            return b_not(fin)
        return b_and(b_not(fin), isnan)

    def __neg__(self):
        return -self.f()

    def __abs__(self):
        return xabs(self.f())

    def __repr__(self):
        return f'XVar({self.name})'

    __hash__ = None

    def __add__(self, o):
        return self.f() + o

    def __radd__(self, o):
        return o + self.f()

    def __sub__(self, o):
        return self.f() - o

    def __rsub__(self, o):
        return o - self.f()

    def __mul__(self, o):
        return self.f() * o

    def __rmul__(self, o):
        return o * self.f()

    def __truediv__(self, o):
        return _div(self.f(), o)

    def __rtruediv__(self, o):
        return _div(o, self.f())

    def __pow__(self, o):
        return xpow(self.f(), o)

    def __mod__(self, o):
        return xmod(self.f(), o)

    def __lt__(self, o):
        return self.f() < o

    def __le__(self, o):
        return self.f() <= o

    def __gt__(self, o):
        return self.f() > o

    def __ge__(self, o):
        return self.f() >= o

    def __eq__(self, o):
        return self.f() == o

    def __ne__(self, o):
        return self.f() != o

    def __float__(self):
        return float(self.f())

    def __int__(self):
        return int(self.f())

    def sqrt(self):
        return xsqrt(self.f())


class XSel(XVar):
    """a if c else b with at least one of a, b NaN or infinite; resolved
    only when its value is needed"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.name = f'sel:{c.z.get_id()}:{a!r}:{b!r}'
        self.allow = ()
        self.c, self.a, self.b = c, a, b
        _S.z_keep.append(c.z)

    def f(self):
        v = self.a if bool(self.c) else self.b
        return v.f() if isinstance(v, XVar) else v

    def _k(self):
        return _C.lookup(self.c.z)

    def isfinite(self):
        return _bite(self.c, xisfinite(self.a), xisfinite(self.b))

    def isnan(self):
        return _bite(self.c, xisnan(self.a), xisnan(self.b))

    def __repr__(self):
        return f'XSel({self.c.z}, {self.a!r}, {self.b!r})'

    __hash__ = None


def _bite(c, a, b):
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


def lift(x):
    """R or python float special, or None if not a number"""
    if isinstance(x, R):
        return x
    if isinstance(x, XVar):
        return x.f()
    if isinstance(x, (bool, np.bool_)):
        return R(P.const(int(x)))
    if isinstance(x, (int, np.integer)):
        return R(P.const(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isfinite(x):
            return R(P.const(Fraction(x)))
        return x
    if isinstance(x, Fraction):
        return R(P.const(x))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return lift(x.real)
        raise Unsupported('complex number')
    if isinstance(x, SBool):
        return R(P.const(1 if bool(x) else 0))
    return None


def _arr(o):
    return isinstance(o, np.ndarray)


def _conv2(a, b):
    if _arr(a) or _arr(b):
        return None
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return None
    return la, lb


def _den_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    d = dict(d1)
    for f, e in d2:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def _den_poly(d):
    p = {(): 1}
    for f, e in d:
        for _ in range(e):
            p = _S.pmul(p, _S.factors[f])
    return p


def _cancel(num, den):
    """cancel denominator factors that divide the numerator"""
    if not num:
        return R({}, ())
    if not den:
        return R(num, ())
    out = []
    for f, e in den:
        fp = _S.factors[f]
        while e:
            q = P.exact_div(num, fp)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return R(num, tuple(out))


def _add(a, b):
    if isinstance(a, FVal) or isinstance(b, FVal):
        return NotImplemented
    t = _conv2(a, b)
    if t is None:
        return _arrop('add', a, b)
    a, b = t
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a + b
        return a if isinstance(a, float) else b
    if a.den == b.den:
        n = P.add(a.num, b.num)
        return _cancel(n, a.den) if a.den else R(n)
    da, db = dict(a.den), dict(b.den)
    lcm = dict(da)
    for f, e in db.items():
        lcm[f] = max(lcm.get(f, 0), e)
    ma = tuple(sorted((f, e - da.get(f, 0)) for f, e in lcm.items()
                      if e > da.get(f, 0)))
    mb = tuple(sorted((f, e - db.get(f, 0)) for f, e in lcm.items()
                      if e > db.get(f, 0)))
    n = P.add(_S.pmul(a.num, _den_poly(ma)), _S.pmul(b.num, _den_poly(mb)))
    return _cancel(n, tuple(sorted(lcm.items())))


def _sub(a, b):
    if isinstance(a, FVal) or isinstance(b, FVal):
        return NotImplemented
    t = _conv2(a, b)
    if t is None:
        return _arrop('sub', a, b)
    return _add(t[0], -t[1])


def _mul(a, b):
    if isinstance(a, FVal) or isinstance(b, FVal):
        return NotImplemented
    t = _conv2(a, b)
    if t is None:
        return _arrop('mul', a, b)
    a, b = t
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a * b
        sp, r = (a, b) if isinstance(a, float) else (b, a)
        if math.isnan(sp):
            return sp
        if bool(r > 0):
            return sp
        if bool(r < 0):
            return -sp
        return math.nan
    n = _S.pmul(a.num, b.num)
    return _cancel(n, _den_mul(a.den, b.den))


def _div(a, b):
    if isinstance(a, FVal) or isinstance(b, FVal):
        return NotImplemented
    t = _conv2(a, b)
    if t is None:
        return _arrop('div', a, b)
    a, b = t
    if isinstance(b, float):
        if math.isnan(b):
            return math.nan
        if isinstance(a, float):
            return math.nan
        return R({})
    # division by zero: IEEE result, decided by a branch
    if bool(b == 0):
        if isinstance(a, float):
            return a
        if bool(a == 0):
            return math.nan
        return math.inf if bool(a > 0) else -math.inf
    if isinstance(a, float):
        if math.isnan(a):
            return a
        return a if bool(b > 0) else -a
    return _div_nz(a, b)


def _div_nz(a, b):
    """a / b with b known non-zero"""
    # numerator of b becomes denominator factors
    num = a.num
    den = a.den
    if b.den:
        num = _S.pmul(num, _den_poly(b.den))
    bn = b.num
    c = P.content(bn)
    lead = bn[P.lead(bn)]
    if lead < 0:
        c = -c
    bn = P.scale(bn, Fraction(1) / c)
    num = P.scale(num, Fraction(1) / c)
    mc = P.mono_content(bn)
    if mc:
        bn = P.div_mono(bn, mc)
        den = _den_mul(den, tuple(sorted(
            (_S.factor({((v, 1),): 1}), e) for v, e in mc)))
    if not P.is_const(bn):
        # split known factors off
        for fid in range(len(_S.factors)):
            fp = _S.factors[fid]
            if len(fp) <= 1 or len(fp) > len(bn):
                continue
            while True:
                q = P.exact_div(bn, fp, limit=300)
                if q is None or P.is_const(bn):
                    break
                bn = q
                den = _den_mul(den, ((fid, 1),))
            if P.is_const(bn):
                break
        if not P.is_const(bn):
            den = _den_mul(den, ((_S.factor(bn), 1),))
        else:
            num = P.scale(num, Fraction(1) / Fraction(P.const_val(bn)))
    else:
        num = P.scale(num, Fraction(1) / Fraction(P.const_val(bn)))
    return _cancel(num, den)


def _arrop(op, a, b):
    if _arr(a) or _arr(b):
        from . import arrays
        u = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply,
             'div': np.true_divide}[op]
        return arrays.apply_ufunc(u, '__call__', (a, b), {})
    return NotImplemented


_FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def _fcmp(a, b, op):
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
            '==': a == b, '!=': a != b}[op]


def poly_sign_hint(p):
    """'+', '-', '0+', '0-' or None from coefficient signs and variable signs"""
    if not p:
        return '0'
    pos = neg = True
    strict = False
    for m, c in p.items():
        s = 1 if c > 0 else -1
        st = True
        for v, e in m:
            info = _S.vars[v].sign
            if info == '+':
                continue
            if e % 2 == 0 or info == '0+':
                st = False
                continue
            return None
        if s > 0:
            neg = False
        else:
            pos = False
        strict = strict or st
    if pos:
        return '+' if strict else '0+'
    if neg:
        return '-' if strict else '0-'
    return None


def _cmp(a, b, op):
    if _arr(a) or _arr(b):
        from . import arrays
        u = {'<': np.less, '<=': np.less_equal, '>': np.greater,
             '>=': np.greater_equal, '==': np.equal,
             '!=': np.not_equal}[op]
        return arrays.apply_ufunc(u, '__call__', (a, b), {})
    if isinstance(b, FVal):
        return NotImplemented
    t = _conv2(a, b)
    if t is None:
        return NotImplemented
    a, b = t
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return _fcmp(a, b, op)
        if isinstance(a, float):
            return _fcmp(a, 0.0, op)   # finite vs special: any finite value
        return _fcmp(0.0, b, op)
    d = _sub(a, b)
    return sign_atom(d, op)


def _patom(p, op):
    if not p or P.is_const(p):
        return _fcmp(P.const_val(p), 0, op)
    return sign_atom(R(p), op)


def _elim_sqrt(num, op):
    """A + t op 0 with t a single term of known sign that contains a square
    root variable to odd power, A free of it: square it away"""
    info = _S.vars
    hit = None
    for m in num:
        if any(info[v].kind == 'sqrt' and e % 2 for v, e in m):
            if hit is not None:
                return None
            hit = m
    if hit is None:
        return None
    for v, e in hit:
        if e % 2 and info[v].sign not in ('+', '0+'):
            return None
    c = num[hit]
    t = {hit: c}
    a = dict(num)
    del a[hit]
    if not a:
        if len(hit) == 1 and hit[0][1] == 1:
            sq = _S.reduce(P.mul(t, t))
            pos = c > 0
            if op in ('==', '!='):
                return _patom(sq, op)
            if op == '>':
                return _patom(sq, '!=') if pos else False
            if op == '>=':
                return True if pos else _patom(sq, '==')
            if op == '<':
                return False if pos else _patom(sq, '!=')
            return _patom(sq, '==') if pos else True
        return None
    d = P.sub(_S.reduce(P.mul(a, a)), _S.reduce(P.mul(t, t)))  # A^2 - t^2
    if op in ('<', '<='):
        a, c = P.neg(a), -c
        op = {'<': '>', '<=': '>='}[op]
    if op in ('>', '>='):
        if c > 0:
            return b_or(_patom(a, op), _patom(d, {'>': '<', '>=': '<='}[op]))
        return b_and(_patom(a, op), _patom(d, op))
    eq = b_and(_patom(a, '<=' if c > 0 else '>='), _patom(d, '=='))
    return eq if op == '==' else b_not(eq)


def sign_atom(d, op):
    """condition  d op 0"""
    num = d.num
    if d.is_const():
        return _fcmp(d.const_val(), 0, op)
    c = P.content(num)
    num = P.scale(num, Fraction(1) / c) if c != 1 else num
    # known-positive variable factors are dropped
    odd = [f for f, e in d.den if e % 2]
    mc = P.mono_content(num)
    if mc:
        drop = tuple((v, e) for v, e in mc if _S.vars[v].sign == '+')
        if drop:
            num = P.div_mono(num, drop)
    keep = []
    if op not in ('==', '!='):
        for f in odd:
            h = poly_sign_hint(_S.factors[f])
            if h in ('+', '0+'):      # non-zero is known from the division
                continue
            if h in ('-', '0-'):
                num = P.neg(num)
                continue
            keep.append(f)
    if not keep:
        h = poly_sign_hint(num)
        if h == '+':
            return op in ('>', '>=', '!=')
        if h == '-':
            return op in ('<', '<=', '!=')
        if h == '0+' and op in ('>=', '<'):
            return op == '>='
        if h == '0-' and op in ('<=', '>'):
            return op == '<='
    if not keep and _S.has_rules:
        r = _elim_sqrt(num, op)
        if r is not None:
            return r
    z = _S.pz3(num)
    vs = set(P.variables(num))
    for f in keep:
        z = z * _S.pz3(_S.factors[f])
        vs |= P.variables(_S.factors[f])
    zero = z3.RealVal(0)
    e = {'<': z < zero, '<=': z <= zero, '>': z > zero, '>=': z >= zero,
         '==': z == zero, '!=': z != zero}[op]
    return SBool(e, frozenset(vs))


# --------------------------------------------------------------------------
# functions


def is_number(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, R,
                          XVar, FVal)) and not isinstance(x, bool)


def xisfinite(x):
    if isinstance(x, XVar):
        return x.isfinite()
    if isinstance(x, FVal):
        return x.isfinite()
    if isinstance(x, (R, Fraction, SBool)):
        return True
    return bool(np.isfinite(x))


def xisnan(x):
    if isinstance(x, XVar):
        return x.isnan()
    if isinstance(x, FVal):
        return x.isnan()
    if isinstance(x, (R, Fraction, SBool)):
        return False
    return bool(np.isnan(x))


def xisinf(x):
    if isinstance(x, XVar):
        return b_and(b_not(x.isfinite()), b_not(x.isnan()))
    if isinstance(x, FVal):
        return b_and(b_not(x.isfinite()), b_not(x.isnan()))
    if isinstance(x, (R, Fraction, SBool)):
        return False
    return bool(np.isinf(x))


def xabs(x):
    if isinstance(x, XVar):
        x = x.f()
    if isinstance(x, FVal):
        return x.abs()
    if isinstance(x, R):
        if x.is_const():
            return x if x.const_val() >= 0 else -x
        if _C.lazy:
            return _lazy_abs(x)
        return x if bool(x >= 0) else -x
    if isinstance(x, (complex, np.complexfloating)):
        return abs(x)
    return abs(x)


def xsign(x):
    if isinstance(x, XVar):
        x = x.f()
    if isinstance(x, FVal):
        if bool(x.isnan()):
            return math.nan
        if bool(x > 0.0):
            return 1.0
        if bool(x < 0.0):
            return -1.0
        return 0.0
    if isinstance(x, R):
        gt, lt = x > 0, x < 0
        if _C.lazy:
            return lazy_ite(gt, 1.0, lazy_ite(lt, -1.0, 0.0))
        if bool(gt):
            return 1.0
        if bool(lt):
            return -1.0
        return 0.0
    return float(np.sign(x))


# lazy mode: a fresh variable with a defining constraint instead of a fork


def _rkey(x):
    return (P.key(x.num), x.den)


def _aux(key, make, sign=None, sq=None):
    """auxiliary variable for key, defined by make(var)"""
    s = _S
    i = s.aux_cache.get(key)
    if i is None:
        i = s.var(f'aux!{len(s.aux_cache)}', 'aux')
        s.aux_cache[key] = i
        cond = make(R(P.var(i)))
        info = s.vars[i]
        info.defn = [cond.z]
        info.deps = {v for v in cond.vs if v != i}
        info.sign = sign
        if sq is not None:
            info.sq = sq
            s.has_rules = True
    return R(P.var(i))


def _lazy_abs(x):
    h = poly_sign_hint(x.num)
    if not x.den:
        if h in ('+', '0+', '0'):
            return x
        if h in ('-', '0-'):
            return -x
        # split off the content and factors of known sign
        c = P.content(x.num)
        p = P.scale(x.num, Fraction(1) / c) if c != 1 else x.num
        out = R(P.const(c))
        mc = P.mono_content(p)
        drop = tuple((v, e) for v, e in mc if _S.vars[v].sign) if mc else ()
        if drop:
            p = P.div_mono(p, drop)
            out = out * R({drop: 1})
        if p[P.lead(p)] < 0:
            p = P.neg(p)
        x = R(p)
    else:
        out = None
    ge = x >= 0
    if not isinstance(ge, SBool):
        r = x if ge else -x
    else:
        k = _C.lookup(ge.z)
        if k is None:
            le = x <= 0
            k = _C.lookup(le.z) if isinstance(le, SBool) else le
            k = None if k is None else not k
        if k is None:
            sq = None
            if not x.den and len(x.num) <= 2:
                sq = _S.pmul(x.num, x.num)
            r = _aux(('abs', _rkey(x)), lambda m: b_and(
                m >= 0, b_or(m == x, m == -x)), '0+', sq)
        else:
            r = x if k else -x
    return r if out is None else out * r


def b2n(c):
    """0/1 value of a condition"""
    if isinstance(c, SBool) and _C.lazy:
        return lazy_ite(c, 1, 0)
    return int(bool(c))


def pick(c, a, b):
    if _C is not None and _C.lazy:
        return lazy_ite(c, a, b)
    return a if bool(c) else b


def lazy_ite(c, a, b):
    """a if c else b without a fork where possible"""
    if not isinstance(c, SBool):
        return a if c else b
    k = _C.lookup(c.z)
    if k is not None:
        return a if k else b
    if a is b:
        return a
    if isinstance(a, FVal) or isinstance(b, FVal):
        fa, fb = fpv(a), fpv(b)
        if fa is not None and fb is not None:
            return FVal(z3.If(c.z, fa.z, fb.z), fa.vs | fb.vs | c.vs)
    if isinstance(a, SBool) or isinstance(b, SBool) or isinstance(a, bool) \
            and isinstance(b, bool):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, SBool) or isinstance(b, SBool) or \
            not all(isinstance(v, int) for v in c.vs):
        return a if bool(c) else b
    if isinstance(a, float) and isinstance(b, float) and (
            a == b or a != a and b != b):
        return a
    if isinstance(a, XVar) or isinstance(b, XVar):
        return XSel(c, a, b)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a if bool(c) else b
    if not isinstance(la, R) or not isinstance(lb, R):
        return XSel(c, la, lb)
    if la.den == lb.den and P.key(la.num) == P.key(lb.num):
        return a
    ha, hb = (poly_sign_hint(v.num) if not v.den else None
              for v in (la, lb))
    sign = None
    if ha == '+' and hb == '+':
        sign = '+'
    elif ha in ('+', '0+', '0') and hb in ('+', '0+', '0'):
        sign = '0+'
    _C._keep.append(c.z)
    _S.z_keep.append(c.z)
    return _aux(('ite', c.z.get_id(), _rkey(la), _rkey(lb)),
                lambda m: b_or(b_and(c, m == la), b_and(b_not(c), m == lb)),
                sign)


def _minmax(a, b, ismax, propagate):
    """propagate: NaN wins (np.maximum); otherwise NaN loses (np.fmax)"""
    for u, v in ((a, b), (b, a)):
        n = xisnan(u)
        if n is not False and bool(n):
            return u if propagate else v
    ge = a >= b if ismax else a <= b
    if _C is not None and _C.lazy and isinstance(ge, SBool):
        return lazy_ite(ge, a.f() if isinstance(a, XVar) else a,
                        b.f() if isinstance(b, XVar) else b)
    return a if bool(ge) else b


def xmaximum(a, b):
    return _minmax(a, b, True, True)


def xminimum(a, b):
    return _minmax(a, b, False, True)


def xfmax(a, b):
    return _minmax(a, b, True, False)


def xfmin(a, b):
    return _minmax(a, b, False, False)


def xdiv(a, b):
    """numpy division (IEEE, no exception)"""
    if is_sym(a) or is_sym(b):
        return a / b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return lift(a) / lift(b)
    a, b = (float(v) if not isinstance(v, complex) else v for v in (a, b))
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def xsqrt(x):
    if isinstance(x, XVar):
        x = x.f()
    if isinstance(x, FVal):
        return x.sqrt()
    if isinstance(x, R):
        return _rsqrt(x)
    if isinstance(x, Fraction):
        return _rsqrt(lift(x))
    with np.errstate(all='ignore'):
        return float(np.sqrt(np.float64(x)))


def _rsqrt(x):
    s = _S
    if x.is_const():
        c = x.const_val()
        if c < 0:
            return math.nan
        r = P.perfect_sqrt_rat(c)
        if r is not None:
            return R(P.const(r))
    if bool(x < 0):
        return math.nan
    # sqrt(n/d) = sqrt(n*d)/|d| ; even den exponents come out directly
    num = x.num
    out_den = {}
    for f, e in x.den:
        h = (e + 1) // 2
        out_den[f] = h
        if e % 2:
            num = s.pmul(num, s.factors[f])
    res = _poly_sqrt(num)
    for f, h in out_den.items():
        if h % 2:
            fr = R(s.factors[f])
            if not bool(fr > 0):
                res = -res
    if out_den:
        res = _cancel(res.num, _den_mul(res.den, tuple(sorted(out_den.items()))))
    return res


def _poly_sqrt(p):
    """R for sqrt of polynomial p, p >= 0 known on this path"""
    s = _S
    if not p:
        return R({})
    q = P.poly_sqrt(p)
    if q is not None:
        return xabs(R(q))
    outer = {(): 1}
    c = P.content(p)
    if c != 1:
        rc = P.perfect_sqrt_rat(c)
        if rc is not None:
            p = P.scale(p, Fraction(1) / c)
            outer = P.const(rc)
    mc = P.mono_content(p)
    res_out = R(outer)
    if mc:
        ev = tuple((v, e - e % 2) for v, e in mc if e >= 2)
        if ev:
            p = P.div_mono(p, ev)
            for v, e in ev:
                res_out = res_out * xpow(xabs(R(P.var(v))), e // 2)
            if P.is_const(p):
                rc = P.perfect_sqrt_rat(P.const_val(p))
                if rc is not None:
                    return res_out * R(P.const(rc))
    k = P.key(p)
    i = s.sqrt_cache.get(k)
    if i is None:
        name = f'sqrt!{len(s.sqrt_cache)}'
        i = s.var(name, 'sqrt')
        s.sqrt_cache[k] = i
        info = s.vars[i]
        info.sq = dict(p)
        info.sign = '+' if poly_sign_hint(p) == '+' else '0+'
        z = info.z
        info.defn = [z >= 0, z * z == s.pz3(p)]
        info.deps = set(P.variables(p))
        s.has_rules = True
    return res_out * R(P.var(i))


def xpow(a, b):
    if isinstance(b, XVar):
        b = b.f()
    if isinstance(b, R):
        if not b.is_const():
            raise Unsupported('symbolic exponent')
        b = b.const_val()
    if _arr(a) or _arr(b):
        from . import arrays
        return arrays.apply_ufunc(np.power, '__call__', (a, b), {})
    if isinstance(b, (float, np.floating)) and float(b).is_integer():
        b = int(b)
    if isinstance(b, (int, np.integer)):
        b = int(b)
        if b == 0:
            return 1.0
        if not is_sym(a) and not isinstance(a, Fraction):
            with np.errstate(all='ignore'):
                return float(np.float64(a) ** b)
        r = a
        for _ in range(abs(b) - 1):
            r = r * a
        return r if b > 0 else xdiv(1.0, r)
    if b == 0.5:
        return xsqrt(a)
    if b == -0.5:
        return xdiv(1.0, xsqrt(a))
    if b == 1.5:
        return xsqrt(a) * a
    if not is_sym(a):
        return float(np.float64(a) ** b)
    raise Unsupported(f'power {b}')


def xmod(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        return math.nan
    if a.is_const() and b.is_const():
        return norm_num(a.const_val() % b.const_val())
    if b.is_const() and b.const_val() > 0:
        return a - b * xfloor(a / b)
    # a = b*q + m : over-approximated by any m in [0, |b|)
    m = fresh('mod')
    _C.assume(b_and(m >= 0, m < xabs(b)))
    return m


def norm_num(c):
    if isinstance(c, Fraction):
        return R(P.const(c))
    return c


def xcopysign(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.copysign(a, b)
    if isinstance(b, XVar):
        b = b.f()
    aa = xabs(a)
    if isinstance(b, FVal):
        return aa if bool(b.notsignbit()) else -aa
    if isinstance(b, R):
        if _C.lazy:
            return lazy_ite(b >= 0, aa, -aa)
        return aa if bool(b >= 0) else -aa     # symbolic zero counts as +0
    return aa if math.copysign(1.0, b) > 0 else -aa


def is_int_valued(a):
    return not a.den and all(
        type(k) is int and all(_S.vars[v].isint for v, e in m)
        for m, k in a.num.items())


def xfloor(a):
    a = lift(a)
    if isinstance(a, float):
        return a
    if a.is_const():
        return math.floor(a.const_val())
    if is_int_valued(a):
        return a
    _S.has_floor = True

    def make(k):
        i, = P.variables(k.num)
        both = b_and(k <= a, a < k + 1)
        return SBool(z3.And(z3.IsInt(_S.vars[i].z), both.z), both.vs)
    k = _aux(('floor', P.key(a.num), a.den), make)
    i, = P.variables(k.num)
    _S.vars[i].isint = True
    return k


def xtrunc(a):
    a = lift(a)
    if isinstance(a, float):
        return a
    if a.is_const():
        return math.trunc(a.const_val())
    return xfloor(a) if bool(a >= 0) else -xfloor(-a)


def fresh(prefix, integer=False):
    n = _C.counter(prefix)
    name = f'{prefix}!{n}'
    i = _S.var(name, 'aux')
    if integer:
        _S.restrict(i, z3.IsInt(_S.vars[i].z))
    return R(P.var(i))


# --------------------------------------------------------------------------
# IEEE doubles


F64 = z3.Float64()
RNE = z3.RNE()


def fpv(x):
    if isinstance(x, FVal):
        return x
    if isinstance(x, (bool, np.bool_)):
        x = float(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return FVal(z3.FPVal(float(x), F64), frozenset())
    if isinstance(x, R) and x.is_const():
        return fpv(float(x.const_val()))
    if isinstance(x, SBool):
        return fpv(1.0 if bool(x) else 0.0)
    return None


class FVal(SymNum):
    """symbolic IEEE-754 double"""
    __slots__ = ('z', 'vs')

    def __init__(self, z, vs):
        self.z = z
        self.vs = vs

    def __repr__(self):
        return f'FVal({self.z})'

    def _bin(self, o, f, name):
        if _arr(o):
            from . import arrays
            return arrays.apply_ufunc(name, '__call__', (self, o), {})
        o = fpv(o)
        if o is None:
            return NotImplemented
        return FVal(f(RNE, self.z, o.z), self.vs | o.vs)

    def _rbin(self, o, f, name):
        if _arr(o):
            from . import arrays
            return arrays.apply_ufunc(name, '__call__', (o, self), {})
        o = fpv(o)
        if o is None:
            return NotImplemented
        return FVal(f(RNE, o.z, self.z), self.vs | o.vs)

    def __add__(self, o):
        return self._bin(o, z3.fpAdd, np.add)

    def __radd__(self, o):
        return self._rbin(o, z3.fpAdd, np.add)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub, np.subtract)

    def __rsub__(self, o):
        return self._rbin(o, z3.fpSub, np.subtract)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul, np.multiply)

    def __rmul__(self, o):
        return self._rbin(o, z3.fpMul, np.multiply)

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv, np.true_divide)

    def __rtruediv__(self, o):
        return self._rbin(o, z3.fpDiv, np.true_divide)

    def __neg__(self):
        return FVal(z3.fpNeg(self.z), self.vs)

    def __abs__(self):
        return self.abs()

    def abs(self):
        return FVal(z3.fpAbs(self.z), self.vs)

    def sqrt(self):
        return FVal(z3.fpSqrt(RNE, self.z), self.vs)

    def __pow__(self, o):
        return xpow(self, o)

    def _cmp(self, o, f, name):
        if _arr(o):
            from . import arrays
            return arrays.apply_ufunc(name, '__call__', (self, o), {})
        o = fpv(o)
        if o is None:
            return NotImplemented
        return SBool(f(self.z, o.z), self.vs | o.vs)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT, np.less)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ, np.less_equal)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT, np.greater)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ, np.greater_equal)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ, np.equal)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)), np.not_equal)

    __hash__ = None

    def isfinite(self):
        return SBool(z3.Not(z3.Or(z3.fpIsNaN(self.z), z3.fpIsInf(self.z))),
                     self.vs)

    def isnan(self):
        return SBool(z3.fpIsNaN(self.z), self.vs)

    def notsignbit(self):
        return SBool(z3.Not(z3.fpIsNegative(self.z)), self.vs)

    def __float__(self):
        raise Unsupported('float() of a symbolic double')


# --------------------------------------------------------------------------
# path context


PROFILE = {} if os.environ.get('SYMX_PROFILE') else None


def _profile():
    import sys
    f = sys._getframe(2)
    while f is not None and '/symx/' in f.f_code.co_filename:
        f = f.f_back
    if f is not None:
        k = f'{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}'
        PROFILE[k] = PROFILE.get(k, 0) + 1


class Ctx:
    """one path of one task"""
    symbolic = True

    def __init__(self, task, prefix, deadline):
        self.task = task
        self.prefix = prefix
        self.trace = []            # [value, forced, label]
        self.pos = 0
        self.pc = []               # SBool constraints in order
        self.known = {}            # ast id -> bool
        self._keep = []
        self.memo = {}
        self.counters = {}
        self.deadline = deadline
        self.inputs = []           # ordered input names
        self.allow = {}            # special values of inputs
        self.observed = []
        self.reached = set()
        self.patches = []
        self.branches = 0
        self.lazy = task.lazy

    # ---- infrastructure
    def counter(self, k):
        n = self.counters.get(k, 0)
        self.counters[k] = n + 1
        return n

    def _note(self, z, val):
        self.known[z.get_id()] = val
        self._keep.append(z)

    def add(self, cond):
        if self.str_inputs and z3.is_eq(cond.z) and any(
                isinstance(v, str) and v.startswith('str:')
                for v in cond.vs):
            a, b = cond.z.children()
            if z3.is_string_value(a):
                a, b = b, a
            if z3.is_string_value(b) and z3.is_const(a):
                self.str_pinned[a.decl().name()] = _z3str(b)
        if z3.is_and(cond.z):
            for ch in cond.z.children():
                self._note(ch, True)
        self._note(cond.z, True)
        self.pc.append(cond)

    def lookup(self, z):
        v = self.known.get(z.get_id())
        if v is not None:
            return v
        if z3.is_not(z):
            v = self.known.get(z.arg(0).get_id())
            if v is not None:
                return not v
        return None

    def decide(self, cond):
        if not isinstance(cond, SBool):
            return bool(cond)
        v = self.lookup(cond.z)
        if v is not None:
            return v
        if z3.is_true(cond.z):
            return True
        if z3.is_false(cond.z):
            return False
        if time.time() > self.deadline:
            raise Budget()
        neg = b_not(cond)
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
        else:
            self.branches += 1
            if PROFILE is not None:
                _profile()
            t = self.task.feasible(self, cond)
            f = self.task.feasible(self, neg) if t else True
            forced = not (t and f)
            val = bool(t)
        self.pos += 1
        self.trace.append((val, forced))
        self.add(cond if val else neg)
        if not val:
            self._note(cond.z, False)
        return val

    def choose(self, name, k):
        """arbitrary integer in range(k), as an explored branch"""
        key = f'{name}#{self.counter("choose:" + name)}'
        if k <= 1:
            self.memo['choice:' + key] = 0
            return 0
        for i in range(k - 1):
            b = SBool(_S.boolvar(f'{key}={i}'), frozenset([f'{key}={i}']))
            if self.decide(b):
                self.memo['choice:' + key] = i
                return i
        self.memo['choice:' + key] = k - 1
        return k - 1

    # ---- inputs
    def _input(self, name):
        if name in self.inputs:
            name = f'{name}~{self.counter("dup:" + name)}'
        self.inputs.append(name)
        return name

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False,
             special=None):
        name = self._input(name)
        if special:
            allow = ('nan', 'pinf', 'ninf') if special is True else special
            self.allow[name] = allow
            return XVar(name, allow)
        i = _S.var(name)
        v = _S.vars[i]
        r = R(P.var(i))
        if pos:
            v.sign = '+'
            _S.restrict(i, v.z > 0)
        elif nonneg:
            v.sign = '0+'
            _S.restrict(i, v.z >= 0)
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r

    def unit(self, cname, sname):
        """(c, s) with c*c + s*s == 1 (a rotation)"""
        cn, sn = self._input(cname), self._input(sname)
        i, j = _S.var(cn), _S.var(sn)
        vi, vj = _S.vars[i], _S.vars[j]
        if vi.sq is None:
            vi.sq = P.sub(P.const(1), P.power(P.var(j), 2))
            _S.restrict(i, vi.z * vi.z + vj.z * vj.z == 1, [j])
            _S.restrict(j, z3.And(vj.z <= 1, vj.z >= -1), [i])
            _S.has_rules = True
        return R(P.var(i)), R(P.var(j))

    def integer(self, name, lo=None, hi=None):
        name = self._input(name)
        i = _S.var(name)
        r = R(P.var(i))
        if lo is not None and lo > 0:
            _S.vars[i].sign = '+'
            _S.restrict(i, _S.vars[i].z > 0)
        elif lo is not None and lo >= 0:
            _S.vars[i].sign = '0+'
            _S.restrict(i, _S.vars[i].z >= 0)
        self.int_inputs.add(name)
        _S.vars[i].isint = True
        if lo is not None and hi is not None and hi - lo <= 16:
            z = _S.vars[i].z
            _S.restrict(i, z3.Or(*[z == k for k in range(lo, hi + 1)]))
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r

    int_inputs = set()
    str_inputs = set()
    str_pinned = {}

    def string(self, name):
        """any string"""
        name = self._input(name)
        self.str_inputs.add(name)
        return SymStr(name)

    def double(self, name):
        name = self._input(name)
        return FVal(z3.FP(name, F64), frozenset(['fp:' + name]))

    def boolean(self, name):
        name = self._input(name)
        return SBool(_S.boolvar(name), frozenset([name]))

    def vec(self, name, n, **kw):
        from . import arrays
        return arrays.SArr.make([self.real(f'{name}{i}', **kw)
                                 for i in range(n)])

    def dvec(self, name, n):
        from . import arrays
        return arrays.SArr.make([self.double(f'{name}{i}')
                                 for i in range(n)])

    def mat(self, name, n, m=None, **kw):
        from . import arrays
        m = n if m is None else m
        return arrays.SArr.make([[self.real(f'{name}{i}{j}', **kw)
                                  for j in range(m)] for i in range(n)])

    def symmat(self, name, n, **kw):
        from . import arrays
        e = {}
        for i in range(n):
            for j in range(i, n):
                e[i, j] = e[j, i] = self.real(f'{name}{i}{j}', **kw)
        return arrays.SArr.make([[e[i, j] for j in range(n)]
                                 for i in range(n)])

    def array(self, data, kind='f'):
        from . import arrays
        return arrays.SArr.make(data, kind)

    # ---- logic
    def assume(self, cond):
        if isinstance(cond, SBool):
            if self.lookup(cond.z) is True:
                return
            if self.lookup(cond.z) is False:
                raise PathAbort()
            self.add(cond)
        elif not cond:
            raise PathAbort()

    def name(self, x):
        """a new variable equal to x (an expression valid on this path)"""
        if not isinstance(x, R) or P.is_const(x.num) and not x.den:
            return x
        if not x.den and len(n := x.num) == 1:
            (m, k), = n.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return x
        key = ('name', P.key(x.num), x.den)
        r = _aux(key, lambda v: v == x)
        _S.vars[_S.aux_cache[key]].opaque = True
        return r

    def hint(self, *factors):
        """the product of numbers that are shown to be nonnegative is
        nonnegative"""
        r = 1
        for f in factors:
            c = f >= 0
            if isinstance(c, SBool):
                self.check(c, 'auxiliary inequality')
            r = f * r
        if isinstance(r, R) and not r.den and not P.is_const(r.num):
            # as it is: comparisons would drop factors of known sign
            self.add(SBool(_S.pz3(r.num) >= 0, P.variables(r.num)))
            return
        c = r >= 0
        if isinstance(c, SBool):
            self.assume(c)

    def check(self, cond, label, margin=None):
        """property obligation on this path"""
        self.task.obligation(self, cond, label, margin)

    def check_eq(self, a, b, label, tol=None):
        """entries of a and b are equal"""
        a, b = [np.array(z, dtype=object) if isinstance(z, (list, tuple))
                else z for z in (a, b)]
        u = np.asarray(a, dtype=object).ravel() if _arr(a) else [a]
        v = np.asarray(b, dtype=object).ravel() if _arr(b) else [b]
        if _arr(a) != _arr(b) and (_arr(a) and a.ndim or
                                   _arr(b) and b.ndim):
            self.check(False, label)
            return
        if _arr(a) and a.shape != b.shape:
            self.check(False, label)
            return
        cond = b_and(*[self.eq(x, y) for x, y in zip(u, v)])
        strong = []
        if isinstance(cond, SBool):
            for m in (Fraction(1, 16), Fraction(1, 2 ** 16)):
                alts = []
                for x, y in zip(u, v):
                    if isinstance(x, (R, float, int, np.number)) and \
                            isinstance(y, (R, float, int, np.number)):
                        d = x - y
                        if isinstance(d, R):
                            alts += [d >= m, d <= -m]
                if alts:
                    strong.append(b_or(*alts))
        self.task.obligation(self, cond, label, strong)

    def check_le(self, a, b, label, tol=None):
        """a <= b"""
        cond = a <= b
        strong = []
        if isinstance(cond, SBool) and not isinstance(a, FVal) and \
                not isinstance(b, FVal):
            for m in (Fraction(1, 16), Fraction(1, 2 ** 14),
                      Fraction(1, 2 ** 22)):
                strong.append(a >= b + m)
        self.task.obligation(self, cond, label, strong)

    def check_ge(self, a, b, label, tol=None):
        self.check_le(b, a, label, tol)

    def check_pos(self, a, label):
        """a > 0"""
        cond = a > 0
        strong = []
        if isinstance(cond, SBool):
            strong = [a <= -Fraction(1, 16), a <= -Fraction(1, 2 ** 18)]
        self.task.obligation(self, cond, label, strong)

    def fail(self, label):
        self.task.obligation(self, False, label, None)

    def check_true(self, cond, label):
        """as check, for a Python condition (branches are explored)"""
        self.task.obligation(self, bool(cond), label, None)

    def observe(self, name, val):
        self.observed.append((name, val))

    def reach(self, label):
        self.reached.add(label)

    # ---- comparisons usable in both modes
    def eq(self, a, b, tol=None):
        na, nb = xisnan(a), xisnan(b)
        if na is True or nb is True:
            return b_and(na, nb)
        if na is not False or nb is not False:
            if isinstance(a, XVar) or isinstance(b, XVar):
                if isinstance(a, XVar) and isinstance(b, XVar) and \
                        a.name == b.name:
                    return True
            return b_or(b_and(na, nb), a == b)
        return a == b

    def le(self, a, b, tol=None):
        return a <= b

    def lt(self, a, b):
        return a < b

    def ge(self, a, b, tol=None):
        return a >= b

    def near(self, a, b, tol):
        """|a-b| <= tol (absolute, exact tolerance in both modes)"""
        d = a - b
        return b_and(d <= tol, d >= -tol)

    And = staticmethod(b_and)
    Or = staticmethod(b_or)
    Not = staticmethod(b_not)

    def implies(self, a, b):
        return b_or(b_not(a), b)

    def vec_eq(self, a, b, tol=None):
        a, b = np.asarray(a, dtype=object).ravel(), \
            np.asarray(b, dtype=object).ravel()
        if a.shape != b.shape:
            return False
        return b_and(*[self.eq(x, y) for x, y in zip(a, b)])

    def isfinite(self, x):
        return xisfinite(x)

    def isnan(self, x):
        return xisnan(x)

    def sqrt(self, x):
        return xsqrt(x)

    def norm(self, v):
        from . import arrays
        return arrays.x_norm(v)

    def abs(self, x):
        return xabs(x)

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = xmaximum(r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = xminimum(r, x)
        return r

    # ---- environment
    def patch(self, obj, name, value):
        old = getattr(obj, name)
        had = name in vars(obj) if hasattr(obj, '__dict__') else True
        self.patches.append((obj, name, old, had))
        setattr(obj, name, value)

    def undo_patches(self):
        for obj, name, old, had in reversed(self.patches):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self.patches = []


class Task:
    """explores one harness configuration"""

    def __init__(self, harness, params, feas_ms=1500, obl_ms=20000,
                 time_limit=300, max_paths=100000, lazy=False):
        self.lazy = lazy
        self.harness = harness
        self.params = params
        self.S = Session(feas_ms, obl_ms)
        self.time_limit = time_limit
        self.max_paths = max_paths
        self.stats = dict(paths=0, aborted=0, cut=0, branches=0,
                          obligations=0, discharged=0, unknown=0,
                          nontrivial=0)
        self.unknown_labels = []
        self.cex = []              # candidate counterexamples
        self.labels = {}
        self.exceptions = []
        self.samples = []
        self.reached = {}
        self.complete = False
        self.fail_fast = 6

    # ---- solver
    def _slice(self, ctx, target_vs, opaque=False):
        """constraints connected to target variables + definitions (opaque:
        without the definitions made by Ctx.name, a relaxation)"""
        S = self.S
        vs = set(target_vs)
        defs = []
        done = set()
        pend = list(ctx.pc)
        picked = []
        while True:
            new = [v for v in vs if isinstance(v, int) and v not in done]
            for v in new:
                done.add(v)
                info = S.vars[v]
                if info.defn and not (opaque and info.opaque):
                    defs.extend(info.defn)
                    vs |= info.deps
            rest = []
            changed = bool(new)
            for c in pend:
                if not vs.isdisjoint(c.vs):
                    picked.append(c.z)
                    if not c.vs <= vs:
                        vs |= c.vs
                    changed = True
                else:
                    rest.append(c)
            pend = rest
            if not changed:
                break
        return defs + picked

    def _local(self, ctx, vs):
        """only the constraints over the given variables (a relaxation)"""
        vs = {v for v in vs}
        out = []
        for v in vs:
            if isinstance(v, int):
                info = self.S.vars[v]
                if info.defn and info.deps <= vs:
                    out.extend(info.defn)
        out.extend(c.z for c in ctx.pc if c.vs <= vs)
        return out

    def _has_fp(self, vs):
        """theory of the query: doubles, strings, or reals (False)"""
        t = {v[:3] for v in vs if isinstance(v, str)}
        if 'str' in t and any(isinstance(v, str) and v.startswith('str:')
                              for v in vs):
            return 'str'
        return any(isinstance(v, str) and v.startswith('fp:') for v in vs)

    def solve(self, cons, timeout, fp=False, seed=0, want_model=False):
        S = self.S
        S.n_queries += 1
        t0 = time.time()
        if fp == 'str':
            s = z3.Solver()
        elif fp:
            s = z3.Then('simplify', 'fpa2bv', 'simplify', 'solve-eqs',
                        'bit-blast', 'sat').solver() if False else \
                z3.SolverFor('QF_FP')
        else:
            s = z3.Tactic('qfnra-nlsat').solver() if S.extra_sat == 'nlsat' \
                else z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout))
        if seed:
            s.set('random_seed', seed)
        s.add(*cons)
        r = s.check()
        if r == z3.unknown and not fp and S.has_floor:
            # integrality needs the general solver
            s = z3.Solver()
            s.set('timeout', int(timeout))
            s.add(*cons)
            r = s.check()
        S.t_solver += time.time() - t0
        out = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        if want_model:
            return out, (s.model() if r == z3.sat else None)
        return out

    def feasible(self, ctx, cond):
        S = self.S
        cons = self._slice(ctx, cond.vs, True) + [cond.z]
        k = frozenset(c.get_id() for c in cons)
        hit = S.query_cache.get(k)
        if hit is not None:
            return hit[0]
        fp = self._has_fp(cond.vs)
        r = _plain_words(cons) if fp == 'str' else None
        r = r or self.solve(cons, S.feas_ms, fp=fp)
        if r == 'unknown':
            if not self._has_fp(cond.vs) and self.linear(cons, 500):
                r = 'unsat'
            else:
                S.n_unknown_feas += 1
        res = r != 'unsat'
        S.query_cache[k] = (res, cons)
        return res

    def obligation(self, ctx, cond, label, margin):
        st = self.stats
        st['obligations'] += 1
        d = self.labels.setdefault(label, [0, 0, 0])
        d[0] += 1
        if not isinstance(cond, SBool):
            if cond:
                st['discharged'] += 1
                d[1] += 1
                return
            # violated on the whole path: any model of the path
            if self._record(ctx, label, None, None):
                st['discharged'] += 1
                d[1] += 1
            raise PathAbort()
        v = ctx.lookup(cond.z)
        if v is True:
            st['discharged'] += 1
            d[1] += 1
            return
        neg = b_not(cond)
        cons = self._slice(ctx, neg.vs) + [neg.z]
        st['nontrivial'] += 1
        k = ('o', frozenset(c.get_id() for c in cons))
        hit = self.S.query_cache.get(k)
        if hit is not None:
            r = hit[0]
        else:
            r = None
            if len(cons) > 8 and not self._has_fp(neg.vs):
                loc = self._local(ctx, neg.vs) + [neg.z]
                if len(loc) < len(cons):
                    if self.linear(loc, 1000) or \
                            self.solve(loc, 400) == 'unsat':
                        r = 'unsat'
                if r is None and any(v.opaque for v in self.S.vars):
                    opq = self._slice(ctx, neg.vs, True) + [neg.z]
                    if len(opq) < len(cons) and (
                            self.linear(opq, 1000) or
                            self.solve(opq, 3000) == 'unsat'):
                        r = 'unsat'
            r = r or self.prove(cons, fp=self._has_fp(neg.vs))
            self.S.query_cache[k] = (r, cons)
        if r == 'unsat':
            st['discharged'] += 1
            d[1] += 1
            ctx.add(cond)     # may be used afterwards on this path
            return
        if r == 'sat':
            if self._record(ctx, label, neg, margin):
                st['discharged'] += 1
                d[1] += 1
                ctx.add(cond)
                return
            # continue on the side where the obligation holds
            if not self.feasible(ctx, cond):
                raise PathAbort()
            ctx.add(cond)
            return
        st['unknown'] += 1
        d[2] += 1
        self.unknown_labels.append(label)

    def _linearised(self, e):
        """products of variables become variables"""
        memo = self.__dict__.setdefault('_lin', {})
        names = self.__dict__.setdefault('_lin_vars', {})

        def mono(e, out):
            if z3.is_mul(e):
                return all(mono(c, out) for c in e.children())
            if e.decl().kind() == z3.Z3_OP_POWER:
                k = e.arg(1)
                if not z3.is_rational_value(k):
                    return False
                for _ in range(int(k.as_fraction())):
                    if not mono(e.arg(0), out):
                        return False
                return True
            if z3.is_rational_value(e):
                out[0] *= e.as_fraction()
                return True
            if z3.is_const(e):
                out[1].append(e.get_id())
                return True
            return False

        def go(e):
            k = e.get_id()
            r = memo.get(k)
            if r is not None:
                return r[0]
            if z3.is_arith(e) and (z3.is_mul(e) or e.decl().kind() ==
                                   z3.Z3_OP_POWER):
                out = [Fraction(1), []]
                if mono(e, out):
                    if len(out[1]) > 1:
                        key = tuple(sorted(out[1]))
                        v = names.get(key)
                        if v is None:
                            v = names[key] = z3.Real(f'mono!{len(names)}')
                        r = z3num(out[0]) * v
                    else:
                        r = e
                else:
                    r = z3.Real(f'opaque!{k}')
            elif e.num_args():
                r = e.decl()(*[go(c) for c in e.children()])
            else:
                r = e
            memo[k] = (r, e)
            return r
        return go(e)

    def linear(self, cons, timeout):
        """refutation with nonlinear monomials as unknowns"""
        S = self.S
        S.n_queries += 1
        t0 = time.time()
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', int(timeout))
        s.add(*[self._linearised(c) for c in cons])
        r = s.check()
        S.t_solver += time.time() - t0
        return r == z3.unsat

    def prove(self, cons, fp=False):
        S = self.S
        t = S.obl_ms
        r = self.solve(cons, t if fp else min(t, 600), fp=fp)
        if r != 'unknown' or fp:
            return r
        if self.linear(cons, min(t, 3000)):
            return 'unsat'
        r = self.solve(cons, min(t, 4000), fp=fp)
        if r != 'unknown':
            return r
        S.n_queries += 1
        t0 = time.time()
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', int(t))
        s.add(*cons)
        r = s.check()
        S.t_solver += time.time() - t0
        if r != z3.unknown:
            return 'sat' if r == z3.sat else 'unsat'
        return self.solve(cons, t, fp=fp, seed=7)

    def _words(self, ctx, strs):
        """values of the symbolic strings, printable ones if possible"""
        names = [n for n in ctx.inputs if n in ctx.str_inputs]
        if not names:
            return {}
        pr = z3.Star(z3.Range('!', '~'))
        for nice in (True, False):
            s = z3.Solver()
            s.set('timeout', 8000)
            s.add(*[c.z for c in strs])
            if nice:
                s.add(*[z3.InRe(z3.String(n), pr) for n in names])
            self.S.n_queries += 1
            if s.check() == z3.sat:
                m = s.model()
                return {n: _z3str(m.eval(z3.String(n), model_completion=True))
                        for n in names}
        return None

    def _dead(self, ctx, extra=None):
        """the path (and extra) is proved infeasible"""
        every = list(ctx.pc) + ([] if extra is None else [extra])
        vs = set()
        for c in every:
            if self._has_fp(c.vs) == 'str':
                return False
            vs |= c.vs
        cons = self._slice(ctx, vs) + ([] if extra is None else [extra.z])
        return self.prove(cons, fp=self._has_fp(vs)) == 'unsat'

    # ---- counterexamples
    def _record(self, ctx, label, neg, strong):
        if sum(1 for c in self.cex if c['label'] == label) >= self.fail_fast:
            return
        m = None
        for st in strong or ():
            if st is False:
                continue
            m = self.model(ctx, st if neg is None else b_and(neg, st))
            if m is not None:
                break
        if m is None:
            m = self.model(ctx, neg)
        if m is None:
            # the query left out constraints over other variables
            if self._dead(ctx, neg):
                return True
            self.stats['unknown'] += 1
            self.unknown_labels.append(label + ' (no model)')
            return
        self.cex.append(dict(label=label, inputs=m,
                             params=self.params))

    def model(self, ctx, extra=None, nice=True, budget=12.0, observe=None):
        """floats for the inputs of this path (+extra), preferring short
        dyadic numbers so that the replay is exact where possible"""
        S = self.S
        every = list(ctx.pc) + ([extra] if extra is not None else [])
        strs = [c for c in every if self._has_fp(c.vs) == 'str']
        cons = [c.z for c in every if self._has_fp(c.vs) != 'str']
        vs = set()
        for c in every:
            if self._has_fp(c.vs) != 'str':
                vs |= c.vs
        words = self._words(ctx, strs)
        if words is None:
            return None
        for n in ctx.inputs:
            if n in S.by_name:
                vs.add(S.by_name[n])
        todo = [v for v in vs if isinstance(v, int)]
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            cons.extend(S.vars[v].defn)
            todo.extend(S.vars[v].deps)
        fp = self._has_fp(vs)
        if fp:
            s = z3.SolverFor('QF_FP') if not seen else z3.Solver()
        else:
            s = z3.Solver() if S.has_floor else z3.SolverFor('QF_NRA')
        s.set('timeout', 8000)
        s.add(*cons)
        t0 = time.time()
        r = s.check()
        S.n_queries += 1
        if r != z3.sat:
            if not fp:
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', 20000)
                s.add(*cons)
                r = s.check()
                S.n_queries += 1
            if r != z3.sat:
                S.t_solver += time.time() - t0
                return None
        m = s.model()
        if nice and not fp:
            m = self._nice(s, m, ctx, seen, budget)
        S.t_solver += time.time() - t0
        if observe is not None:
            for n, v in ctx.observed:
                observe[n] = self._value(m, v)
        out = {}
        for n in ctx.inputs:
            v = ctx.memo.get(n)
            if n in words:
                out[n] = words[n]
                continue
            if isinstance(v, float):
                out[n] = repr(v)
                continue
            if n + '!fin' in S.bools:
                fin = m.eval(S.bools[n + '!fin'], model_completion=True)
                if z3.is_false(fin):
                    isn = z3.is_true(m.eval(S.boolvar(n + '!nan'),
                                            model_completion=True))
                    pos = z3.is_true(m.eval(S.boolvar(n + '!pos'),
                                            model_completion=True))
                    allow = ctx.allow.get(n, ('nan', 'pinf', 'ninf'))
                    if 'nan' not in allow:
                        isn = False
                    elif len(allow) == 1:
                        isn = True
                    if 'pinf' not in allow:
                        pos = False
                    elif 'ninf' not in allow:
                        pos = True
                    out[n] = 'nan' if isn else 'inf' if pos else '-inf'
                    continue
            if n in S.by_name:
                val = m.eval(S.vars[S.by_name[n]].z, model_completion=True)
                out[n] = _z3float(val)
            elif n in S.bools:
                out[n] = bool(z3.is_true(m.eval(S.bools[n],
                                                model_completion=True)))
            elif n + '!fin' in S.bools or n in ctx.memo:
                out[n] = 0.5
            else:
                val = m.eval(z3.FP(n, F64), model_completion=True)
                out[n] = _z3fp(val)
        for k, v in ctx.memo.items():
            if k.startswith('choice:'):
                out[k] = v
        return out

    def _value(self, m, v):
        if isinstance(v, np.ndarray):
            return [self._value(m, e) for e in
                    np.asarray(v, dtype=object).ravel()]
        if isinstance(v, XVar):
            v = _C.memo.get(v.name, v)
        if isinstance(v, R):
            def ev(p):
                return m.eval(self.S.pz3(p), model_completion=True)
            t = _z3frac(ev(v.num))
            for f, e in v.den:
                d = _z3frac(ev(self.S.factors[f]))
                if d == 0:
                    return None
                t = t / d ** e
            try:
                return float(t)
            except OverflowError:
                return None
        if isinstance(v, FVal):
            return _z3fp(m.eval(v.z, model_completion=True))
        if isinstance(v, SBool):
            return bool(z3.is_true(m.eval(v.z, model_completion=True)))
        if isinstance(v, XVar):
            return None
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, (int, float, np.number)):
            return float(v)
        return None

    def _nice(self, s, m, ctx, seen, budget):
        """fix the inputs one by one to short dyadic values"""
        S = self.S
        t_end = time.time() + budget
        ins = []
        for n in ctx.inputs:
            i = S.by_name.get(n)
            if i is not None and i in seen:
                ins.append((n, i))
        s.set('timeout', 1000)

        def attempt(*cs):
            s.push()
            s.add(*cs)
            r = s.check()
            S.n_queries += 1
            if r == z3.sat:
                return s.model()
            s.pop()
            return None
        if ins:
            for bound in (8, 64):
                mm = attempt(*[z3.And(S.vars[i].z <= bound,
                                      S.vars[i].z >= -bound)
                               for n, i in ins if n not in ctx.int_inputs])
                if mm is not None:
                    m = mm
                    break
        for n, i in ins:
            if time.time() > t_end:
                break
            z = S.vars[i].z
            val = m.eval(z, model_completion=True)
            f = _z3frac(val)
            cands = []
            steps = (1,) if n in ctx.int_inputs else (1, 2, 4, 16, 256, 65536)
            for d in steps:
                for base in ((0,) if d > 1 or n in ctx.int_inputs
                             else (0,)):
                    k = round(f * d)
                    for kk in (k, k + 1, k - 1):
                        c = Fraction(kk, d)
                        if c not in cands:
                            cands.append(c)
            ok = False
            for c in cands[:10]:
                mm = attempt(z == z3num(P.norm_c(c)))
                if mm is not None:
                    m = mm
                    ok = True
                    break
                if time.time() > t_end:
                    break
            if not ok:
                pass
        return m

    # ---- exploration
    def run(self, F, prefixes=None, slice_s=None, on_cex=None):
        global _S, _C
        t0 = time.time()
        deadline = t0 + self.time_limit
        work = list(prefixes) if prefixes else [[]]
        self.complete = True
        self.leftover = []
        S = self.S
        while work:
            if self.stats['paths'] >= self.max_paths or \
                    time.time() > deadline:
                self.complete = False
                break
            if slice_s is not None and time.time() - t0 > slice_s and \
                    len(work) > 1:
                self.leftover = work
                break
            prefix = work.pop()
            c = Ctx(self, prefix, deadline)
            c.int_inputs = set()
            c.str_inputs = set()
            c.str_pinned = {}
            _S, _C = S, c
            try:
                try:
                    self.harness(c, F(), **self.params)
                    self.stats['paths'] += 1
                    self._finish(c)
                except PathAbort:
                    self.stats['aborted'] += 1
                except BoundReached:
                    self.stats['cut'] += 1
                except Budget:
                    self.complete = False
                    break
                except Exception as e:       # noqa: BLE001
                    self.stats['paths'] += 1
                    self._exception(c, e)
            finally:
                c.undo_patches()
            self.stats['branches'] += c.branches
            for k in range(len(c.trace) - 1, len(prefix) - 1, -1):
                val, forced = c.trace[k]
                if not forced:
                    work.append(c.trace[:k] + [(not val, False)])
            if self.cex or self.exceptions:
                self.leftover = work
                self.complete = False
                self.stopped_on_cex = True
                break
        self.wall = time.time() - t0
        _C = None

    stopped_on_cex = False

    def _finish(self, c):
        for r in c.reached:
            self.reached[r] = self.reached.get(r, 0) + 1
        n = self.stats['paths']
        if len(self.samples) < 3 and (n in (1, 2) or n % 37 == 0):
            obs = {}
            m = self.model(c, None, budget=3.0, observe=obs)
            if m is not None:
                self.samples.append(dict(inputs=m, params=self.params,
                                         observed=obs, label=None,
                                         degenerate=_degenerate(c)))

    def _exception(self, c, e):
        import traceback
        tb = traceback.format_exc()
        if len(self.exceptions) >= 8:
            return
        m = self.model(c, None)
        if m is None and self._dead(c):
            self.stats['aborted'] += 1
            return
        self.exceptions.append(dict(
            type=type(e).__name__, msg=str(e)[:300], tb=tb[-3000:],
            inputs=m, params=self.params,
            unsupported=isinstance(e, Unsupported)))


def _degenerate(c):
    """the path requires an exact equality of reals: rounding may lead the
    real code along another path"""
    todo = [x.z for x in c.pc]
    while todo:
        z = todo.pop()
        if z3.is_and(z):
            todo.extend(z.children())
        elif z3.is_eq(z) and z3.is_arith(z.arg(0)):
            return True
    return False


def _z3frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


def _z3float(v):
    f = _z3frac(v)
    try:
        return float(f)
    except OverflowError:
        return math.copysign(1e300, f)


def _z3fp(v):
    if z3.is_fp_value(v) or hasattr(v, 'isNaN'):
        if v.isNaN():
            return 'nan'
        if v.isInf():
            return '-inf' if v.isNegative() else 'inf'
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        s = -1.0 if v.sign() else 1.0
        sig = v.significand_as_long()
        ex = v.exponent_as_long(False)
        if v.isSubnormal():
            return s * math.ldexp(sig, -1074)
        return s * math.ldexp(sig + (1 << 52), ex - 52)
    return 0.0


WS = ' \t\n\r\x0b\x0c'


class SymStr:
    """symbolic string (options validation); no str subclass on purpose.

    Case changes and stripping are kept as a list of transformations; the
    comparison with a constant becomes membership in a regular language."""
    __slots__ = ('z', 'vs', 'name', 'ops')
    vocab = frozenset()        # every short string constant of the package

    def __init__(self, name, ops=()):
        self.name = name
        self.ops = ops
        self.z = z3.String(name)
        self.vs = frozenset(['str:' + name])

    def _const(self, s):
        """z3 condition for: self, transformed, equals s"""
        if not self.ops:
            return self.z == z3.StringVal(s)
        ws = z3.Star(z3.Union(*[z3.Re(z3.StringVal(w)) for w in WS]))
        left, right, fold = False, False, False
        for op in self.ops:
            if op in ('lower', 'casefold'):
                if s != s.lower():
                    return z3.BoolVal(False)
                fold = True
            elif op == 'upper':
                if s != s.upper():
                    return z3.BoolVal(False)
                fold = True
            elif op in ('strip', 'lstrip', 'rstrip'):
                if s != getattr(s, op)():
                    return z3.BoolVal(False)
                left |= op != 'rstrip'
                right |= op != 'lstrip'
        parts = [ws] if left else []
        for ch in s:
            alts = sorted({ch, ch.lower(), ch.upper()}) if fold else [ch]
            alts = [z3.Re(z3.StringVal(a)) for a in alts]
            parts.append(alts[0] if len(alts) == 1 else z3.Union(*alts))
        parts += [ws] if right else []
        if not parts:
            parts = [z3.Re(z3.StringVal(''))]
        return z3.InRe(self.z, parts[0] if len(parts) == 1
                       else z3.Concat(*parts))

    def __eq__(self, o):
        if isinstance(o, SymStr):
            if self.ops or o.ops:
                if self.name == o.name and self.ops == o.ops:
                    return True
                raise Unsupported('comparison of transformed strings')
            return self is o or SBool(self.z == o.z, self.vs | o.vs)
        if isinstance(o, str):
            s = str.__str__(o.value) if hasattr(o, 'value') else o
            if not self.ops and _C is not None and \
                    self.name in _C.str_pinned:
                return _C.str_pinned[self.name] == s
            return SBool(z3.simplify(self._const(s)), self.vs)
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        for w in sorted(self.vocab):
            if bool(self == w):
                return hash(w)
        return hash(('symbolic string', self.name, self.ops))

    def pinned(self):
        for w in sorted(self.vocab):
            e = self == w
            if e is True:
                return w
            if isinstance(e, SBool) and _C is not None and \
                    _C.lookup(e.z) is True:
                return w
        raise Unsupported('value of a symbolic string')

    def _op(self, name):
        return SymStr(self.name, self.ops + (name,))

    def lower(self):
        return self._op('lower')

    def casefold(self):
        return self._op('casefold')

    def upper(self):
        return self._op('upper')

    def strip(self):
        return self._op('strip')

    def lstrip(self):
        return self._op('lstrip')

    def rstrip(self):
        return self._op('rstrip')

    def _plain(self):
        if self.ops:
            raise Unsupported('test of a transformed string')
        return self.z

    def startswith(self, p):
        return SBool(z3.PrefixOf(z3.StringVal(str(p)), self._plain()),
                     self.vs)

    def endswith(self, p):
        return SBool(z3.SuffixOf(z3.StringVal(str(p)), self._plain()),
                     self.vs)

    def __contains__(self, p):
        return bool(SBool(z3.Contains(self._plain(), z3.StringVal(str(p))),
                          self.vs))

    def __bool__(self):
        return bool(SBool(self._plain() != z3.StringVal(''), self.vs))

    def __getattr__(self, k):
        if k.startswith('__') or not hasattr(str, k):
            raise AttributeError(k)
        return getattr(self.pinned(), k)

    def __format__(self, spec):
        return '<str>'

    def __repr__(self):
        return '<str>'

    def __str__(self):
        return self.pinned()


def _plain_words(cons):
    """decides equalities and inequalities with constants (None: more)"""
    eq, ne = {}, {}
    for c in cons:
        neg = z3.is_not(c)
        e = c.arg(0) if neg else c
        if not z3.is_eq(e):
            return None
        a, b = e.children()
        if z3.is_string_value(a):
            a, b = b, a
        if not z3.is_string_value(b) or not z3.is_const(a):
            return None
        k, v = a.get_id(), b.as_string()
        if neg:
            ne.setdefault(k, set()).add(v)
        elif eq.setdefault(k, v) != v:
            return 'unsat'
    return 'unsat' if any(v in ne.get(k, ()) for k, v in eq.items()) \
        else 'sat'


def _z3str(v):
    s = v.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}',
                  lambda m: chr(int(m.group(1), 16)), s)
