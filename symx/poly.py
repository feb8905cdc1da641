"""Sparse multivariate polynomials with rational coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of
(variable index, exponent); coefficients are int or Fraction (normalised to int
when integral).  All operations are exact, so the encoding of real arithmetic
is canonical: two expressions that are equal as polynomials are the same dict.
"""
from fractions import Fraction
from math import gcd, isqrt

ONE = ()


def norm_c(c):
    if type(c) is int:
        return c
    if c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm_c(c if type(c) is int else Fraction(c))
    return {ONE: c} if c else {}


def var(i):
    return {((i, 1),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_val(p):
    return p.get(ONE, 0)


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = norm_c(v + c)
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: norm_c(c * k) for m, c in p.items()}


_mm_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _mm_cache.get(key)
    if r is None:
        d = dict(a)
        for v, e in b:
            d[v] = d.get(v, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mm_cache) > 2000000:
            _mm_cache.clear()
        _mm_cache[key] = r
    return r


def mono_div(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    return {m: norm_c(c) for m, c in r.items() if c}


def power(p, n):
    r = {ONE: 1}
    for _ in range(n):
        r = mul(r, p)
    return r


def key(p):
    return frozenset(p.items())


def variables(p):
    return {v for m in p for v, _ in m}


def content(p):
    """positive rational c with p/c primitive integer polynomial"""
    num = 0
    den = 1
    for c in p.values():
        if type(c) is int:
            num = gcd(num, c)
        else:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
    # gcd of numerators over lcm of denominators
    if den != 1:
        num = 0
        for c in p.values():
            num = gcd(num, int(c * den))
        return norm_c(Fraction(num, den))
    return num if num else 1


def mono_content(p):
    it = iter(p)
    try:
        d = dict(next(it))
    except StopIteration:
        return ONE
    for m in it:
        if not d:
            return ONE
        md = dict(m)
        for v in list(d):
            e = min(d[v], md.get(v, 0))
            if e:
                d[v] = e
            else:
                del d[v]
    return tuple(sorted(d.items()))


def div_mono(p, m):
    if not m:
        return p
    return {mono_div(a, m): c for a, c in p.items()}


def _deg(m):
    return sum(e for _, e in m)


def lead(p):
    """leading monomial: graded lexicographic"""
    return max(p, key=_mono_order)


def _mono_order(m):
    # graded lex with lower index = bigger variable
    return (_deg(m), tuple((-v, e) for v, e in m))


def exact_div(p, q, limit=4000):
    """p / q if exact, else None (multivariate division)"""
    if not q:
        return None
    if is_const(q):
        c = const_val(q)
        return {m: norm_c(Fraction(v) / c) for m, v in p.items()}
    if not p:
        return {}
    if len(q) == 1:
        (mq, cq), = q.items()
        r = {}
        for m, c in p.items():
            d = mono_div(m, mq)
            if d is None:
                return None
            r[d] = norm_c(Fraction(c) / cq)
        return r
    vq = variables(q)
    if not vq <= variables(p):
        return None
    # lexicographic order w.r.t. one main variable keeps it a valid order
    order = sorted(variables(p))
    idx = {v: i for i, v in enumerate(order)}
    n = len(order)

    def lexkey(m):
        t = [0] * n
        for v, e in m:
            t[idx[v]] = e
        return tuple(t)
    lq = max(q, key=lexkey)
    cq = q[lq]
    rem = dict(p)
    quo = {}
    steps = 0
    import heapq
    heap = [tuple(-x for x in lexkey(m)) + (m,) for m in rem]
    heapq.heapify(heap)
    seen = set(rem)
    while heap:
        t = heapq.heappop(heap)
        m = t[-1]
        seen.discard(m)
        c = rem.get(m)
        if c is None:
            continue
        d = mono_div(m, lq)
        if d is None:
            return None
        steps += 1
        if steps > limit:
            return None
        k = norm_c(Fraction(c) / cq)
        quo[d] = k
        for mq, cc in q.items():
            mm = mono_mul(d, mq)
            v = rem.get(mm, 0) - k * cc
            if v:
                rem[mm] = norm_c(v)
                if mm not in seen:
                    seen.add(mm)
                    heapq.heappush(heap, tuple(-x for x in lexkey(mm)) + (mm,))
            else:
                rem.pop(mm, None)
    return quo


def perfect_sqrt_rat(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm_c(Fraction(a, b))
    return None


def evaluate(p, env):
    """evaluate with env: var index -> number"""
    tot = 0
    for m, c in p.items():
        t = c
        for v, e in m:
            t = t * env[v] ** e
        tot = tot + t
    return tot


def poly_sqrt(p):
    """q with q*q == p, or None (exact)"""
    if not p:
        return {}
    if is_const(p):
        c = perfect_sqrt_rat(const_val(p))
        return None if c is None else const(c)
    order = sorted(variables(p))
    idx = {v: i for i, v in enumerate(order)}
    n = len(order)

    def lexkey(m):
        t = [0] * n
        for v, e in m:
            t[idx[v]] = e
        return tuple(t)
    lm = max(p, key=lexkey)
    if any(e % 2 for _, e in lm):
        return None
    c = perfect_sqrt_rat(p[lm])
    if c is None:
        return None
    lead_m = tuple((v, e // 2) for v, e in lm)
    q = {lead_m: c}
    for _ in range(40):
        rem = sub(p, mul(q, q))
        if not rem:
            return q
        m = max(rem, key=lexkey)
        d = mono_div(m, lead_m)
        if d is None:
            return None
        if d in q:
            return None
        q = add(q, {d: norm_c(Fraction(rem[m]) / (2 * c))})
    return None
