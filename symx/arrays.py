"""Arrays of symbolic numbers.

SArr is an object-dtype numpy array whose every operation is carried out
element by element on the symbolic (or concrete) entries with the semantics
numpy has for float64 ('f'), int64 ('i') or bool ('b') arrays.  Structure
(views, aliasing, in-place updates, broadcasting, indexing) is numpy's own.
"""
import builtins
import math
import operator

import numpy as np

from . import engine as E
from .engine import (FVal, R, SBool, SymNum, Unsupported, XVar, b_and, b_not,
                     b_or, is_sym)

_nd_dtype = np.ndarray.dtype.__get__
OBJ = np.dtype(object)


class UFuncCasting(TypeError):
    """numpy.exceptions._UFuncOutputCastingError"""


def raw(a):
    """plain object ndarray sharing memory with a"""
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def conc(x):
    """scalar leaving an array: numpy scalar semantics for concrete values"""
    if isinstance(x, float) and not isinstance(x, np.floating):
        return np.float64(x)
    return x


class SArr(np.ndarray):
    kind = 'f'

    @staticmethod
    def make(data, kind='f'):
        a = np.empty(_shape(data), dtype=object)
        _fill(a, data)
        r = a.view(SArr)
        r.kind = kind
        return r

    def __array_finalize__(self, obj):
        if obj is not None:
            k = getattr(obj, 'kind', None)
            if k is not None:
                self.kind = k
            elif isinstance(obj, np.ndarray):
                dk = _nd_dtype(obj).kind
                if dk in 'fib':
                    self.kind = dk

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int),
                'b': np.dtype(bool)}.get(self.kind, OBJ)

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    # ---- indexing
    def __getitem__(self, ix):
        if _lazy_mask(self, ix):
            return MArr(self, ix)
        ix = _index(ix)
        r = raw(self)[ix]
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not _keeps0d(ix):
                return conc(r[()])
            r = r.view(SArr)
            r.kind = self.kind
            if self.kind == 'b':
                return _boolres(r)
            return r
        return conc(r)

    def __setitem__(self, ix, val):
        if self.kind == 'f' and _lazy_mask(self, ix) and \
                _masked_store(self, ix, val):
            return
        ix = _index(ix)
        if isinstance(val, MArr):
            val = val._conc()
        if isinstance(val, (list, tuple)):
            val = to_sarr(val)
        if self.kind == 'i':
            val = _store_int(val)
        elif isinstance(val, np.ndarray) and not isinstance(val, SArr):
            val = val.astype(object)
        elif isinstance(val, SBool) and self.kind == 'f':
            val = E.b2n(val)
        if isinstance(val, SArr):
            if val.kind == 'b' and self.kind == 'f':
                val = val.astype(float)
            val = raw(val)
            if np.shares_memory(val, raw(self)):
                val = val.copy()
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = val[()]
        if isinstance(val, np.ndarray):
            raw(self)[ix] = val
        else:
            tgt = raw(self)
            sub = tgt[ix]
            if isinstance(sub, np.ndarray) and not (
                    isinstance(ix, tuple) and len(ix) == tgt.ndim
                    and all(isinstance(i, (int, np.integer)) for i in ix)):
                f = np.empty(sub.shape, dtype=object)
                for k in np.ndindex(sub.shape):
                    f[k] = val
                tgt[ix] = f
            else:
                tgt[ix] = val

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).ravel()[0])
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(raw(self).ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __int__(self):
        if self.size == 1:
            return int(raw(self).ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __format__(self, spec):
        if spec:
            raise TypeError('unsupported format string passed to '
                            'numpy.ndarray.__format__')
        return '<sarr>'

    def __repr__(self):
        return 'SArr' + repr(raw(self))

    __str__ = __repr__

    # ---- methods
    def _m(name):      # noqa: N805
        f = getattr(np, name)

        def method(self, *a, **k):
            return array_function(f, (self,) + a, k)
        method.__name__ = name
        return method

    for _n in ('sum', 'prod', 'max', 'min', 'argmin', 'argmax', 'mean', 'all',
               'any', 'dot', 'clip', 'round', 'cumsum', 'trace', 'argsort',
               'diagonal', 'std', 'var', 'ptp', 'nonzero', 'take', 'sort',
               'repeat', 'squeeze', 'compress'):
        if hasattr(np, _n):
            locals()[_n] = _m(_n)
    del _n, _m

    def sort(self, *a, **k):
        self[...] = array_function(np.sort, (self,) + a, k)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return conc(raw(self).item(*a))

    def tolist(self):
        return raw(self).tolist()

    def conj(self):
        return self.copy()

    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SArr.make(np.zeros(self.shape))

    def astype(self, dt, *a, **k):
        return _astype(self, dt, copy=k.get('copy', True))

    def copy(self, order='C'):
        r = raw(self).copy().view(SArr)
        r.kind = self.kind
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling symbolic arrays')


def _lazy_mask(a, ix):
    return (type(ix) is SArr and ix.kind == 'b' and E._C is not None
            and E._C.lazy and a.ndim == 1 and ix.shape == a.shape
            and any(isinstance(e, SBool) for e in raw(ix)))


def _mask_key(m):
    return tuple(e.z.get_id() if isinstance(e, SBool) else bool(e)
                 for e in raw(m))


def _masked_store(a, ix, val):
    if isinstance(val, MArr):
        if _mask_key(val._mask) != _mask_key(ix):
            return False
        vals = [val._full[i] for i in range(len(a))]
    elif isinstance(val, np.ndarray):
        if val.size != 1 or val.ndim:
            return False
        vals = [raw(to_sarr(val))[()]] * len(a)
    elif isinstance(val, (list, tuple)):
        return False
    else:
        vals = [val] * len(a)
    r, m = raw(a), raw(ix)
    for i in range(len(a)):
        r[i] = E.lazy_ite(m[i], E.b2n(vals[i]) if isinstance(
            vals[i], (SBool, bool)) else vals[i], r[i])
    return True


class MArr:
    """a[mask] with a symbolic mask: kept at full length while only combined
    element by element with scalars or arrays under the same mask"""
    __slots__ = ('_full', '_mask', '_c')
    __array_priority__ = 1000

    def __init__(self, full, mask):
        self._full = full.copy()
        self._mask = mask
        self._c = None

    def _conc(self):
        if self._c is None:
            self._c = self._full[concretise(self._mask)]
        return self._c

    def _op(self, f, o, swap=False):
        a = self._full
        if isinstance(o, MArr) and _mask_key(o._mask) == \
                _mask_key(self._mask):
            b = o._full
        elif isinstance(o, (int, float, np.number)) or is_sym(o):
            b = o
        else:
            a = self._conc()
            b = o._conc() if isinstance(o, MArr) else o
            return f(b, a) if swap else f(a, b)
        return MArr(f(b, a) if swap else f(a, b), self._mask)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == '__call__' and not kw:
            keys = {_mask_key(i._mask) for i in inputs if isinstance(i, MArr)}
            if len(keys) == 1 and all(
                    isinstance(i, (MArr, int, float, np.number)) or is_sym(i)
                    for i in inputs):
                r = ufunc(*[i._full if isinstance(i, MArr) else i
                            for i in inputs])
                return MArr(to_sarr(r), self._mask)
        return getattr(ufunc, method)(
            *[i._conc() if isinstance(i, MArr) else i for i in inputs], **kw)

    def __array_function__(self, func, types, args, kwargs):
        def cv(v):
            if isinstance(v, MArr):
                return v._conc()
            if isinstance(v, (list, tuple)):
                return type(v)(cv(e) for e in v)
            return v
        return func(*[cv(a) for a in args],
                    **{k: cv(v) for k, v in kwargs.items()})

    def __getattr__(self, name):
        return getattr(self._conc(), name)

    def __neg__(self):
        return MArr(-self._full, self._mask)

    def __abs__(self):
        return MArr(abs(self._full), self._mask)

    def __len__(self):
        return len(self._conc())

    def __iter__(self):
        return iter(self._conc())

    def __getitem__(self, ix):
        return self._conc()[ix]

    def __bool__(self):
        return bool(self._conc())

    def __format__(self, spec):
        return format(self._full, spec)

    def __str__(self):
        return str(self._full)

    __hash__ = None


def _marr_ops():
    for nm in ('add', 'sub', 'mul', 'truediv', 'pow', 'lt', 'le', 'gt', 'ge',
               'eq', 'ne', 'and_', 'or_', 'matmul'):
        f = getattr(operator, nm)
        d = nm.rstrip('_')
        setattr(MArr, f'__{d}__', lambda a, b, f=f: a._op(f, b))
        if nm not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            setattr(MArr, f'__r{d}__', lambda a, b, f=f: a._op(f, b, True))


_marr_ops()


def _keeps0d(ix):
    return ix is Ellipsis or (isinstance(ix, tuple) and Ellipsis in
                              [i for i in ix if not isinstance(i, np.ndarray)])


def _shape(d):
    if isinstance(d, np.ndarray):
        return d.shape
    if isinstance(d, (list, tuple)):
        if not len(d):
            return (0,)
        s = _shape(d[0])
        for e in d[1:]:
            if _shape(e) != s:
                raise ValueError('setting an array element with a sequence. '
                                 'The requested array has an inhomogeneous '
                                 'shape')
        return (len(d),) + s
    return ()


def _fill(a, d):
    if a.ndim == 0:
        if isinstance(d, np.ndarray):
            d = raw(d)[()]
        a[()] = d
        return
    if isinstance(d, np.ndarray):
        a[...] = raw(d) if isinstance(d, SArr) else d.astype(object)
        return
    for i, e in enumerate(d):
        if a.ndim == 1:
            if isinstance(e, np.ndarray):
                e = raw(e)[()]
            a[i] = e
        else:
            _fill(a[i], e)


def _index(ix):
    """indices with symbolic conditions are made concrete by branching"""
    if isinstance(ix, tuple):
        return tuple(_index(i) for i in ix)
    if isinstance(ix, SArr):
        if ix.kind == 'b':
            return concretise(ix)
        return np.array([_int(e) for e in raw(ix).ravel()],
                        dtype=int).reshape(ix.shape)
    if isinstance(ix, SBool):
        return bool(ix)
    if isinstance(ix, list):
        if any(isinstance(e, SBool) for e in ix):
            return np.array([bool(e) for e in ix], dtype=bool)
        return ix
    if isinstance(ix, SymNum):
        return _int(ix)
    return ix


def _int(e):
    if isinstance(e, R):
        if e.is_const():
            return int(e.const_val())
        raise Unsupported('symbolic index')
    return int(e)


def concretise(a):
    r = raw(a)
    out = np.empty(r.shape, dtype=bool)
    for k in np.ndindex(r.shape):
        out[k] = bool(r[k])
    return out


def _boolres(a):
    """bool array, a plain numpy one if no entry is symbolic"""
    r = raw(a)
    for e in r.ravel():
        if isinstance(e, SBool):
            o = r.view(SArr)
            o.kind = 'b'
            return o
    return r.astype(bool)


def _store_int(val):
    if isinstance(val, np.ndarray):
        k = kind_of(val)
        if k in 'ib':
            return raw(val).astype(object)
        r = raw(val).astype(object)
        o = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            o[i] = _trunc(r[i], False)
        return o
    return _trunc(val, True)


def _trunc(v, scalar):
    if isinstance(v, XVar):
        v = v.f()
    if isinstance(v, R):
        return E.xtrunc(v)
    if isinstance(v, FVal):
        raise Unsupported('truncation of a symbolic double')
    if isinstance(v, SBool):
        return int(bool(v))
    v = float(v)
    if not math.isfinite(v):
        if scalar:
            if math.isnan(v):
                raise ValueError('cannot convert float NaN to integer')
            raise OverflowError('cannot convert float infinity to integer')
        return -2 ** 63
    return int(v)


def kind_of(a):
    if isinstance(a, SArr):
        return a.kind
    if isinstance(a, np.ndarray):
        k = _nd_dtype(a).kind
        return {'u': 'i', 'c': 'f', 'O': 'f'}.get(k, k)
    if isinstance(a, (bool, np.bool_, SBool)):
        return 'b'
    if isinstance(a, (int, np.integer)):
        return 'i'
    if isinstance(a, R):
        return 'f'
    return 'f'


def has_sym(x, depth=0):
    if isinstance(x, (SymNum, SBool)):
        return True
    if isinstance(x, np.ndarray):
        if _nd_dtype(x) != OBJ:
            return False
        return any(isinstance(e, (SymNum, SBool)) for e in raw(x).ravel())
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    if depth < 2 and isinstance(x, dict):
        return any(has_sym(e, depth + 1) for e in x.values())
    return False


def any_sarr(x, depth=0):
    if isinstance(x, (SymNum, SBool, SArr)):
        return True
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(any_sarr(e, depth + 1) for e in x)
    if depth < 2 and isinstance(x, dict):
        return any(any_sarr(e, depth + 1) for e in x.values())
    return False


def to_sarr(x, kind=None):
    if isinstance(x, MArr):
        x = x._conc()
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        r = x.astype(object).view(SArr)
        r.kind = kind or kind_of(x)
        return r
    if isinstance(x, (list, tuple)):
        ks = {kind_of(e) for e in _leaves(x)}
        k = 'f' if 'f' in ks else 'i' if 'i' in ks else 'b' if ks else 'f'
        return SArr.make(x, kind or k)
    return SArr.make(x, kind or kind_of(x))


def _leaves(x):
    if isinstance(x, (list, tuple)):
        for e in x:
            yield from _leaves(e)
    elif isinstance(x, np.ndarray):
        yield x
    else:
        yield x


def to_real(x, depth=0):
    """concrete counterpart (no symbolic entries)"""
    if isinstance(x, SArr):
        dt = {'f': float, 'i': int, 'b': bool}[x.kind]
        return np.array(raw(x).tolist(), dtype=dt).reshape(x.shape)
    if depth < 4 and type(x) in (list, tuple):
        return type(x)(to_real(e, depth + 1) for e in x)
    return x


def from_real(x, depth=0):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        k = _nd_dtype(x).kind
        if k == 'f':
            return to_sarr(np.asarray(x))
        if k == 'c':
            if np.all(x.imag == 0):
                return to_sarr(np.asarray(x.real))
            raise Unsupported('complex array')
        return x
    if depth < 2 and type(x) in (list, tuple):
        return type(x)(from_real(e, depth + 1) for e in x)
    return x


def _astype(a, dt, copy=True):
    if dt is None:
        return a.copy() if copy else a
    if isinstance(dt, np.dtype) and dt == OBJ or dt is object:
        return a.copy()
    k = np.dtype(dt).kind
    k = {'u': 'i', 'c': 'f'}.get(k, k)
    if k == a.kind and not copy:
        return a
    src = raw(a)
    out = np.empty(src.shape, dtype=object)
    for i in np.ndindex(src.shape):
        v = src[i]
        if k == 'f':
            if isinstance(v, (SBool, bool, np.bool_)):
                v = E.b2n(v)
            elif isinstance(v, (int, np.integer)):
                v = float(v)
        elif k == 'i':
            v = v if a.kind == 'i' else _trunc(v, False)
        elif k == 'b':
            v = v if a.kind == 'b' else (v != 0)
        out[i] = v
    r = out.view(SArr)
    r.kind = k
    if k == 'b':
        return _boolres(r)
    return r


# --------------------------------------------------------------------------
# scalar semantics of ufuncs


def _f(v):
    return np.float64(v) if isinstance(v, (float, int, np.integer, bool,
                                           np.bool_)) else v


def _bin(op):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            if isinstance(a, SBool):
                a = E.b2n(a)
            if isinstance(b, SBool):
                b = E.b2n(b)
            return op(a, b)
        with np.errstate(all='ignore'):
            return op(a, b)
    return f


def _div(a, b):
    if isinstance(a, SBool):
        a = E.b2n(a)
    if isinstance(b, SBool):
        b = E.b2n(b)
    if is_sym(a) or is_sym(b):
        return operator.truediv(a, b)
    with np.errstate(all='ignore'):
        return _f(a) / _f(b)


def _cmp(op):
    def f(a, b):
        r = op(a, b)
        if r is NotImplemented:
            raise Unsupported('comparison')
        return r if isinstance(r, SBool) else bool(r)
    return f


def _un(sym, rf):
    def f(a):
        if is_sym(a):
            return sym(a)
        with np.errstate(all='ignore'):
            return rf(_f(a))
    return f


def _truth(a):
    if isinstance(a, SBool):
        return a
    if isinstance(a, SymNum):
        return a != 0
    return bool(a)


def _bitand(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return b_and(a, b)
    return operator.and_(a, b)


def _bitor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return b_or(a, b)
    return operator.or_(a, b)


def _invert(a):
    if isinstance(a, (SBool, bool, np.bool_)):
        return b_not(a)
    return ~a


def _unsup(name):
    def f(*a):
        raise Unsupported(f'{name} of a symbolic number')
    return f


def _mm(symf, rf):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            return symf(a, b)
        return rf(a, b)
    return f


def _spacing(a):
    raise Unsupported('spacing of a symbolic number')


def _recip(a):
    return _div(1.0, a)


def _hypot(a, b):
    return E.xsqrt(a * a + b * b)


def _sq(a):
    return a * a


def _pow(a, b):
    if is_sym(a) or is_sym(b):
        return E.xpow(a, b)
    with np.errstate(all='ignore'):
        return np.power(_f(a) if isinstance(b, float) or
                        (isinstance(b, (int, np.integer)) and b < 0) else a, b)


BIN = {
    np.add: _bin(operator.add), np.subtract: _bin(operator.sub),
    np.multiply: _bin(operator.mul), np.true_divide: _div,
    np.power: _pow, np.float_power: _pow,
    np.maximum: _mm(E.xmaximum, np.maximum),
    np.minimum: _mm(E.xminimum, np.minimum),
    np.fmax: _mm(E.xfmax, np.fmax), np.fmin: _mm(E.xfmin, np.fmin),
    np.less: _cmp(operator.lt), np.less_equal: _cmp(operator.le),
    np.greater: _cmp(operator.gt), np.greater_equal: _cmp(operator.ge),
    np.equal: _cmp(operator.eq), np.not_equal: _cmp(operator.ne),
    np.logical_and: lambda a, b: b_and(_truth(a), _truth(b)),
    np.logical_or: lambda a, b: b_or(_truth(a), _truth(b)),
    np.logical_xor: lambda a, b: b_or(
        b_and(_truth(a), b_not(_truth(b))),
        b_and(b_not(_truth(a)), _truth(b))),
    np.bitwise_and: _bitand, np.bitwise_or: _bitor,
    np.copysign: _mm(E.xcopysign, np.copysign),
    np.hypot: _hypot,
    np.remainder: _mm(E.xmod, np.remainder),
}
UN = {
    np.negative: _un(operator.neg, np.negative),
    np.positive: lambda a: a,
    np.absolute: _un(E.xabs, np.absolute), np.fabs: _un(E.xabs, np.fabs),
    np.sign: _un(E.xsign, np.sign), np.sqrt: _un(E.xsqrt, np.sqrt),
    np.square: _sq, np.reciprocal: _recip,
    np.isfinite: E.xisfinite, np.isnan: E.xisnan, np.isinf: E.xisinf,
    np.logical_not: lambda a: b_not(_truth(a)),
    np.invert: _invert, np.conjugate: lambda a: a,
    np.spacing: _un(_spacing, np.spacing),
    np.floor: _un(E.xfloor, np.floor), np.trunc: _un(E.xtrunc, np.trunc),
    np.ceil: _un(lambda a: -E.xfloor(-a), np.ceil),
    np.exp: _un(_unsup('exp'), np.exp), np.log: _un(_unsup('log'), np.log),
    np.log10: _un(_unsup('log10'), np.log10),
    np.signbit: _un(lambda a: a < 0, np.signbit),
}
BOOLRES = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal,
           np.not_equal, np.logical_and, np.logical_or, np.logical_xor,
           np.logical_not, np.isfinite, np.isnan, np.isinf, np.signbit}
FLOATRES = {np.true_divide, np.sqrt, np.fabs, np.float_power, np.hypot,
            np.copysign, np.spacing, np.exp, np.log, np.log10, np.reciprocal}
IDENT = {np.add: 0.0, np.multiply: 1.0, np.logical_and: True,
         np.logical_or: False, np.bitwise_and: True, np.bitwise_or: False}


def _reskind(uf, args):
    if uf in BOOLRES:
        return 'b'
    if uf in FLOATRES:
        return 'f'
    ks = {kind_of(a) for a in args}
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    if uf in (np.bitwise_and, np.bitwise_or, np.invert):
        return 'b'
    return 'i' if uf in (np.add, np.multiply, np.subtract) else 'b'


def _asobj(x):
    if isinstance(x, MArr):
        x = x._conc()
    if isinstance(x, SArr):
        return raw(x)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return raw(to_sarr(x))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def apply_ufunc(uf, method, inputs, kw):
    if any(type(i).__name__ == 'SparseM' for i in inputs):
        return NotImplemented
    if uf is np.matmul and method == '__call__':
        r = x_matmul(*inputs)
        return _into(kw.get('out'), r)
    if uf is np.divmod or uf is np.floor_divide:
        raise Unsupported(f'ufunc {uf.__name__}')
    if method == '__call__':
        f = BIN.get(uf) if uf.nin == 2 else UN.get(uf)
        if f is None:
            if not has_sym(list(inputs)):
                return from_real(uf(*[to_real(i) for i in inputs]))
            raise Unsupported(f'ufunc {uf.__name__}')
        dt = kw.get('dtype')
        where = kw.get('where', True)
        out = kw.get('out')
        if isinstance(out, tuple):
            out = out[0]
        arrs = np.broadcast_arrays(*[_asobj(i) for i in inputs],
                                   subok=False)
        shape = arrs[0].shape
        kind = _reskind(uf, inputs)
        if out is not None and isinstance(out, SArr):
            ok = {'f': 'fib', 'i': 'ib', 'b': 'b'}[out.kind]
            if kind not in ok:
                raise UFuncCasting(
                    f"Cannot cast ufunc '{uf.__name__}' output from "
                    f"dtype('{kind}') to dtype('{out.kind}') with casting "
                    f"rule 'same_kind'")
        if where is not True:
            where = np.broadcast_to(_asobj(where), np.broadcast_shapes(
                shape, np.shape(where)))
            arrs = [np.broadcast_to(a, where.shape) for a in arrs]
            shape = where.shape
        res = np.empty(shape, dtype=object)
        for k in np.ndindex(shape):
            if where is not True and not bool(where[k]):
                if out is None:
                    raise Unsupported('ufunc where without out')
                res[k] = np.broadcast_to(_asobj(out), shape)[k]
                continue
            res[k] = _apply(f, [a[k] for a in arrs])
        if out is not None:
            return _into(out, _wrap(res, kind))
        r = _wrap(res, kind)
        if dt is not None and isinstance(r, SArr):
            r = r.astype(dt)
        return r
    if method == 'reduce':
        return _reduce(uf, inputs[0], kw.get('axis', 0),
                       kw.get('keepdims', False), kw.get('initial'))
    if method == 'outer':
        a, b = (_asobj(i) for i in inputs)
        aa = a.reshape(a.shape + (1,) * b.ndim)
        return apply_ufunc(uf, '__call__', (_v(aa, inputs[0]),
                                            _v(b, inputs[1])), {})
    if method == 'accumulate':
        a = _asobj(inputs[0])
        if a.ndim != 1:
            raise Unsupported('accumulate')
        res = a.copy()
        for i in range(1, len(a)):
            res[i] = _apply(BIN[uf], [res[i - 1], a[i]])
        return _wrap(res, kind_of(inputs[0]))
    raise Unsupported(f'ufunc method {method}')


def _v(a, like):
    r = a.view(SArr)
    r.kind = kind_of(like) if not isinstance(like, (list, tuple)) else 'f'
    return r


def _wrap(res, kind):
    if res.ndim == 0:
        return conc(res[()])
    r = res.view(SArr)
    r.kind = kind
    if kind == 'b':
        return _boolres(r)
    return r


def _into(out, r):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    if isinstance(out, SArr):
        out[...] = r
    else:
        if has_sym(r):
            if _nd_dtype(out) == bool:
                out[...] = concretise(r)
                return out
            raise Unsupported('symbolic result into a concrete array')
        out[...] = to_real(r)
    return out


def _apply(f, xs):
    if any(isinstance(x, (SymNum, SBool)) for x in xs):
        xs = [_py(x) for x in xs]
    return f(*xs)


def _py(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _reduce(uf, a, axis, keepdims=False, initial=None):
    kind = kind_of(a)
    o = _asobj(a)
    f = BIN[uf]
    if axis is None or isinstance(axis, tuple) and len(axis) == o.ndim:
        seq = list(o.ravel())
        r = _red(uf, f, seq, kind, initial)
        if keepdims:
            x = np.empty((1,) * o.ndim, dtype=object)
            x[...] = r
            return _wrap(x, _reskind(uf, [a]))
        return conc(r)
    if isinstance(axis, tuple):
        if len(axis) != 1:
            raise Unsupported('reduction axes')
        axis = axis[0]
    if o.ndim == 0:
        return conc(o[()])
    o2 = np.moveaxis(o, axis, 0)
    res = np.empty(o2.shape[1:], dtype=object)
    for k in np.ndindex(res.shape):
        res[k] = _red(uf, f, [o2[(i,) + k] for i in range(o2.shape[0])],
                      kind, initial)
    if keepdims:
        res = np.expand_dims(res, axis)
    return _wrap(res, 'b' if uf in BOOLRES else
                 ('i' if kind == 'b' and uf in (np.add, np.multiply)
                  else kind))


def _red(uf, f, seq, kind, initial):
    if initial is not None and initial is not np._NoValue:
        seq = [initial] + seq
    if not seq:
        if uf in IDENT:
            return IDENT[uf]
        raise ValueError('zero-size array to reduction operation '
                         f'{uf.__name__} which has no identity')
    if uf is np.logical_and:
        return b_and(*[_truth(e) for e in seq])
    if uf is np.logical_or:
        return b_or(*[_truth(e) for e in seq])
    r = seq[0]
    for e in seq[1:]:
        r = _apply(f, [r, e])
    if len(seq) == 1 and uf in (np.add, np.multiply) and \
            isinstance(r, SBool):
        r = int(bool(r))
    return r


# --------------------------------------------------------------------------
# products


def _dot1(u, v):
    r = None
    for a, b in zip(u, v):
        t = _apply(BIN[np.multiply], [a, b])
        r = t if r is None else _apply(BIN[np.add], [r, t])
    return 0.0 if r is None else r


def x_matmul(a, b):
    ka, kb = kind_of(a), kind_of(b)
    kind = 'f' if 'f' in (ka, kb) else 'i'
    A, B = _asobj(a), _asobj(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough '
                         'dimensions')
    return _prod(A, B, kind)


def _prod(A, B, kind):
    if A.shape[-1] != B.shape[0 if B.ndim == 1 else -2]:
        raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported('matmul of >2-d arrays')
    if A.ndim == 1 and B.ndim == 1:
        return conc(_dot1(A, B))
    if A.ndim == 1:
        return _wrap(_obj([_dot1(A, B[:, j]) for j in range(B.shape[1])]),
                     kind)
    if B.ndim == 1:
        return _wrap(_obj([_dot1(A[i], B) for i in range(A.shape[0])]), kind)
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = _dot1(A[i], B[:, j])
    return _wrap(out, kind)


def _obj(lst):
    o = np.empty(len(lst), dtype=object)
    for i, e in enumerate(lst):
        o[i] = e
    return o


def x_dot(a, b, out=None):
    if type(b).__name__ == 'SparseM':
        raise Unsupported('ndarray.dot(sparse)')
    A, B = _asobj(a), _asobj(b)
    ka, kb = kind_of(a), kind_of(b)
    kind = 'f' if 'f' in (ka, kb) else 'i'
    if A.ndim == 0 or B.ndim == 0:
        return apply_ufunc(np.multiply, '__call__', (a, b), {})
    return _into(out, _prod(A, B, kind))


def x_norm(v, ord=None, axis=None, keepdims=False):
    o = _asobj(v)
    if axis is not None:
        o2 = np.moveaxis(o, axis, 0)
        res = np.empty(o2.shape[1:], dtype=object)
        for k in np.ndindex(res.shape):
            res[k] = _norm1([o2[(i,) + k] for i in range(o2.shape[0])], ord)
        if keepdims:
            res = np.expand_dims(res, axis)
        return _wrap(res, 'f')
    if o.ndim == 2 and ord not in (None, 'fro'):
        raise Unsupported('matrix norm')
    return conc(_norm1(list(o.ravel()), ord))


def _norm1(seq, ord):
    seq = [e.f() if isinstance(e, XVar) else e for e in seq]
    if ord is not None and not isinstance(ord, str):
        if ord == np.inf:
            return _red(np.maximum, BIN[np.maximum],
                        [UN[np.absolute](e) for e in seq], 'f', None)
        if ord == -np.inf:
            return _red(np.minimum, BIN[np.minimum],
                        [UN[np.absolute](e) for e in seq], 'f', None)
        if ord == 1:
            return _red(np.add, BIN[np.add],
                        [UN[np.absolute](e) for e in seq], 'f', None)
        if ord != 2:
            raise Unsupported(f'norm ord={ord}')
    if not seq:
        return 0.0
    nz = [e for e in seq if not (
        (isinstance(e, R) and not e.num) or
        (not is_sym(e) and e == 0))]
    if not nz:
        return 0.0
    if len(nz) == 1:
        return UN[np.absolute](nz[0])
    return UN[np.sqrt](_dot1(nz, nz))


# --------------------------------------------------------------------------
# functions

HANDLERS = {}


def handles(*fs):
    def deco(f):
        for n in fs:
            HANDLERS[n] = f
        return f
    return deco


def _red_func(uf):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=True, **kw):
        if where is not True:
            raise Unsupported('reduction with where')
        if not isinstance(a, np.ndarray):
            a = to_sarr(a) if isinstance(a, (list, tuple)) else a
        return _into(out, _reduce(uf, a, axis, keepdims, initial))
    return f


HANDLERS[np.sum] = _red_func(np.add)
HANDLERS[np.prod] = _red_func(np.multiply)
HANDLERS[np.max] = HANDLERS[np.amax] = _red_func(np.maximum)
HANDLERS[np.min] = HANDLERS[np.amin] = _red_func(np.minimum)
HANDLERS[np.nanmax] = _red_func(np.fmax)
HANDLERS[np.nanmin] = _red_func(np.fmin)
HANDLERS[np.all] = _red_func(np.logical_and)
HANDLERS[np.any] = _red_func(np.logical_or)


@handles(np.nansum)
def _nansum(a, axis=None, **kw):
    o = _asobj(a)
    res = np.empty(o.shape, dtype=object)
    for k in np.ndindex(o.shape):
        res[k] = 0.0 if bool(E.xisnan(o[k])) else o[k]
    return _reduce(np.add, _wrapk(res, 'f'), axis)


def _wrapk(res, kind):
    r = res.view(SArr)
    r.kind = kind
    return r


@handles(np.mean)
def _mean(a, axis=None, **kw):
    o = _asobj(a)
    n = o.size if axis is None else o.shape[axis]
    return apply_ufunc(np.true_divide, '__call__',
                       (_reduce(np.add, a, axis), n), {})


def _arg(seq, better):
    """numpy argmin/argmax: the first NaN wins, else the first extremum"""
    best = 0
    for i, e in enumerate(seq):
        n = E.xisnan(e)
        if n is not False and bool(n):
            return i
    for i in range(1, len(seq)):
        if bool(better(seq[i], seq[best])):
            best = i
    return best


def _arg_func(better, nan):
    def f(a, axis=None, out=None, **kw):
        o = _asobj(a)

        def one(seq):
            if not seq:
                raise ValueError('attempt to get argmin of an empty sequence')
            if nan:
                ok = [i for i, e in enumerate(seq) if not bool(E.xisnan(e))]
                if not ok:
                    raise ValueError('All-NaN slice encountered')
                return ok[_arg([seq[i] for i in ok], better)]
            return _arg(seq, better)
        if axis is None or o.ndim == 1:
            return np.int64(one(list(o.ravel())))
        o2 = np.moveaxis(o, axis, 0)
        res = np.empty(o2.shape[1:], dtype=int)
        for k in np.ndindex(res.shape):
            res[k] = one([o2[(i,) + k] for i in range(o2.shape[0])])
        return res
    return f


HANDLERS[np.argmin] = _arg_func(operator.lt, False)
HANDLERS[np.argmax] = _arg_func(operator.gt, False)
HANDLERS[np.nanargmin] = _arg_func(operator.lt, True)
HANDLERS[np.nanargmax] = _arg_func(operator.gt, True)


def _order(seq):
    idx = []
    for i, e in enumerate(seq):
        j = len(idx)
        while j > 0 and bool(e < seq[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


@handles(np.argsort)
def _argsort(a, axis=-1, **kw):
    o = _asobj(a)
    if o.ndim != 1:
        raise Unsupported('argsort of >1-d arrays')
    return np.array(_order(list(o)), dtype=int)


@handles(np.sort)
def _sort(a, axis=-1, **kw):
    o = _asobj(a)
    if o.ndim != 1:
        raise Unsupported('sort of >1-d arrays')
    return _wrap(o[_order(list(o))], kind_of(a))


@handles(np.lexsort)
def _lexsort(*a, **k):
    raise Unsupported('lexsort')


HANDLERS[np.dot] = x_dot
HANDLERS[np.inner] = x_dot
HANDLERS[np.linalg.norm] = x_norm


@handles(np.vdot)
def _vdot(a, b):
    return x_dot(to_sarr(a).ravel(), to_sarr(b).ravel())


@handles(np.outer)
def _outer(a, b, out=None):
    return apply_ufunc(np.multiply, 'outer',
                       (to_sarr(a).ravel(), to_sarr(b).ravel()), {})


@handles(np.linalg.multi_dot)
def _multi_dot(arrays, **kw):
    r = arrays[0]
    for a in arrays[1:]:
        r = x_dot(r, a)
    return r


@handles(np.einsum)
def _einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if out is None:
        allc = ''.join(ins)
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    A = [_asobj(o) for o in ops]
    dims = {}
    for s, a in zip(ins, A):
        for c, d in zip(s, a.shape):
            dims[c] = d
    sumc = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for k in np.ndindex(res.shape):
        env = dict(zip(out, k))
        acc = 0.0
        for m in np.ndindex(tuple(dims[c] for c in sumc)):
            env.update(zip(sumc, m))
            t = None
            for s, a in zip(ins, A):
                e = a[tuple(env[c] for c in s)]
                t = e if t is None else _apply(BIN[np.multiply], [t, e])
            acc = _apply(BIN[np.add], [acc, t])
        res[k] = acc
    return _wrap(res, 'f')


@handles(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    A, B = _asobj(a), _asobj(b)
    if A.shape != B.shape:
        return False
    return b_and(*[_apply(BIN[np.equal], [x, y]) for x, y in zip(A.ravel(), B.ravel())])


@handles(np.isclose)
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    A, B = np.broadcast_arrays(_asobj(a), _asobj(b))
    res = np.empty(A.shape, dtype=object)
    for k in np.ndindex(A.shape):
        d = E.xabs(A[k] - B[k])
        res[k] = d <= atol + rtol * E.xabs(B[k])
    return _wrap(res, 'b')


@handles(np.allclose)
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return b_and(*list(raw(r).ravel()))
    return r


@handles(np.where)
def _where(cond, *xy):
    c = _asobj(cond)
    if not xy:
        return np.where(concretise(_wrapk(_truths(c), 'b')))
    a, b = xy
    c, A, B = np.broadcast_arrays(c, _asobj(a), _asobj(b))
    res = np.empty(c.shape, dtype=object)
    for k in np.ndindex(c.shape):
        x, y = A[k], B[k]
        if x is y or (type(x) is type(y) is float and x == y):
            res[k] = x
        else:
            res[k] = E.pick(_truth(c[k]), x, y)
    ks = {kind_of(a), kind_of(b)}
    return _wrap(res, 'f' if 'f' in ks else 'i' if 'i' in ks else 'b')


def _truths(o):
    r = np.empty(o.shape, dtype=object)
    for k in np.ndindex(o.shape):
        r[k] = _truth(o[k])
    return r


@handles(np.nonzero)
def _nonzero(a):
    return _where(a)


@handles(np.flatnonzero)
def _flatnonzero(a):
    return _where(to_sarr(a).ravel())[0]


@handles(np.argwhere)
def _argwhere(a):
    return np.transpose(_where(a))


@handles(np.count_nonzero)
def _count_nonzero(a, axis=None, **k):
    return np.count_nonzero(concretise(_wrapk(_truths(_asobj(a)), 'b')),
                            axis=axis)


@handles(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = apply_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = apply_ufunc(np.minimum, '__call__', (r, hi), {})
    return _into(out, r)


@handles(np.real, np.real_if_close)
def _real(a, *k, **kw):
    return a


@handles(np.imag)
def _imag(a):
    return apply_ufunc(np.multiply, '__call__', (a, 0.0), {})


@handles(np.isscalar)
def _isscalar(a):
    return isinstance(a, (SymNum, SBool)) or np.isscalar(a)


@handles(np.iscomplexobj)
def _iscomplexobj(a):
    return False


@handles(np.isrealobj)
def _isrealobj(a):
    return True


@handles(np.isreal)
def _isreal(a):
    return np.ones(np.shape(raw(a)), dtype=bool)


@handles(np.ndim)
def _ndim(a):
    return _asobj(a).ndim


@handles(np.shape)
def _npshape(a):
    return _asobj(a).shape


@handles(np.size)
def _npsize(a, axis=None):
    o = _asobj(a)
    return o.size if axis is None else o.shape[axis]


@handles(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    o = _asobj(x)
    big = np.finfo(float).max
    res = np.empty(o.shape, dtype=object)
    for k in np.ndindex(o.shape):
        e = o[k]
        if bool(E.xisnan(e)):
            e = nan
        elif not bool(E.xisfinite(e)):
            e = (big if posinf is None else posinf) if bool(e > 0) else \
                (-big if neginf is None else neginf)
        res[k] = e
    r = _wrap(res, 'f')
    if not copy and isinstance(x, SArr):
        x[...] = r
        return x
    return r


@handles(np.copyto)
def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        m = concretise(_wrapk(np.broadcast_to(_asobj(where), dst.shape)
                              .copy(), 'b'))
        s = np.broadcast_to(_asobj(src), dst.shape)
        for k in np.ndindex(dst.shape):
            if m[k]:
                dst[k] = s[k]


@handles(np.fill_diagonal)
def _fill_diagonal(a, val, wrap=False):
    v = _asobj(val)
    for i in range(min(a.shape)):
        a[i, i] = v[()] if v.ndim == 0 else v[i]


@handles(np.putmask, np.place, np.put)
def _nope(*a, **k):
    raise Unsupported('putmask/place/put')


def _like(val):
    def f(a, dtype=None, order='K', subok=True, shape=None, **kw):
        sh = np.shape(raw(a)) if shape is None else shape
        k = kind_of(a) if dtype is None else \
            {'u': 'i', 'c': 'f'}.get(np.dtype(dtype).kind,
                                     np.dtype(dtype).kind)
        if k == 'b':
            return np.full(sh, bool(val))
        return SArr.make(np.full(sh, float(val) if k == 'f' else int(val)),
                         k)
    return f


HANDLERS[np.zeros_like] = _like(0)
HANDLERS[np.ones_like] = _like(1)
HANDLERS[np.empty_like] = _like(0)


@handles(np.full_like)
def _full_like(a, fill_value, dtype=None, **kw):
    r = _like(0)(a, dtype)
    if not isinstance(r, SArr):
        return np.full(r.shape, bool(fill_value))
    r[...] = fill_value
    return r


@handles(np.full)
def _full(shape, fill_value, dtype=None, **kw):
    k = kind_of(fill_value) if dtype is None else np.dtype(dtype).kind
    r = SArr.make(np.zeros(shape), k)
    r[...] = fill_value
    return r


@handles(np.array, np.asarray, np.asanyarray, np.ascontiguousarray)
def _array(a, dtype=None, *args, copy=None, ndmin=0, **kw):
    if type(a).__name__ == 'SparseM':
        raise Unsupported('np.array(sparse)')
    src = a
    r = to_sarr(a)
    if dtype is not None and np.dtype(dtype).kind != 'O':
        r = _astype(r, dtype, copy=False)
    if r is src:
        if copy is None or copy:
            r = src.copy() if copy else src
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    if isinstance(r, SArr) and r.kind == 'b':
        return _boolres(r)
    return r


def _np_array(a, dtype=None, *args, copy=True, ndmin=0, **kw):
    return _array(a, dtype, copy=copy, ndmin=ndmin, **kw)


HANDLERS[np.array] = _np_array


@handles(np.copy)
def _copy(a, **kw):
    return to_sarr(a).copy()


@handles(np.linalg.det)
def _det(a):
    o = _asobj(a)
    n = o.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return conc(o[0, 0])
    if n == 2:
        return o[0, 0] * o[1, 1] - o[0, 1] * o[1, 0]
    r = 0.0
    for j in range(n):
        minor = np.delete(np.delete(o, 0, 0), j, 1)
        t = o[0, j] * _det(_wrapk(minor, 'f'))
        r = r + t if j % 2 == 0 else r - t
    return r


@handles(np.linalg.solve)
def _solve(a, b):
    o, v = _asobj(a), _asobj(b)
    n = o.shape[0]
    d = _det(a)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    if v.ndim != 1:
        raise Unsupported('solve with matrix right-hand side')
    out = []
    for j in range(n):
        m = o.copy()
        m[:, j] = v
        out.append(_det(_wrapk(m, 'f')) / d)
    return SArr.make(out)


@handles(np.linalg.inv)
def _inv(a):
    o = _asobj(a)
    n = o.shape[0]
    d = _det(a)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(o, j, 0), i, 1)
            c = _det(_wrapk(m, 'f'))
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return _wrap(out, 'f')


# structural functions: numpy's own implementation on object arrays
STRUCT = {getattr(np, n) for n in (
    'concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'dstack',
    'expand_dims', 'squeeze', 'reshape', 'ravel', 'transpose', 'diag',
    'diagonal', 'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud',
    'swapaxes', 'moveaxis', 'broadcast_to', 'broadcast_arrays', 'delete',
    'insert', 'append', 'take', 'triu', 'tril', 'atleast_1d', 'atleast_2d',
    'split', 'array_split', 'compress', 'rot90', 'diagflat', 'block',
    'take_along_axis', 'resize', 'extract', 'trace', 'matrix_transpose')
    if hasattr(np, n)}
OWNED = {np.shares_memory, np.may_share_memory}


def _plain(x, depth=0):
    if isinstance(x, SArr):
        return raw(x)
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (SymNum, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if type(x) in (list, tuple) and has_sym(x):
        if depth == 0 and any(isinstance(e, np.ndarray) for e in x):
            return type(x)(_plain(e, depth + 1) for e in x)
        if any(isinstance(e, (list, tuple, np.ndarray)) for e in x):
            return type(x)(_plain(e, depth + 1) for e in x)
        return raw(to_sarr(x))
    if type(x) in (list, tuple):
        return type(x)(_plain(e, depth + 1) for e in x)
    return x


def _rewrap(x, kind):
    if isinstance(x, np.ndarray):
        if _nd_dtype(x) == OBJ:
            if x.ndim == 0:
                return conc(x[()])
            r = x.view(SArr)
            r.kind = kind
            if kind == 'b':
                return _boolres(r)
            return r
        return from_real(x)
    if type(x) in (list, tuple):
        return type(x)(_rewrap(e, kind) for e in x)
    return conc(x)


def _kind_args(args):
    ks = set()

    def walk(x, d):
        if isinstance(x, (np.ndarray, SymNum, SBool, float, np.floating)):
            ks.add(kind_of(x))
        elif d < 3 and isinstance(x, (list, tuple)):
            for e in x:
                walk(e, d + 1)
    for a in args:
        walk(a, 0)
    return 'f' if 'f' in ks or not ks else 'i' if 'i' in ks else 'b'


def array_function(func, args, kwargs):
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in STRUCT:
        if kwargs.get('out') is not None:
            raise Unsupported('out= of structural function')
        pa = [_plain(a) for a in args]
        kw = {k: _plain(v) for k, v in kwargs.items() if k != 'dtype'}
        return _rewrap(func(*pa, **kw), _kind_args(args[:1]))
    if func in OWNED:
        return func(*[_plain(a) for a in args], **kwargs)
    if isinstance(func, np.ufunc):
        return apply_ufunc(func, '__call__', args, kwargs)
    if not has_sym(list(args)) and not has_sym(kwargs):
        r = func(*[to_real(a) for a in args],
                 **{k: to_real(v) for k, v in kwargs.items()})
        return from_real(r)
    raise Unsupported(f'numpy function {getattr(func, "__name__", func)}')
