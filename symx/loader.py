"""Loads the package under test from its current source with numpy, scipy,
h5py, time, uuid and logging replaced by symbolic-aware stand-ins.

The source files are parsed afresh on every run of a check; the only rewriting
is that calls of the builtins isinstance/float/int/bool/round are redirected
(to accept symbolic numbers).  Modules are re-executed for every path, so no
module state survives from one path to the next.
"""
import ast
import builtins
import logging as _logging
import math
import numbers
import os
import re
import sys
import types

import numpy as np

from . import arrays as A
from . import engine as E
from . import shared
from .arrays import SArr, any_sarr, array_function, from_real, has_sym
from .engine import FVal, R, SBool, SymNum, Unsupported, XVar

ROOT = os.environ.get('VERIF_TARGET', '/repo')
PKG = 'fides'


# --------------------------------------------------------------------------
# environment hooks


class Env:
    """replaceable environment of the code under test"""

    def __init__(self):
        self.clock = lambda: 0.0
        self.h5 = {}
        self.eig = None
        self.eigh = None
        self.eigvals = None
        self.cond = None
        self.lstsq = None
        self.newton = None
        self.brentq = None
        self.opt_minimize = None
        self.root_scalar = None
        self.uuid_n = 0
        self.loggers = None
        self.log = []
        self.user = {}

    def call(self, name, *a, **k):
        h = getattr(self, name)
        if h is None:
            if not has_sym(list(a)) and not has_sym(k):
                return None
            raise Unsupported(f'environment function {name}')
        return (h(*a, **k),)


# --------------------------------------------------------------------------
# numpy


class UFuncShim:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin = uf.nin

    def __call__(self, *a, **k):
        if any_sarr(a) or any_sarr(list(k.values())):
            a = [A.to_sarr(x) if isinstance(x, (list, tuple)) else x
                 for x in a]
            na = self.uf.nin
            if len(a) > na:
                k = dict(k, out=a[na])
                a = a[:na]
            return A.apply_ufunc(self.uf, '__call__', tuple(a), k)
        with np.errstate(all='ignore'):
            return from_real(self.uf(*a, **k))

    def _meth(self, m, *a, **k):
        if any_sarr(a):
            if m == 'reduce' and len(a) > 1:
                k = dict(k, axis=a[1])
                a = a[:1]
            a = [A.to_sarr(x) if isinstance(x, (list, tuple)) else x
                 for x in a]
            return A.apply_ufunc(self.uf, m, tuple(a), k)
        with np.errstate(all='ignore'):
            return from_real(getattr(self.uf, m)(*a, **k))

    def reduce(self, *a, **k):
        return self._meth('reduce', *a, **k)

    def outer(self, *a, **k):
        return self._meth('outer', *a, **k)

    def accumulate(self, *a, **k):
        return self._meth('accumulate', *a, **k)

    def at(self, a, ix, *b):
        raise Unsupported('ufunc.at')


def func_shim(f):
    def wrapper(*a, **k):
        if any_sarr(a) or any_sarr(list(k.values())):
            return array_function(f, a, k)
        with np.errstate(all='ignore'):
            return from_real(f(*a, **k))
    wrapper.__name__ = getattr(f, '__name__', 'f')
    return wrapper


class Proxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(self.__dict__['_real'], name)
        if isinstance(v, np.ufunc):
            v = UFuncShim(v)
        elif isinstance(v, types.ModuleType):
            return v
        elif callable(v) and not isinstance(v, type):
            v = func_shim(v)
        self.__dict__[name] = v
        return v


def _eig_like(env, name, real):
    def f(a, *args, **k):
        r = env.call(name, a, *args, **k)
        if r is not None:
            return r[0]
        with np.errstate(all='ignore'):
            return from_real(_tup(real(A.to_real(a), *args, **k)))
    return f


def _tup(r):
    return tuple(r) if isinstance(r, tuple) else r


def _lstsq(env, real):
    def f(a, b, *args, **k):
        r = env.call('lstsq', a, b)
        if r is not None:
            return (r[0], None, None, None)
        r = real(A.to_real(a), A.to_real(b), *args, **k)
        return tuple(from_real(x) for x in r)
    return f


def make_numpy(env):
    import numpy.linalg as nla
    la = Proxy('numpy.linalg', nla, {})
    for n in ('eig', 'eigh', 'eigvals'):
        la.__dict__[n] = _eig_like(env, n, getattr(nla, n))
    la.__dict__['eigvalsh'] = _eig_like(env, 'eigvals', nla.eigvalsh)
    la.__dict__['cond'] = _eig_like(env, 'cond', nla.cond)
    la.__dict__['lstsq'] = _lstsq(env, nla.lstsq)

    def array_like(real):
        def f(a, *args, **k):
            if isinstance(a, SparseM):
                return a.toarray()
            if any_sarr(a):
                return array_function(real, (a,) + args, k)
            return from_real(real(a, *args, **k))
        return f
    over = {'linalg': la}
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        over[n] = array_like(getattr(np, n))
    for n in ('isscalar', 'ndim', 'shape', 'size'):
        pass
    return Proxy('numpy', np, over), la


# --------------------------------------------------------------------------
# scipy.sparse


def _zero(e):
    if isinstance(e, R):
        return not e.num
    return not E.is_sym(e) and e == 0


class SparseM:
    """scipy sparse matrix (products skip structural zeros)"""
    __array_ufunc__ = None
    __array_priority__ = 100
    ndim = 2

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SparseM):
            self.M = arg.M.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and \
                isinstance(arg[1], tuple):
            data, (i, j) = arg
            n, m = shape if shape else (int(max(i)) + 1, int(max(j)) + 1)
            self.M = SArr.make(np.zeros((n, m)))
            for d, ii, jj in zip(data, i, j):
                self.M[int(ii), int(jj)] = self.M[int(ii), int(jj)] + d
        elif isinstance(arg, tuple):
            self.M = SArr.make(np.zeros(arg))
        else:
            m = A.to_sarr(arg)
            if m.ndim != 2:
                if m.ndim == 1:
                    m = A._rewrap(A.raw(m).reshape(1, -1), m.kind)
                else:
                    raise TypeError('expected 2-d array')
            self.M = m.copy()

    @property
    def shape(self):
        return self.M.shape

    @property
    def T(self):  # noqa: N802
        return SparseM(self.M.T)

    def transpose(self):
        return self.T

    @property
    def A(self):  # noqa: N802
        return self.toarray()

    def toarray(self):
        return self.M.copy()

    todense = toarray

    def copy(self):
        return SparseM(self)

    def tocsc(self):
        return self

    tocsr = tocsc

    def diagonal(self):
        n = min(self.shape)
        return SArr.make([self.M[i, i] for i in range(n)])

    def _mul(self, a, b):
        """product of object arrays skipping structural zeros"""
        a, b = A.raw(a), A.raw(b)

        def one(u, v):
            acc = None
            for x, y in zip(u, v):
                if _zero(x) or _zero(y):
                    # a stored zero times nan is not dropped by the dense
                    # factor; only structural zeros are
                    if _zero(x) and self._left or _zero(y) and \
                            not self._left:
                        continue
                t = A._apply(A.BIN[np.multiply], [x, y])
                acc = t if acc is None else \
                    A._apply(A.BIN[np.add], [acc, t])
            return 0.0 if acc is None else acc
        if a.ndim == 2 and b.ndim == 1:
            return SArr.make([one(a[i], b) for i in range(a.shape[0])])
        if a.ndim == 1 and b.ndim == 2:
            return SArr.make([one(a, b[:, j]) for j in range(b.shape[1])])
        return SArr.make([[one(a[i], b[:, j]) for j in range(b.shape[1])]
                          for i in range(a.shape[0])])

    _left = True

    def dot(self, o):
        if isinstance(o, SparseM):
            return SparseM(self._mul(self.M, o.M))
        if isinstance(o, (int, float, SymNum, np.number)):
            return SparseM(self.M * o)
        o = A.to_sarr(o)
        if o.ndim == 0:
            return SparseM(self.M * o)
        if o.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        return self._mul(self.M, o)

    __mul__ = dot
    __matmul__ = dot

    def __rmul__(self, o):
        if isinstance(o, (int, float, SymNum, np.number)):
            return SparseM(self.M * o)
        o = A.to_sarr(o)
        if o.shape[-1] != self.shape[0]:
            raise ValueError('dimension mismatch')
        s = SparseM(self)
        s._left = False
        return s._mul(o, self.M)

    __rmatmul__ = __rmul__

    def __add__(self, o):
        if isinstance(o, SparseM):
            return SparseM(self.M + o.M)
        return self.M + o

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SparseM):
            return SparseM(self.M - o.M)
        return self.M - o

    def __rsub__(self, o):
        return o - self.M

    def __neg__(self):
        return SparseM(-self.M)

    def __truediv__(self, o):
        return SparseM(self.M / o)

    def __pow__(self, k):
        if k != 2:
            raise Unsupported('sparse power')
        return self.dot(self)

    def __abs__(self):
        return SparseM(A.UFUNC_ABS(self.M))

    def multiply(self, o):
        return SparseM(self.M * (o.M if isinstance(o, SparseM) else o))

    def power(self, k):
        return SparseM(self.M ** k)

    def sqrt(self):
        return SparseM(A.apply_ufunc(np.sqrt, '__call__', (self.M,), {}))

    def setdiag(self, v):
        for i in range(min(self.shape)):
            self.M[i, i] = v[i] if np.ndim(v) else v

    def __getitem__(self, ix):
        r = self.M[ix]
        return r

    def sum(self, axis=None):
        return self.M.sum(axis=axis)


A.UFUNC_ABS = lambda m: A.apply_ufunc(np.absolute, '__call__', (m,), {})


def make_sparse():
    m = types.ModuleType('scipy.sparse')
    m.csc_matrix = m.csr_matrix = m.coo_matrix = SparseM
    m.csc_array = m.csr_array = m.coo_array = m.spmatrix = SparseM
    m.sparray = SparseM
    m.issparse = lambda x: isinstance(x, SparseM)
    m.isspmatrix = m.issparse

    def diags(d, offsets=0, shape=None, format=None, dtype=None):
        if isinstance(d, (list, tuple)) and len(d) and \
                isinstance(d[0], (list, tuple, np.ndarray)):
            if offsets not in (0, [0], None) or len(d) != 1:
                raise Unsupported('diags with offsets')
            d = d[0]
        elif offsets not in (0, [0]):
            raise Unsupported('diags with offsets')
        d = A.to_sarr(d)
        n = len(d)
        r = SArr.make(np.zeros((n, n)))
        for i in range(n):
            r[i, i] = d[i]
        return SparseM(r)
    m.diags = m.diags_array = diags

    def eye(n, *a, **k):
        return SparseM(np.eye(n))
    m.eye = m.identity = m.eye_array = eye
    return m


# --------------------------------------------------------------------------
# scipy.linalg, scipy.optimize


def make_scipy(env, npl):
    import types as t
    sp = t.ModuleType('scipy')
    la = t.ModuleType('scipy.linalg')

    def real(name):
        def f(*a, **k):
            import scipy.linalg as sla
            return getattr(sla, name)(*a, **k)
        return f
    for n in ('eig', 'eigh'):
        la.__dict__[n] = _eig_like(env, n, real(n))
    la.eigvals = _eig_like(env, 'eigvals', real('eigvals'))
    la.eigvalsh = _eig_like(env, 'eigvals', real('eigvalsh'))
    la.lstsq = _lstsq(env, real('lstsq'))
    la.norm = npl.norm
    la.solve = npl.solve
    la.inv = npl.inv
    la.det = npl.det
    la.LinAlgError = np.linalg.LinAlgError

    def la_getattr(name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            if any_sarr(a) and has_sym(list(a)):
                r = orth_like(name, a)
                if r is not None:
                    return r
                raise Unsupported(f'scipy.linalg.{name}')
            return from_real(_tup(real(name)(*[A.to_real(x) for x in a],
                                             **k)))
        return f
    la.__getattr__ = la_getattr

    def orth_like(name, a):
        if name == 'orth':
            return gram_schmidt(a[0])
        if name == 'qr':
            return None
        return None
    op = t.ModuleType('scipy.optimize')

    def hook(name):
        def f(*a, **k):
            h = getattr(env, name)
            if h is None:
                raise Unsupported(f'scipy.optimize.{name}')
            return h(*a, **k)
        return f
    op.newton = hook('newton')
    op.brentq = hook('brentq')
    op.minimize = hook('opt_minimize')
    op.root_scalar = hook('root_scalar')

    class LinearConstraint:
        def __init__(self, A, lb=-np.inf, ub=np.inf, keep_feasible=False):
            self.A, self.lb, self.ub = A, lb, ub

    class NonlinearConstraint:
        def __init__(self, fun, lb, ub, jac='2-point', hess=None,
                     keep_feasible=False, **k):
            self.fun, self.lb, self.ub, self.jac = fun, lb, ub, jac

    class Bounds:
        def __init__(self, lb=-np.inf, ub=np.inf, keep_feasible=False):
            self.lb, self.ub = lb, ub
    op.LinearConstraint = LinearConstraint
    op.NonlinearConstraint = NonlinearConstraint
    op.Bounds = Bounds
    sparse = make_sparse()
    sp.linalg, sp.sparse, sp.optimize = la, sparse, op
    return sp, la, sparse, op


def gram_schmidt(M):
    """orthonormal basis of the column space (contract of scipy.linalg.orth)"""
    o = A.to_sarr(M)
    cols = []
    for j in range(o.shape[1]):
        v = o[:, j]
        for q in cols:
            v = v - q * A.x_dot(q, v)
        n = A.x_norm(v)
        if bool(n > 0):
            cols.append(v / n)
    if not cols:
        return SArr.make(np.zeros((o.shape[0], 0)))
    return A.array_function(np.column_stack, (cols,), {})


# --------------------------------------------------------------------------
# other modules


def make_math():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in vars(math).items()
                       if not k.startswith('__')})

    def w(name, sym):
        real = getattr(math, name)

        def f(*a):
            if any(isinstance(x, (SymNum, SBool)) for x in a):
                return sym(*a)
            return real(*a)
        return f

    def msqrt(x):
        if bool(x < 0):
            raise ValueError('math domain error')
        return E.xsqrt(x)
    for n, s in dict(copysign=E.xcopysign, sqrt=msqrt, fabs=E.xabs,
                     isfinite=E.xisfinite, isnan=E.xisnan, isinf=E.xisinf,
                     floor=E.xfloor, trunc=E.xtrunc,
                     ceil=lambda a: -E.xfloor(-a), pow=E.xpow,
                     hypot=lambda *a: A._norm1(list(a), None)).items():
        m.__dict__[n] = w(n, s)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not (E.is_sym(a) or E.is_sym(b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = E.xabs(a - b)
        return E.b_or(d <= rel_tol * E.xmaximum(E.xabs(a), E.xabs(b)),
                      d <= abs_tol)
    m.isclose = isclose
    for n in ('exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'ldexp',
              'frexp', 'fmod'):
        def bad(*a, _n=n):
            if any(isinstance(x, SymNum) for x in a):
                raise Unsupported(f'math.{_n}')
            return getattr(math, _n)(*a)
        m.__dict__[n] = bad
    return m


class SilentLogger:
    def __init__(self, name='', env=None):
        self.name = name
        self.handlers = []
        self.level = 0
        self.propagate = True
        self.env = env

    def _log(self, *a, **k):
        if self.env is not None:
            self.env.log.append((shared.current(), self))

    debug = info = warning = error = critical = exception = _log

    def log(self, *a, **k):
        self._log()

    def addHandler(self, h):  # noqa: N802
        if h not in self.handlers:
            self.handlers.append(h)

    def removeHandler(self, h):  # noqa: N802
        if h in self.handlers:
            self.handlers.remove(h)

    def hasHandlers(self):  # noqa: N802
        return bool(self.handlers)

    def setLevel(self, level):  # noqa: N802
        self.level = level

    def isEnabledFor(self, level):  # noqa: N802
        return True

    def getChild(self, s):  # noqa: N802
        if self.env is not None:
            return self.env.get_logger(self.name + '.' + s)
        return SilentLogger(self.name + '.' + s)


def make_logging(env):
    m = types.ModuleType('logging')
    m.__dict__.update({k: v for k, v in vars(_logging).items()
                       if not k.startswith('__')})
    store = {}
    env.loggers = store

    def getLogger(name=None):  # noqa: N802
        if name not in store:
            store[name] = Logger(name)
        return store[name]
    m.getLogger = env.get_logger = getLogger

    class Logger(SilentLogger):
        def __init__(self, name='', level=0):
            super().__init__(name, env)
            self.level = level
    m.Logger = Logger

    class StreamHandler:
        def __init__(self, stream=None):
            self.formatter = None
            self.level = 0

        def setFormatter(self, f):  # noqa: N802
            self.formatter = f

        def setLevel(self, lv):  # noqa: N802
            self.level = lv

        def addFilter(self, f):  # noqa: N802
            pass
    m.StreamHandler = StreamHandler
    m.Handler = StreamHandler
    m.NullHandler = StreamHandler
    return m


def make_time(env):
    m = types.ModuleType('time')
    import time as t
    m.__dict__.update({k: v for k, v in vars(t).items()
                       if not k.startswith('__')})
    m.time = m.perf_counter = m.monotonic = m.process_time = \
        lambda: env.clock()
    m.sleep = lambda s: None
    return m


def make_uuid(env):
    m = types.ModuleType('uuid')

    def u(*a):
        env.uuid_n += 1
        return f'uuid-{env.uuid_n}'
    m.uuid1 = m.uuid4 = m.uuid3 = m.uuid5 = u
    m.UUID = str
    return m


def make_h5py(env):
    m = types.ModuleType('h5py')

    class Group:
        def __init__(self, node):
            self.node = node

        def create_dataset(self, name, shape=None, dtype=None, data=None,
                           **k):
            if name in self.node:
                raise ValueError('Unable to create dataset (name already '
                                 'exists)')
            self.node[name] = list(data) if isinstance(
                data, (list, tuple, np.ndarray)) else data
            return self.node[name]

        def create_group(self, name, **k):
            if name in self.node:
                raise ValueError('Unable to create group (name already '
                                 'exists)')
            self.node[name] = {}
            return Group(self.node[name])

        def require_group(self, name):
            self.node.setdefault(name, {})
            return Group(self.node[name])

        def __contains__(self, name):
            return name in self.node

        def keys(self):
            return self.node.keys()

        def __iter__(self):
            return iter(self.node)

        def __setitem__(self, name, v):
            if name in self.node:
                raise ValueError('Unable to create dataset (name already '
                                 'exists)')
            self.node[name] = list(v) if isinstance(
                v, (list, tuple, np.ndarray)) else v

        def __getitem__(self, name):
            v = self.node[name]
            return Group(v) if isinstance(v, dict) else v

        def __delitem__(self, name):
            del self.node[name]

    class File(Group):
        def __init__(self, path, mode='r', **k):
            files = env.h5
            path = str(path)
            if mode == 'w':
                files[path] = {}
            elif mode in ('w-', 'x'):
                if path in files:
                    raise FileExistsError(path)
                files[path] = {}
            elif mode in ('r', 'r+'):
                if path not in files:
                    raise FileNotFoundError(path)
            else:
                files.setdefault(path, {})
            super().__init__(files[path])

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def flush(self):
            pass
    m.File = File
    m.Group = Group
    return m


# --------------------------------------------------------------------------
# builtins


_FLOATISH = (float, np.floating, np.float64, numbers.Real, numbers.Number,
             numbers.Complex, np.number, np.generic, np.inexact)


def x_isinstance(o, t):
    if isinstance(o, (SymNum, SBool)):
        ts = _flat(t)
        if isinstance(o, SBool):
            return any(x in (bool, int, np.bool_, numbers.Integral,
                             numbers.Real, numbers.Number, SBool)
                       for x in ts)
        return any(x in _FLOATISH or x is type(o) or x is SymNum for x in ts)
    if isinstance(o, E.SymStr):
        ts = _flat(t)
        return any(x is str for x in ts)
    return isinstance(o, t)


def _flat(t):
    if isinstance(t, tuple):
        r = []
        for x in t:
            r += _flat(x)
        return r
    if isinstance(t, types.UnionType):
        return list(t.__args__)
    return [t]


def x_float(*a):
    if a and isinstance(a[0], SBool):
        return 1.0 if bool(a[0]) else 0.0
    if a and isinstance(a[0], SymNum):
        return a[0]
    if a and isinstance(a[0], SArr):
        if a[0].size == 1:
            return x_float(A.raw(a[0]).ravel()[0])
        raise TypeError('only length-1 arrays can be converted')
    return float(*a)


def x_int(*a, **k):
    if a and isinstance(a[0], SBool):
        return int(bool(a[0]))
    if a and isinstance(a[0], FVal):
        raise Unsupported('int() of a symbolic double')
    if a and isinstance(a[0], (R, XVar)):
        v = a[0].f() if isinstance(a[0], XVar) else a[0]
        if isinstance(v, R):
            return E.xtrunc(v)
        return int(v)
    return int(*a, **k)


def x_round(x, n=None):
    if isinstance(x, SymNum):
        raise Unsupported('round of a symbolic number')
    return round(x, n) if n is not None else round(x)


def _x_ext(builtin, better):
    def f(*a, **k):
        if not k and E._C is not None and E._C.lazy:
            seq = list(a[0]) if len(a) == 1 else a
            if seq and any(E.is_sym(e) for e in seq):
                r = seq[0]
                for e in seq[1:]:
                    r = E.lazy_ite(better(e, r), e, r)
                return r
            a = (seq,)
        return builtin(*a, **k)
    return f


x_max = _x_ext(max, lambda a, b: a > b)
x_min = _x_ext(min, lambda a, b: a < b)


_REDIRECT = {'isinstance': '_x_isinstance_', 'float': '_x_float_',
             'int': '_x_int_', 'round': '_x_round_', 'max': '_x_max_',
             'min': '_x_min_'}


class _Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):  # noqa: N802
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _REDIRECT:
            node.func = ast.copy_location(
                ast.Name(_REDIRECT[node.func.id], ast.Load()), node.func)
        return node


# --------------------------------------------------------------------------
# package loading

_code = {}
SHARED = False    # set by the runner for checks about threads


def sources():
    """{module name: (path, source)} of the package, from the current tree"""
    out = {}
    base = os.path.join(ROOT, PKG)
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, base)[:-3].replace(os.sep, '.')
                name = PKG if rel == '__init__' else \
                    PKG + '.' + (rel[:-9] if rel.endswith('.__init__')
                                 else rel)
                with open(p) as fh:
                    out[name] = (p, fh.read())
    return out


def _words(tree):
    """short string constants and names of class members: what a symbolic
    string can be equal to"""
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                v.__dict__['skip'] = True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                not getattr(n, 'skip', False) and \
                re.fullmatch(r'[A-Za-z0-9_ -]{1,24}', n.value):
            yield n.value
        if isinstance(n, ast.ClassDef):
            for b in n.body:
                if isinstance(b, ast.Assign):
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            yield t.id


def compile_all():
    words = set()
    if not _code:
        for name, (p, src) in sources().items():
            tree = ast.parse(src, p)
            words.update(_words(tree))
            if SHARED:
                tree = shared.rewrite(tree)
            tree = _Rewrite().visit(tree)
            ast.fix_missing_locations(tree)
            _code[name] = (compile(tree, p, 'exec', dont_inherit=True),
                           p.endswith('__init__.py'))
        E.SymStr.vocab = frozenset(words)
    return _code


class Pkg:
    """namespace of the modules of one instantiation of the package"""


class _Instance:
    def __init__(self):
        compile_all()
        self.env = Env()
        self.mods = {}
        env = self.env
        npm, npl = make_numpy(env)
        sp, la, sparse, op = make_scipy(env, npl)
        self.ext = {
            'numpy': npm, 'numpy.linalg': npl, 'scipy': sp,
            'scipy.linalg': la, 'scipy.sparse': sparse,
            'scipy.optimize': op, 'math': make_math(),
            'logging': make_logging(env), 'time': make_time(env),
            'uuid': make_uuid(env), 'h5py': make_h5py(env),
        }
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['_x_isinstance_'] = x_isinstance
        b['_x_float_'] = x_float
        b['_x_int_'] = x_int
        b['_x_round_'] = x_round
        b['_x_max_'] = x_max
        b['_x_min_'] = x_min
        if SHARED:
            b['_sh_'] = shared.SH
            self.ext['threading'] = shared.make_threading()
            E.TAGS = []
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name not in _code:
            raise ModuleNotFoundError(name)
        code, ispkg = _code[name]
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        m.__file__ = code.co_filename
        if ispkg:
            m.__path__ = [os.path.dirname(code.co_filename)]
        self.mods[name] = m
        parent, _, last = name.rpartition('.')
        # the real import system runs the package first; names are bound here
        # as they are loaded
        exec(code, m.__dict__)
        if parent and parent in self.mods and \
                last not in self.mods[parent].__dict__:
            setattr(self.mods[parent], last, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = base + ('.' + name if name else '')
            m = self._ensure(full)
            for f in fromlist or ():
                if f != '*' and not hasattr(m, f) and \
                        full + '.' + f in _code:
                    setattr(m, f, self.load(full + '.' + f))
            return m
        if name == PKG or name.startswith(PKG + '.'):
            m = self._ensure(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name + '.' + f in _code:
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self._ensure(PKG)
        if name in self.ext:
            if fromlist or '.' not in name:
                return self.ext[name]
            return self.ext[name.split('.')[0]]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _ensure(self, name):
        if name == PKG and PKG not in self.mods:
            # plain namespace: its contents are not needed by the modules
            m = types.ModuleType(PKG)
            m.__path__ = [os.path.join(ROOT, PKG)]
            m.__package__ = PKG
            self.mods[PKG] = m
            return m
        return self.load(name)


def instance():
    """fresh symbolic instantiation of the package"""
    inst = _Instance()
    p = Pkg()
    p.env = inst.env
    p.symbolic = True
    p.np = inst.ext['numpy']
    p.linalg = inst.ext['numpy.linalg']
    p.csc_matrix = SparseM
    for n in ('constants', 'logging', 'subproblem', 'steps', 'stepback',
              'trust_region', 'hessian_approximation', 'minimize'):
        if f'{PKG}.{n}' in _code:
            setattr(p, n, inst.load(f'{PKG}.{n}'))
    return p


# --------------------------------------------------------------------------
# which functions of the package were executed symbolically

executed = {}


def start_monitor():
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return
    base = os.path.join(ROOT, PKG)

    def on_start(code, off):
        if code.co_filename.startswith(base):
            executed.setdefault(
                (os.path.relpath(code.co_filename, ROOT),
                 code.co_qualname, code.co_firstlineno), 0)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)
