"""Concrete counterpart of engine.Ctx: the same harness functions run on the
real package with ordinary floats (replay of counterexamples and samples).
No solver is needed here; runs under the repository's own interpreter."""
import math

import numpy as np

TOL = 1e-7


class AssumeFail(Exception):
    pass


class Env:
    """hooks of the symbolic environment; only those that also exist in the
    real environment have an effect here"""

    def __init__(self):
        self.h5 = {}
        self.user = {}
        self.clock = None
        self.log = []


class CCtx:
    symbolic = False

    def __init__(self, inputs):
        self.vals = inputs
        self.violated = []
        self.checked = 0
        self.observed = []
        self.reached = set()
        self.patches = []
        self.counters = {}
        self.inputs = []

    # ---- inputs
    def counter(self, k):
        n = self.counters.get(k, 0)
        self.counters[k] = n + 1
        return n

    def _name(self, name):
        if name in self.inputs:
            name = f'{name}~{self.counter("dup:" + name)}'
        self.inputs.append(name)
        return name

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False,
             special=None):
        v = self.vals.get(self._name(name), 0.5)
        v = float(v)
        if pos and not v > 0:
            raise AssumeFail(name)
        if nonneg and v < 0:
            raise AssumeFail(name)
        if lo is not None and not v >= lo:
            raise AssumeFail(name)
        if hi is not None and not v <= hi:
            raise AssumeFail(name)
        return np.float64(v)

    def unit(self, cn, sn):
        c = float(self.vals.get(self._name(cn), 1.0))
        s = float(self.vals.get(self._name(sn), 0.0))
        n = math.hypot(c, s)
        return np.float64(c / n), np.float64(s / n)

    def integer(self, name, lo=None, hi=None):
        v = self.vals.get(self._name(name), lo if lo is not None else 0)
        return int(v)

    def double(self, name):
        return np.float64(float(self.vals.get(self._name(name), 0.5)))

    def boolean(self, name):
        return bool(self.vals.get(self._name(name), False))

    def string(self, name):
        return self.vals.get(self._name(name), '')

    def vec(self, name, n, **kw):
        return np.array([self.real(f'{name}{i}', **kw) for i in range(n)])

    def dvec(self, name, n):
        return np.array([self.double(f'{name}{i}') for i in range(n)])

    def mat(self, name, n, m=None, **kw):
        m = n if m is None else m
        return np.array([[self.real(f'{name}{i}{j}', **kw)
                          for j in range(m)] for i in range(n)]
                        ).reshape(n, m)

    def symmat(self, name, n, **kw):
        e = {}
        for i in range(n):
            for j in range(i, n):
                e[i, j] = e[j, i] = self.real(f'{name}{i}{j}', **kw)
        return np.array([[e[i, j] for j in range(n)] for i in range(n)])

    def array(self, data, kind='f'):
        return np.array(data, dtype={'f': float, 'i': int, 'b': bool}[kind])

    def choose(self, name, k):
        key = f'{name}#{self.counter("choose:" + name)}'
        return int(self.vals.get('choice:' + key, 0))

    # ---- logic
    def assume(self, cond):
        if not bool(cond):
            raise AssumeFail('assumption')

    def check(self, cond, label, margin=None):
        self.checked += 1
        if not bool(cond):
            self.violated.append(label)

    check_true = check

    def name(self, x):
        return x

    def hint(self, *factors):
        pass

    def fail(self, label):
        self.check(False, label)

    def check_eq(self, a, b, label, tol=None):
        if np.shape(a) != np.shape(b):
            self.check(False, label)
            return
        self.check(all(self.eq(x, y, tol) for x, y in
                       zip(np.ravel(a), np.ravel(b))), label)

    def check_le(self, a, b, label, tol=None):
        self.check(self.le(a, b, tol), label)

    def check_ge(self, a, b, label, tol=None):
        self.check(self.le(b, a, tol), label)

    def check_pos(self, a, label):
        self.check(a > 1e-10, label)

    def observe(self, name, val):
        self.observed.append((name, val))

    def reach(self, label):
        self.reached.add(label)

    def eq(self, a, b, tol=None):
        tol = TOL if tol is None else tol
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b)) if tol else a == b

    def le(self, a, b, tol=None):
        tol = TOL if tol is None else tol
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + tol * (1 + abs(a) + abs(b))

    def lt(self, a, b):
        return bool(a < b)

    def ge(self, a, b, tol=None):
        return self.le(b, a, tol)

    def near(self, a, b, tol):
        return bool(abs(a - b) <= tol)

    @staticmethod
    def And(*xs):  # noqa: N802
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):  # noqa: N802
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):  # noqa: N802
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def vec_eq(self, a, b, tol=None):
        if np.shape(a) != np.shape(b):
            return False
        return all(self.eq(x, y, tol) for x, y in
                   zip(np.ravel(a), np.ravel(b)))

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def isnan(self, x):
        return bool(np.isnan(x))

    def sqrt(self, x):
        return np.sqrt(max(x, 0.0))

    def norm(self, v):
        return np.linalg.norm(v)

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return np.max(xs)

    def min(self, *xs):
        return np.min(xs)

    # ---- environment
    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def undo_patches(self):
        for obj, name, old in reversed(self.patches):
            setattr(obj, name, old)
        self.patches = []


class Pkg:
    pass


def real_package(root):
    import importlib
    import sys
    if root not in sys.path:
        sys.path.insert(0, root)
    p = Pkg()
    p.env = Env()
    p.symbolic = False
    p.np = np
    p.linalg = np.linalg
    from scipy.sparse import csc_matrix
    p.csc_matrix = csc_matrix
    for n in ('constants', 'logging', 'subproblem', 'steps', 'stepback',
              'trust_region', 'hessian_approximation', 'minimize'):
        try:
            setattr(p, n, importlib.import_module(f'fides.{n}'))
        except ModuleNotFoundError:
            pass
    import fides
    assert fides.__file__.startswith(root), fides.__file__
    return p
