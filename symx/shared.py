"""Accesses to state shared between threads, for checks with `SHARED = True`.

The functions of the package are rewritten so that every access to a module
variable that some function assigns, to an attribute of a class, function or
module-level object, to an element of a module-level container, every next()
of a shared counter and every lock operation goes through `_sh_`.

symbolic run   threads are executed one after another; a read of a shared
               location that some thread writes yields a new symbol (or, for
               objects, a choice among the values written), each event gets an
               order variable, and `Session.finish` adds what a sequentially
               consistent interleaving demands: program order, every read sees
               the last write before it, sections of one lock exclude each
               other.  The interleaving itself is a solver variable.
concrete run   real threads, held at their events until the order found by
               the solver lets them pass.
"""
import ast
import builtins
import collections
import importlib.machinery
import itertools
import numbers
import operator
import re
import sys
import threading
import types

LOCKS = (type(threading.Lock()), type(threading.RLock()))
_IOP = {ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul',
        ast.Div: 'itruediv', ast.FloorDiv: 'ifloordiv', ast.Mod: 'imod',
        ast.Pow: 'ipow', ast.BitOr: 'ior', ast.BitAnd: 'iand',
        ast.BitXor: 'ixor', ast.MatMult: 'imatmul', ast.LShift: 'ilshift',
        ast.RShift: 'irshift'}
MISSING = object()


class Unencoded(Exception):
    """the accesses cannot be expressed as events"""


# --------------------------------------------------------------------------
# rewriting


def _assigned(fn):
    """names local to a function, names it declares global"""
    loc, glo = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            loc.add(x.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            loc.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return loc - glo, glo


class Rewrite(ast.NodeTransformer):
    def __init__(self, tree):
        self.globals = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
        self.scopes = []
        self.cls = []

    def _sh(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('_sh_', ast.Load()), name,
                                      ast.Load()), list(args), [])

    def _globals(self):
        return ast.Call(ast.Name('globals', ast.Load()), [], [])

    def _mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            return f'_{self.cls[-1].lstrip("_")}{n}'
        return n

    def _is_global(self, n):
        return self.scopes and n in self.globals and \
            not any(n in s for s in self.scopes)

    # ---- scopes
    def visit_ClassDef(self, n):  # noqa: N802
        self.cls.append(n.name)
        n.body = [self.visit(b) if isinstance(
            b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):  # noqa: N802
        self.scopes.append(_assigned(n)[0])
        body = []
        for b in n.body:
            r = self.visit(b)
            if isinstance(r, list):
                body += r
            elif r is not None:
                body.append(r)
        n.body = body
        self.scopes.pop()
        return n

    def visit_Lambda(self, n):  # noqa: N802
        self.scopes.append(_assigned(n)[0])
        n.body = self.visit(n.body)
        self.scopes.pop()
        return n

    def visit(self, n):
        if not self.scopes and not isinstance(
                n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.If,
                    ast.Try, ast.With)):
            return n
        return super().visit(n)

    # ---- names and attributes
    def visit_Name(self, n):  # noqa: N802
        if self._is_global(n.id):
            if not isinstance(n.ctx, ast.Load):
                raise Unencoded(f'assignment form of global {n.id}')
            return ast.copy_location(
                self._sh('gr', self._globals(), ast.Constant(n.id)), n)
        return n

    def visit_Attribute(self, n):  # noqa: N802
        n.value = self.visit(n.value)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(
                self._sh('ga', n.value, ast.Constant(self._mangle(n.attr))),
                n)
        return n

    def visit_Subscript(self, n):  # noqa: N802
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice)
        if isinstance(n.ctx, ast.Load) and not any(
                isinstance(x, ast.Slice) for x in ast.walk(n.slice)):
            return ast.copy_location(self._sh('gi', n.value, n.slice), n)
        return n

    def visit_Call(self, n):  # noqa: N802
        f = n.func
        self.generic_visit(n)
        if isinstance(f, ast.Name) and not n.keywords:
            new = {'next': 'nx', 'len': 'ln', 'getattr': 'ga',
                   'setattr': 'sa'}.get(f.id)
            if new:
                return ast.copy_location(self._sh(new, *n.args), n)
        return n

    def visit_Compare(self, n):  # noqa: N802
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self._sh('cn', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, n)
        return n

    # ---- statements
    def visit_Assign(self, n):  # noqa: N802
        n.value = self.visit(n.value)
        t = n.targets[0]
        if len(n.targets) == 1:
            if isinstance(t, ast.Name) and self._is_global(t.id):
                return self._stmt(n, self._sh('gw', self._globals(),
                                              ast.Constant(t.id), n.value))
            if isinstance(t, ast.Attribute):
                return self._stmt(n, self._sh(
                    'sa', self.visit(t.value),
                    ast.Constant(self._mangle(t.attr)), n.value))
            if isinstance(t, ast.Subscript) and not any(
                    isinstance(x, ast.Slice) for x in ast.walk(t.slice)):
                return self._stmt(n, self._sh(
                    'si', self.visit(t.value), self.visit(t.slice), n.value))
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def visit_AnnAssign(self, n):  # noqa: N802
        if n.value is None:
            return n
        return self.visit_Assign(ast.copy_location(
            ast.Assign([n.target], n.value), n))

    def visit_AugAssign(self, n):  # noqa: N802
        t = n.target
        v = ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                       self.visit(n.value))
        op = ast.Constant(_IOP[type(n.op)])
        if isinstance(t, ast.Name):
            if self._is_global(t.id):
                return self._stmt(n, self._sh(
                    'augg', self._globals(), ast.Constant(t.id), op, v))
            n.value = v.body
            return n
        if isinstance(t, ast.Attribute):
            return self._stmt(n, self._sh(
                'auga', self.visit(t.value),
                ast.Constant(self._mangle(t.attr)), op, v))
        if isinstance(t, ast.Subscript) and not any(
                isinstance(x, ast.Slice) for x in ast.walk(t.slice)):
            return self._stmt(n, self._sh(
                'augi', self.visit(t.value), self.visit(t.slice), op, v))
        n.value = v.body
        n.target = self.visit(n.target)
        return n

    def visit_Delete(self, n):  # noqa: N802
        for t in n.targets:
            if isinstance(t, ast.Name) and self._is_global(t.id):
                raise Unencoded(f'del of global {t.id}')
        return n

    def visit_With(self, n):  # noqa: N802
        self.generic_visit(n)
        if self.scopes:
            for i in n.items:
                i.context_expr = ast.copy_location(
                    self._sh('cm', i.context_expr), i.context_expr)
        return n

    def visit_NamedExpr(self, n):  # noqa: N802
        if self._is_global(n.target.id):
            raise Unencoded(f'assignment form of global {n.target.id}')
        n.value = self.visit(n.value)
        return n

    def _stmt(self, n, call):
        return ast.copy_location(ast.Expr(call), n)


def rewrite(tree):
    tree = Rewrite(tree).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# --------------------------------------------------------------------------
# accesses


def _number(v):
    return isinstance(v, numbers.Real) and not isinstance(v, bool) or \
        type(v).__name__ in ('R', 'XVar')


class _LockSection:
    def __init__(self, sh, lock):
        self.sh, self.lock = sh, lock

    def __enter__(self):
        self.sh.lock_op(self.lock, True)
        return self.lock

    def __exit__(self, *a):
        self.sh.lock_op(self.lock, False)
        return False


class Shared:
    """receiver of the rewritten accesses; transparent without a session"""

    def __init__(self):
        self.s = None

    # ---- locations
    def attr_loc(self, o, n):
        if n.startswith('__'):
            return None
        s = self.s
        if isinstance(o, types.ModuleType):
            if o.__name__.startswith('fides') and n in o.__dict__ and \
                    not isinstance(o.__dict__[n], (
                        type, types.FunctionType, types.ModuleType)):
                return ('g', o.__name__, n)
            return None
        if isinstance(o, type):
            if not o.__module__.startswith('fides'):
                return None
            for k in o.__mro__:
                if n in vars(k):
                    v = vars(k)[n]
                    if hasattr(type(v), '__get__') or isinstance(v, k):
                        return None
                    return ('c', k.__qualname__, n)
            return ('c', o.__qualname__, n)
        if isinstance(o, types.FunctionType):
            if o.__module__.startswith('fides'):
                return ('f', o.__qualname__, n)
            return None
        p = s.paths.get(id(o))
        if p is not None and hasattr(o, '__dict__') and n in vars(o):
            return ('o', p, n)
        d = getattr(o, '__dict__', None)
        if d is not None and n not in d and \
                type(o).__module__.startswith('fides'):
            loc = self.attr_loc(type(o), n)
            if loc and hasattr(type(o), n):
                return loc
        return None

    def store_loc(self, o, n):
        if isinstance(o, type):
            if o.__module__.startswith('fides'):
                return ('c', o.__qualname__, n)
            return None
        if isinstance(o, types.ModuleType):
            return ('g', o.__name__, n) if o.__name__.startswith('fides') \
                else None
        if isinstance(o, types.FunctionType):
            return ('f', o.__qualname__, n)
        p = self.s.paths.get(id(o))
        if p is not None:
            return ('o', p, n)
        return None

    # ---- module variables
    def gr(self, g, n):
        if self.s is None:
            return g[n] if n in g else getattr(builtins, n)
        return self.s.read(('g', g['__name__'], n), lambda: g[n])

    def gw(self, g, n, v):
        if self.s is None:
            g[n] = v
            return
        self.s.write(('g', g['__name__'], n), v, lambda: g.get(n, MISSING),
                     lambda: g.__setitem__(n, v))

    def augg(self, g, n, op, f):
        self.gw(g, n, getattr(operator, op)(self.gr(g, n), f()))

    # ---- attributes
    def ga(self, o, n, *default):
        s = self.s
        if s is None:
            return getattr(o, n, *default)
        if isinstance(o, LOCKS) and n in ('acquire', 'release'):
            return lambda *a, **k: self.lock_op(o, n == 'acquire', *a, **k)
        p = s.paths.get(id(o))
        if p is not None and isinstance(o, list) and n == 'append':
            return lambda v: self.append(o, p, v)
        if p is not None and isinstance(o, dict) and n in (
                'get', 'setdefault', 'update', 'pop'):
            return getattr(self, 'd_' + n)(o)
        loc = self.attr_loc(o, n)
        if loc is None:
            return getattr(o, n, *default)
        return s.read(loc, lambda: getattr(o, n, *default))

    def sa(self, o, n, v):
        s = self.s
        if s is None:
            setattr(o, n, v)
            return
        loc = self.store_loc(o, n)
        if loc is None:
            setattr(o, n, v)
        else:
            s.write(loc, v, lambda: getattr(o, n, MISSING),
                    lambda: setattr(o, n, v))

    def auga(self, o, n, op, f):
        self.sa(o, n, getattr(operator, op)(self.ga(o, n), f()))

    # ---- containers
    def gi(self, o, k):
        s = self.s
        if s is None or s.paths.get(id(o)) is None or \
                not isinstance(o, (list, dict)):
            return o[k]
        if type(o) is dict:
            v = self.gi_or(o, k)
            if v is MISSING:
                raise KeyError(k)
            return v
        return s.read(('i', s.paths[id(o)], s.key(k)), lambda: o[k])

    def si(self, o, k, v):
        s = self.s
        if s is None or s.paths.get(id(o)) is None or \
                not isinstance(o, (list, dict)):
            o[k] = v
            return
        s.touched.add(id(o))

        def old():
            try:
                return o[k]
            except LookupError:
                return MISSING
        s.write(('i', s.paths[id(o)], s.key(k)), v, old,
                lambda: o.__setitem__(k, v))

    def d_get(self, o):
        def get(k, d=None):
            v = self.gi_or(o, k)
            return d if v is MISSING else v
        return get

    def gi_or(self, o, k):
        return self.s.read(('i', self.s.paths[id(o)], self.s.key(k)),
                           lambda: o.get(k, MISSING), True)

    def d_setdefault(self, o):
        def setdefault(k, d=None):
            self.s.touched.add(id(o))
            return self.s.setdefault(
                ('i', self.s.paths[id(o)], self.s.key(k)), d,
                lambda: o.get(k, MISSING), lambda: o.setdefault(k, d))
        return setdefault

    def d_update(self, o):
        def update(*a, **kw):
            for k, v in dict(*a, **kw).items():
                self.si(o, k, v)
        return update

    def d_pop(self, o):
        def pop(k, *d):
            raise Unencoded('pop from a shared dictionary')
        return pop

    def cn(self, k, o):
        if self.s is None or self.s.paths.get(id(o)) is None or \
                not isinstance(o, dict):
            return k in o
        return self.gi_or(o, k) is not MISSING

    def augi(self, o, k, op, f):
        self.si(o, k, getattr(operator, op)(self.gi(o, k), f()))

    def ln(self, o):
        s = self.s
        if s is None or s.paths.get(id(o)) is None or \
                not isinstance(o, list):
            return len(o)
        return s.read(('n', s.paths[id(o)]), lambda: len(o))

    def append(self, o, p, v):
        self.s.touched.add(id(o))
        self.s.rmw(('n', p), 1, lambda: len(o), lambda: o.append(v))

    def nx(self, it, *d):
        s = self.s
        if s is None:
            return next(it, *d)
        if s.paths.get(id(it)) is None:
            return next(it, *d)
        if not isinstance(it, itertools.count):
            raise Unencoded(f'next() of a shared {type(it).__name__}')
        s.touched.add(id(it))
        m = re.fullmatch(r'count\((-?\d+)(?:, (-?\d+))?\)', repr(it))
        if not m:
            raise Unencoded(repr(it))
        return s.rmw(('k', s.paths[id(it)]), int(m.group(2) or 1),
                     lambda: int(re.match(r'count\((-?\d+)',
                                          repr(it)).group(1)),
                     lambda: next(it))

    # ---- locks
    def cm(self, o):
        if self.s is not None and isinstance(o, LOCKS):
            return _LockSection(self, o)
        return o

    def lock_op(self, lock, acquire, *a, **k):
        if self.s is None:
            return lock.acquire(*a, **k) if acquire else lock.release()
        if a or k:
            raise Unencoded('conditional acquisition of a lock')
        return self.s.lock(lock, acquire)


SH = Shared()


# --------------------------------------------------------------------------
# sessions


def registry(F):
    """id -> path of the mutable objects reachable from the modules"""
    paths, keep = {}, []
    kinds = (list, dict, set, bytearray, collections.deque, itertools.count)

    def visit(v, path, depth):
        if id(v) in paths or depth > 3:
            return
        t = type(v)
        if isinstance(v, kinds) or isinstance(v, types.GeneratorType):
            paths[id(v)] = path
            keep.append(v)
            if isinstance(v, (list, dict)) and depth < 3:
                for i, w in list(enumerate(v) if isinstance(v, list)
                                 else v.items()):
                    visit(w, f'{path}[{i}]', depth + 1)
        elif t.__module__.startswith('fides') and not isinstance(
                v, (type, types.FunctionType)) and \
                hasattr(v, '__dict__') and 'Enum' not in str(t.__mro__):
            paths[id(v)] = path
            keep.append(v)
            for n, w in list(vars(v).items()):
                visit(w, f'{path}.{n}', depth + 1)
        elif isinstance(v, types.FunctionType) and \
                v.__module__.startswith('fides'):
            for i, w in enumerate(v.__defaults__ or ()):
                visit(w, f'{path}.default{i}', depth + 1)
            for n, w in (v.__kwdefaults__ or {}).items():
                visit(w, f'{path}.default-{n}', depth + 1)
            for i, w in enumerate(v.__closure__ or ()):
                try:
                    visit(w.cell_contents, f'{path}.cell{i}', depth + 1)
                except ValueError:
                    pass
            for n, w in vars(v).items():
                visit(w, f'{path}.{n}', depth + 1)
        elif isinstance(v, type) and v.__module__.startswith('fides'):
            for n, w in list(vars(v).items()):
                if not n.startswith('__') or callable(w):
                    visit(getattr(w, '__func__', w), f'{path}.{n}',
                          depth + 1)
    for mn, m in sorted(vars(F).items()):
        if isinstance(m, types.ModuleType) and \
                m.__name__.startswith('fides'):
            for n, v in list(vars(m).items()):
                if not n.startswith('__'):
                    visit(v, f'{mn}.{n}', 0)
    return paths, keep


def _digest(o):
    if isinstance(o, itertools.count):
        return repr(o)
    if isinstance(o, dict):
        return tuple((id(k), id(v)) for k, v in o.items())
    if isinstance(o, (list, set, collections.deque)):
        return tuple(id(x) for x in o)
    if isinstance(o, bytearray):
        return bytes(o)
    return None


class _Base:
    def __init__(self, F):
        self.paths, self.keep = registry(F)
        self.touched = set()
        self.thread = None
        self.digests = [(o, _digest(o)) for o in self.keep]

    def key(self, k):
        if isinstance(k, (str, int, tuple, type(None))) or \
                'Enum' in str(type(k).__mro__):
            return repr(k)
        raise Unencoded(f'element {type(k).__name__} of a shared container')

    def share(self, v):
        if isinstance(v, (list, dict, set, itertools.count)) and \
                id(v) not in self.paths:
            self.paths[id(v)] = f'new{len(self.keep)}'
            self.keep.append(v)
            self.digests.append((v, _digest(v)))

    def untracked(self):
        return [self.paths[id(o)] for o, d in self.digests
                if id(o) not in self.touched and _digest(o) != d]


class Dry(_Base):
    """collects the shared locations that are written"""

    def __init__(self, F):
        super().__init__(F)
        self.written = set()

    def read(self, loc, get, missing=False):
        return get()

    def setdefault(self, loc, d, get, do):
        if get() is MISSING:
            self.written.add(loc)
            self.share(d)
        return do()

    def write(self, loc, v, old, do):
        self.written.add(loc)
        self.share(v)
        do()

    def rmw(self, loc, step, get, do):
        self.written.add(loc)
        v = get()
        do()
        return v

    def lock(self, lock, acquire):
        return True


class Symbolic(_Base):
    def __init__(self, c, F, active):
        super().__init__(F)
        self.c = c
        self.active = active
        self.count = {}
        self.events = []       # (thread, index, kind, loc, data)
        self.writes = {}
        self.init = {}
        self.quiet = []        # reads of locations nobody seems to write
        self.depth = {}
        self.open = {}
        self.sections = []

    def _k(self):
        k = self.count.get(self.thread, 0)
        self.count[self.thread] = k + 1
        return k

    def read(self, loc, get, missing=False):
        k = self._k()
        if loc not in self.active:
            v = get()
            self.quiet.append((self.thread, k, loc, v))
            return v
        if loc not in self.init:
            self.init[loc] = get()
        cands = [self.init[loc]] + [v for _, v in self.writes.get(loc, [])]
        if all(_number(v) for v in cands):
            v = self.c.real(f'v:{self.thread}:{k}')
            self.events.append((self.thread, k, 'r', loc, (v, None)))
            return v
        i = self.c.choose(f'rf:{self.thread}:{k}', len(cands))
        src = None if i == 0 else self.writes[loc][i - 1][0]
        v = cands[i]
        self.events.append((self.thread, k, 'R', loc, (v, src)))
        if v is MISSING and not missing:
            raise Unencoded(f'{loc} read before it is set')
        return v

    def setdefault(self, loc, d, get, do):
        if loc not in self.active:
            self._activate(loc)
        k = self._k()
        if loc not in self.init:
            self.init[loc] = get()
        cands = [self.init[loc]] + [v for _, v in self.writes.get(loc, [])]
        i = self.c.choose(f'rf:{self.thread}:{k}', len(cands))
        src = None if i == 0 else self.writes[loc][i - 1][0]
        v = cands[i]
        self.events.append((self.thread, k, 'R', loc, (v, src)))
        if v is not MISSING:
            return v
        self.share(d)
        do()
        self.writes.setdefault(loc, []).append(((self.thread, k), d))
        return d

    def _activate(self, loc):
        # written on some paths only: the reads before this write have
        # seen the initial value
        self.active = self.active | {loc}
        for t, j, lc, x in self.quiet:
            if lc == loc:
                self.init[loc] = x
                self.events.append((t, j, 'R', loc, (x, None)))
        self.events.sort(key=lambda e: e[:2])

    def write(self, loc, v, old, do):
        k = self._k()
        if loc not in self.active:
            self._activate(loc)
        if loc not in self.init:
            self.init[loc] = old()
        self.share(v)
        do()
        self.writes.setdefault(loc, []).append(((self.thread, k), v))
        self.events.append((self.thread, k, 'w', loc, (v, None)))

    def rmw(self, loc, step, get, do):
        k = self._k()
        if loc not in self.init:
            self.init[loc] = get()
        do()
        v = self.c.real(f'v:{self.thread}:{k}')
        self.writes.setdefault(loc, []).append(((self.thread, k), v + step))
        self.events.append((self.thread, k, 'u', loc, (v, None)))
        return v

    def lock(self, lock, acquire):
        k = self._k()
        key = (self.thread, id(lock))
        self.keep.append(lock)
        d = self.depth.get(key, 0)
        if acquire:
            if d and isinstance(lock, LOCKS[0]):
                raise Unencoded('a thread waits for a lock it holds')
            if not d:
                self.open[key] = (self.thread, k)
                self.events.append((self.thread, k, 'l', None, None))
            self.depth[key] = d + 1
        else:
            if not d:
                raise RuntimeError('release unlocked lock')
            self.depth[key] = d - 1
            if d == 1:
                self.events.append((self.thread, k, 'l', None, None))
                self.sections.append((id(lock), self.open.pop(key),
                                      (self.thread, k)))
        return True

    def finish(self, sequential=False):
        """what a sequentially consistent interleaving demands"""
        c = self.c
        if self.open:
            raise Unencoded('a lock is still held')
        bad = self.untracked()
        if bad:
            raise Unencoded(f'shared {bad} changed by other means')
        o = {}
        last = {}
        for t, k, kind, loc, _ in self.events:
            o[t, k] = c.real(f'o:{t}:{k}')
            p = 0 if sequential else t
            if p in last:
                c.assume(c.lt(o[last[p]], o[t, k]))
            last[p] = (t, k)
        for a in range(len(self.events)):
            for b in range(a):
                ta, ka, _, la, _ = self.events[a]
                tb, kb, _, lb, _ = self.events[b]
                if ta != tb and (la == lb or la is None or lb is None):
                    x, y = o[ta, ka], o[tb, kb]
                    c.assume(c.Or(c.lt(x, y), c.lt(y, x)))
        for i, (l1, a1, r1) in enumerate(self.sections):
            for l2, a2, r2 in self.sections[:i]:
                if l1 == l2 and a1[0] != a2[0]:
                    c.assume(c.Or(c.lt(o[r1], o[a2]), c.lt(o[r2], o[a1])))
        for t, k, kind, loc, data in self.events:
            if kind not in 'rRu':
                continue
            v, src = data
            me = o[t, k]
            ws = [(w, x) for w, x in self.writes.get(loc, [])
                  if w != (t, k)]
            opts = []
            for w, x in [(None, self.init[loc])] + ws:
                if kind == 'R' and w != src:
                    continue
                cond = [] if kind == 'R' else [c.eq(v, x)]
                if w is not None:
                    cond.append(c.lt(o[w], me))
                for w2, _ in ws:
                    if w2 != w:
                        after = c.lt(me, o[w2])
                        cond.append(after if w is None else
                                    c.Or(after, c.lt(o[w2], o[w])))
                opts.append(c.And(*cond) if cond else True)
            c.assume(c.Or(*opts))

    def advance(self, m):
        """m further executions of thread 0 happen here, each adding to the
        shared counters what the first one added"""
        for loc, d in self.deltas().items():
            v = self.writes[loc][-1][1] + m * d
            k = self._k()
            self.writes[loc].append(((self.thread, k), v))
            self.events.append((self.thread, k, 'w', loc, (v, None)))

    def deltas(self):
        """{location: amount one execution of thread 0 adds to it}, or raises
        if the threads do something else to shared state"""
        out = {}
        for t, k, kind, loc, data in self.events:
            if kind == 'R':
                raise Unencoded(f'object {loc} is shared')
        for loc, ws in self.writes.items():
            rd = [d[0] for t, k, kind, lc, d in self.events
                  if lc == loc and kind in 'ru' and t == 0]
            mine = [v for (t, k), v in ws if t == 0]
            if not rd or not mine:
                raise Unencoded(f'{loc} is not a counter')
            d = mine[-1] - rd[0]
            if hasattr(d, 'is_const'):
                if not d.is_const():
                    raise Unencoded(f'{loc} is not a counter')
                d = d.const_val()
            out[loc] = d
        return out


class Real(_Base):
    """real threads, held at their events in the order of the solver"""

    def __init__(self, c, F):
        super().__init__(F)
        self.order = [tuple(int(x) for x in n.split(':')[1:]) for v, n in
                      sorted((float(v), n) for n, v in c.vals.items()
                             if re.fullmatch(r'o:\d+:\d+', n))]
        self.cv = threading.Condition()
        self.tls = threading.local()
        self.done = set()
        self.late = False

    def _head(self):
        while self.order and self.order[0][0] in self.done:
            self.order.pop(0)
        return self.order[0] if self.order else None

    def event(self, do):
        t = getattr(self.tls, 't', None)
        if t is None:
            return do()
        k = self.tls.k
        self.tls.k = k + 1
        if (t, k) not in self.order:
            return do()
        with self.cv:
            if not self.cv.wait_for(lambda: self._head() == (t, k) or
                                    self.late, 10):
                self.late = True
            try:
                return do()
            finally:
                if (t, k) in self.order:
                    self.order.remove((t, k))
                self.cv.notify_all()

    def read(self, loc, get, missing=False):
        return self.event(get)

    def setdefault(self, loc, d, get, do):
        return self.event(do)

    def write(self, loc, v, old, do):
        self.share(v)
        return self.event(do)

    def rmw(self, loc, step, get, do):
        def both():
            v = get()
            do()
            return v
        return self.event(both)

    def lock(self, lock, acquire):
        return self.event((lambda: lock.acquire(timeout=10)) if acquire
                          else lock.release)

    def run(self, bodies, successive):
        res = [None] * len(bodies)

        def work(t):
            self.tls.t, self.tls.k = t, 0
            try:
                res[t] = (bodies[t](), None)
            except BaseException as e:   # noqa: BLE001
                res[t] = (None, e)
            with self.cv:
                self.done.add(t)
                self.cv.notify_all()
        th = [threading.Thread(target=work, args=(t,), daemon=True)
              for t in range(len(bodies))]
        for x in th:
            x.start()
            if successive:
                x.join(60)
        for x in th:
            x.join(60)
        return res


_active = {}


def threads(c, F, bodies, key, between=None, successive=False, dry=None):
    """executes bodies[i](F) as thread i; in the symbolic run the interleaving
    is symbolic.  With `between` (a function giving a number) the bodies run
    one after the other, that many further executions of the first between.
    `successive`: each thread ends before the next begins, which may be given
    the same identifier.  Returns the results."""
    if not c.symbolic and between is not None:
        r0 = bodies[0](F)
        for _ in range(int(between())):
            bodies[0](F)
        return [r0] + [b(F) for b in bodies[1:]]
    if not c.symbolic:
        s = Real(c, F)
        SH.s = s
        try:
            res = s.run([lambda b=b: b(F) for b in bodies], successive)
        finally:
            SH.s = None
        for _, e in res:
            if e is not None:
                raise e
        return [r for r, _ in res]
    from . import loader
    from .engine import Unsupported
    try:
        if key not in _active:
            F2 = loader.instance()
            F2.env.clock = F.env.clock
            d = Dry(F2)
            SH.s = d
            for _ in range(2):
                for t, b in enumerate(dry or bodies):
                    d.thread = t
                    b(F2)
            SH.s = None
            bad = d.untracked()
            if bad:
                raise Unencoded(f'shared {bad} changed by other means')
            _active[key] = d.written
        s = Symbolic(c, F, _active[key])
        s.successive = successive
        SH.s = s
        res = []
        for t, b in enumerate(bodies):
            s.thread = t
            res.append(b(F))
            if between is not None and t == 0:
                try:
                    s.advance(between())
                    c.reach('many runs between')
                except Unencoded:
                    pass
        SH.s = None
        s.finish(between is not None or successive)
        if s.writes or s.sections:
            c.reach('shared state')
        return res
    except Unencoded as e:
        raise Unsupported(str(e)) from e
    finally:
        SH.s = None


def fresh(c, F):
    """the package as a new process sees it"""
    if c.symbolic:
        from . import loader
        G = loader.instance()
        G.env.clock = F.env.clock
        return G
    from . import concrete
    old = {n: sys.modules.pop(n) for n in list(sys.modules)
           if n.split('.')[0] == 'fides'}
    try:
        return concrete.real_package(c.root)
    finally:
        for n in list(sys.modules):
            if n.split('.')[0] == 'fides':
                del sys.modules[n]
        sys.modules.update(old)


def current():
    s = SH.s
    if s is None:
        return 0
    return s.thread or 0


def ident():
    s = SH.s
    return 10000 if getattr(s, 'successive', False) else 10000 + current()


def make_threading():
    """threading as seen by the simulated threads"""
    m = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in vars(threading).items()
                       if not k.startswith('__')})

    class local:  # noqa: N801
        def __init__(self):
            object.__setattr__(self, '_d', {})

        def __getattr__(self, n):
            d = self._d.get(current(), {})
            if n not in d:
                raise AttributeError(n)
            return d[n]

        def __setattr__(self, n, v):
            self._d.setdefault(current(), {})[n] = v

    class T:
        def __init__(self, t):
            self.ident = self.native_id = ident()
            self.name = f'Thread-{t + 1}'
            self.daemon = True

        def getName(self):  # noqa: N802
            return self.name
    m.local = local
    m.get_ident = m.get_native_id = ident
    m.current_thread = m.currentThread = lambda: T(current())
    return m


# --------------------------------------------------------------------------
# real package with the same rewriting


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(rewrite(ast.parse(data, path)), path, 'exec',
                       dont_inherit=True)

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        return self.source_to_code(self.get_data(p), p)


class _Finder:
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'fides':
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            name, path if path is not None else [self.root])
        if spec is not None and spec.origin and \
                spec.origin.endswith('.py'):
            spec.loader = _Loader(name, spec.origin)
        return spec


def install(root):
    builtins._sh_ = SH
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(root))
