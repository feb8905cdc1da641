"""C25: concurrent optimizations never share a logger."""
from symx import shared

from . import orch

SHARED = True
BOUNDS = ('two threads with two complete minimize calls each (same or '
          'different optimizers within a thread; thorough: also three threads '
          'and three calls), maxiter=0, every sequentially consistent '
          'interleaving of the accesses to module variables, class and '
          'function attributes, module-level containers and counters, and '
          'lock operations; a thread that starts after another has ended '
          'and gets the same identifier; two runs with up to 5000 (thorough: '
          '20000) other runs between them')
ASSUMPTIONS = ['next() of itertools.count, list.append and each single read '
               'or write of a variable are atomic',
               'logging.getLogger is atomic and returns the same object for '
               'the same name', 'the clock does not advance between accesses',
               'uuid values are unique']
OUTSIDE = ['loggers created by the caller under the same names',
           'an object-valued variable read by the first thread in order of '
           'execution takes a value written by itself or by nobody (threads '
           'run the same code, so the mirrored interleaving is covered)',
           'shared containers other than lists used as counters and '
           'dictionaries accessed by subscript']
REACH = ['compared', 'handlers', 'messages']


def unwrap(lg):
    while not hasattr(lg, 'handlers') and hasattr(lg, 'logger'):
        lg = lg.logger
    return lg


def same(c, F, a, b):
    if a is b:
        return True
    if c.symbolic:
        st = [x for x in F.env.loggers.values()]
        if any(a is x for x in st) and any(b is x for x in st):
            from symx.engine import text_eq
            return text_eq(str(a.name), str(b.name))
    return False


def body(c, runs, reuse, msgs, g, h):
    """one thread: complete runs, what was seen during each"""
    def work(F):
        import threading
        out = []
        opt = None
        for r in range(runs):
            info = {}

            def fun(x, info=info):
                lg = unwrap(info['opt'].logger)
                info.setdefault('logger', lg)
                info.setdefault('handlers', len(lg.handlers))
                return 1.0, g, h
            if opt is None or not reuse:
                opt = F.minimize.Optimizer(
                    fun, ub=c.array([float('inf')]),
                    lb=c.array([-float('inf')]), verbose=10,
                    options={'maxiter': 0})
            else:
                opt.fevaler.fun = fun
            info['opt'] = opt
            log = F.env.log if c.symbolic else msgs.setdefault(
                threading.get_ident(), [])
            a = len(log)
            opt.minimize(c.array([0.0]))
            info['after'] = unwrap(opt.logger)
            info['n_after'] = len(info['after'].handlers)
            info['to'] = [x[1] if c.symbolic else x for x in log[a:]]
            del info['opt']     # a finished optimizer is collected
            if not reuse:
                opt = None
            out.append(info)
        return out
    return work


def listen(c, msgs):
    """records which logger every message is sent to (real logging)"""
    if c.symbolic:
        return
    import logging
    import threading

    def enabled(self, level):
        msgs.setdefault(threading.get_ident(), []).append(self)
        return False
    c.patch(logging.Logger, 'isEnabledFor', enabled)


def compare(c, F, results):
    runs = [i for r in results for i in r]
    for i, a in enumerate(runs):
        c.check('logger' in a, 'evaluated')
        for b in runs[:i]:
            c.check(c.Not(same(c, F, a['logger'], b['logger'])), 'own-logger')
        c.check(a['handlers'] == 1, 'one-handler')
        c.check(a['n_after'] <= 1 and a['after'] is a['logger'],
                'one-handler-after')
        for m in a['to']:
            c.check(unwrap(m) is a['logger'], 'messages-to-own-logger')
        if a['to']:
            c.reach('messages')
    c.reach('compared')
    c.reach('handlers')


def interleave(c, F, threads, runs, reuse, successive=False):
    orch.set_clock(c, F, lambda: 1000.0)
    msgs = {}
    listen(c, msgs)
    g, h = c.array([1.0]), c.array([[1.0]])
    bodies = [body(c, runs, reuse, msgs, g, h) for _ in range(threads)]
    compare(c, F, shared.threads(c, F, bodies, (threads, runs, reuse),
                                 successive=successive))


def history(c, F, limit):
    orch.set_clock(c, F, lambda: 1000.0)
    msgs = {}
    listen(c, msgs)
    g, h = c.array([1.0]), c.array([[1.0]])
    bodies = [body(c, 1, False, msgs, g, h) for _ in range(2)]
    compare(c, F, shared.threads(
        c, F, bodies, 'history',
        lambda: c.integer('between', 0, limit)))


def tasks(tier):
    t = []
    for th, runs, reuse in [(2, 1, False), (2, 2, True), (2, 2, False)] + (
            [(3, 1, False), (3, 2, True), (2, 3, True)]
            if tier == 'thorough' else []):
        t.append(dict(name=f'interleave-{th}x{runs}'
                      f'{"-reuse" if reuse else ""}', harness='interleave',
                      params=dict(threads=th, runs=runs, reuse=reuse)))
    t.append(dict(name='successive', harness='interleave', params=dict(
        threads=2, runs=2, reuse=False, successive=True)))
    t.append(dict(name='history', harness='history', params=dict(
        limit=5000 if tier == 'quick' else 20000)))
    return t
