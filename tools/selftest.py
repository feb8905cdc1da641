"""setup: nothing to build; verifies that the tools are usable"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import z3  # noqa: E402
from symx import engine, loader  # noqa: E402

loader.compile_all()


def harness(c, F):
    x = c.real('x')
    v = F.np.sign(x)
    c.check_eq(v * v * x, x, 'sign')


t = engine.Task(harness, {})
t.run(loader.instance)
assert t.complete and not t.cex and not t.exceptions, (t.cex, t.exceptions)
print('ok', z3.get_version_string(), t.stats['paths'], 'paths')
