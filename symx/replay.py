"""Replays recorded inputs on the real, unpatched package.

usage: replay.py FILE.json   (interpreter of the repository, no solver)
prints one JSON line with the labels violated by the concrete run."""
import importlib
import json
import logging
import os
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def run_one(rec, root):
    import numpy as np
    from symx import concrete
    c = concrete.CCtx(rec['inputs'])
    c.root = root
    mod = importlib.import_module(rec['module'])
    if getattr(mod, 'SHARED', False):
        from symx import shared
        shared.install(root)
    F = concrete.real_package(root)
    fn = getattr(mod, rec['harness'])
    out = dict(violated=[], exception=None, assume=None, observed={})
    try:
        with np.errstate(all='ignore'):
            fn(c, F, **rec['params'])
    except concrete.AssumeFail as e:
        out['assume'] = str(e)
    except Exception as e:      # noqa: BLE001
        fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        inner = None
        for f in fr:
            if f.startswith(os.path.join(root, 'fides')):
                inner = 'fides'
            elif f.startswith(os.path.join(HERE, 'checks')):
                inner = 'harness'
        out['exception'] = dict(type=type(e).__name__, msg=str(e)[:500],
                                inner=inner, tb=traceback.format_exc()[-3000:])
    finally:
        c.undo_patches()

    def plain(v):
        if isinstance(v, np.ndarray):
            return [plain(e) for e in v.ravel()]
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        try:
            return float(v)
        except (TypeError, ValueError):
            return None
    for n, v in c.observed:
        out['observed'][n] = plain(v)
    out['violated'] = c.violated
    out['checked'] = c.checked
    return out


def main():
    warnings.simplefilter('ignore')
    # levels stay in force, nothing is written
    logging.StreamHandler.emit = lambda self, record: None
    root = os.environ.get('VERIF_TARGET', '/repo')
    sys.dont_write_bytecode = True
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    recs = rec if isinstance(rec, list) else [rec]
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        res = [run_one(r, root) for r in recs]
        os.chdir('/')
    sys.stdout.write('\n@@RESULT ' + json.dumps(
        res if isinstance(rec, list) else res[0]) + '\n')


if __name__ == '__main__':
    main()
