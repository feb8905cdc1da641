"""Runs the check of each planted bug's property on a scratch copy of /repo
with the bug applied.   usage: runseeds.py [ID-PREFIX ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = '/verif/seeded'


def note(sid, text):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     'seeds.json')
    try:
        d = json.load(open(p))
    except OSError:
        d = {}
    d[sid] = text.replace('|', '/')
    with open(p, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')


def main():
    want = sys.argv[1:]
    for sid in sorted(os.listdir(ROOT)):
        if want and not any(sid.startswith(w) for w in want):
            continue
        d = os.path.join(ROOT, sid)
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        work = tempfile.mkdtemp(prefix='run-')
        tree = os.path.join(work, 'repo')
        try:
            subprocess.run(['cp', '-a', '/repo', tree], check=True)
            r = subprocess.run(['git', 'apply', os.path.join(
                d, 'patch.diff')], cwd=tree)
            if r.returncode:
                print(sid, 'PATCH DOES NOT APPLY')
                continue
            t0 = time.time()
            try:
                r = subprocess.run(
                    ['python3-vt', '-W', 'ignore', '/verif/check.py', pid],
                    env=dict(os.environ, VERIF_TARGET=tree), timeout=900,
                    capture_output=True, text=True, cwd='/verif')
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
            hit = f'VIOLATION property={pid} ' in out
            lab = [l for l in out.splitlines()
                   if l.startswith(('violated', 'INCONCL', '  - '))]
            print(f'{sid} {pid} rc={rc} '
                  f'{"CAUGHT" if rc == 1 and hit else "MISSED"} '
                  f'{time.time() - t0:.0f}s', (lab or [''])[0][:200],
                  '' if hit else ' | '.join(lab)[:600], flush=True)
            lb = (lab or [''])[0].replace('violated: ', '').split(' in ')[0]
            note(sid, f'{pid}: {lb}' if rc == 1 and hit else
                 f'missed ({pid}, exit {rc})')
        finally:
            shutil.rmtree(work)


if __name__ == '__main__':
    main()
