"""Plants a bug in a scratch copy of /repo, confirms that it builds, passes
the stable tests and is told apart by its demonstration, and keeps it as
/verif/seeded/<id>.

usage: mkseed.py SPEC.py [ID ...]; SPEC defines SEEDS, a list of dicts with
id, property, needs, breaks, edits [(file, old, new)], demo (python source)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

REPO, OUT = '/repo', '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0',
                       'HEAD'], capture_output=True,
                      text=True).stdout.split()[0]


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                          capture_output=True, text=True)


def run_demo(folder, cwd):
    return sh(['bash', os.path.join(folder, 'demo.sh')], cwd=cwd,
              timeout=300)


def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:]
    for s in spec:
        if ids and s['id'] not in ids:
            continue
        out = os.path.join(OUT, s['id'])
        work = tempfile.mkdtemp(prefix='seed-')
        tree = os.path.join(work, 'repo')
        try:
            sh(['cp', '-a', REPO, tree])
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(tree, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'edit does not apply:', f, t.count(old))
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            diff = sh(['git', 'diff'], cwd=tree).stdout
            base = {f: sh(['git', 'show', f'{BASE}:{f}'], cwd=REPO).stdout
                    .splitlines() for f, _, _ in s['edits']}
            gone = [l[1:] for l in diff.splitlines()
                    if l.startswith('-') and not l.startswith('---')]
            lines = [x for b in base.values() for x in b]
            alien = [l for l in gone if l not in lines]
            if alien or not gone:
                print(s['id'], 'NOTE lines not in the original:', alien)
            tmp = os.path.join(work, 'demo')
            os.makedirs(tmp)
            open(os.path.join(tmp, 'demo.py'), 'w').write(
                s['demo'].strip() + '\n')
            open(os.path.join(tmp, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# fails with the change, passes without\n'
                'D=$(cd "$(dirname "$0")" && pwd)\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                'PY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
                'exec "$PY" -W ignore "$D/demo.py"\n')
            a, b = run_demo(tmp, REPO), run_demo(tmp, tree)
            if a.returncode != 0 or b.returncode == 0:
                print(s['id'], 'demo', a.returncode, b.returncode,
                      (a.stdout + a.stderr)[-800:],
                      (b.stdout + b.stderr)[-800:])
                continue
            env = dict(os.environ, PYTHONPATH=tree, HOME='/root',
                       PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
            for _ in range(2):
                r = sh([PY, '-m', 'pytest', '-q', '-x', '-n', '8', '-p',
                        'no:cacheprovider', '--timeout=300',
                        '--randomly-seed=0', '--randomly-dont-reorganize',
                        'tests'], cwd=tree, env=env)
                tail = r.stdout.strip().splitlines()[-3:]
                if r.returncode == 0:
                    break
            if r.returncode:
                print(s['id'], 'TESTS FAIL', tail)
                continue
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.makedirs(out)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(tmp, f), out)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            json.dump(dict(property=s['property'], needs=s['needs'],
                           what_it_breaks=s['breaks']),
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            print(s['id'], 'kept', tail)
        finally:
            shutil.rmtree(work)


if __name__ == '__main__':
    main()
