"""Runs the tasks of one check in parallel worker processes, replays every
counterexample on the real package and writes the evidence file."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def _worker(conn, module, task, prefixes, slice_s, deadline):
    try:
        sys.setrecursionlimit(20000)
        from . import engine, loader
        mod = importlib.import_module(module)
        loader.SHARED = getattr(mod, 'SHARED', False)
        loader.compile_all()
        loader.start_monitor()
        fn = getattr(mod, task['harness'])
        t = engine.Task(fn, task.get('params', {}),
                        feas_ms=task.get('feas_ms', 3000),
                        obl_ms=task.get('obl_ms', 60000),
                        time_limit=max(1.0, deadline - time.time()),
                        max_paths=task.get('max_paths', 10 ** 7),
                        lazy=task.get('lazy', False))
        t.run(loader.instance, prefixes, slice_s)
        if engine.PROFILE:
            with open(f'/tmp/symx_profile.{os.getpid()}', 'w') as f:
                json.dump(engine.PROFILE, f)
        res = dict(stats=t.stats, labels=t.labels, cex=t.cex,
                   exceptions=t.exceptions, samples=t.samples,
                   reached=t.reached, complete=t.complete,
                   leftover=t.leftover, unknown=t.unknown_labels,
                   queries=t.S.n_queries, t_solver=t.S.t_solver,
                   unknown_feas=t.S.n_unknown_feas, wall=t.wall,
                   nvars=len(t.S.vars),
                   executed=sorted(loader.executed))
    except BaseException as e:   # noqa: BLE001
        res = dict(error=f'{type(e).__name__}: {e}',
                   tb=traceback.format_exc()[-4000:])
    try:
        conn.send(res)
    finally:
        conn.close()
        os._exit(0)


class Run:
    def __init__(self, pid, module, tier):
        self.pid = pid
        self.tier = tier
        self.module = module
        self.mod = importlib.import_module(module)
        self.stats = {}
        self.labels = {}
        self.samples = []
        self.reached = {}
        self.problems = []
        self.executed = set()
        self.queries = 0
        self.t_solver = 0.0
        self.unknown_feas = 0
        self.violations = []
        self.known_hits = []
        self.spurious = []
        self.replayed = 0
        self.per_task = {}
        self.t0 = time.time()
        self.replay_dir = os.path.join(HERE, 'evidence', 'replay')
        self.known = load_known(pid)

    # ---- replay
    def replay(self, recs, timeout=120):
        os.makedirs(self.replay_dir, exist_ok=True)
        h = hashlib.sha1(json.dumps(recs, sort_keys=True,
                                    default=str).encode()).hexdigest()[:10]
        path = os.path.join(self.replay_dir, f'{self.pid}-{h}.json')
        with open(path, 'w') as f:
            json.dump(recs, f, indent=1)
        env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        try:
            r = subprocess.run(
                [PY, '-B', os.path.join(HERE, 'symx', 'replay.py'), path],
                capture_output=True, text=True, timeout=timeout, env=env,
                cwd='/')
        except subprocess.TimeoutExpired:
            return path, None, 'replay timed out'
        for line in r.stdout.splitlines():
            if line.startswith('@@RESULT '):
                return path, json.loads(line[9:]), ''
        return path, None, (r.stdout + r.stderr)[-2000:]

    def rec(self, task, inputs, label):
        return dict(property=self.pid, module=self.module,
                    harness=task['harness'], task=task['name'],
                    params=task.get('params', {}), inputs=inputs,
                    label=label)

    def handle_cex(self, task, c):
        """True if a new violation was confirmed"""
        path, res, err = self.replay(self.rec(task, c['inputs'], c['label']))
        self.replayed += 1
        if res is None:
            self.problems.append(f'{task["name"]}: replay failed: {err}')
            return False
        ok = c['label'] in res['violated']
        if not ok and res['exception'] and res['exception']['inner'] == \
                'fides' and not res['violated']:
            # the real code fails outright on this input
            ok = True
        if ok:
            k = self.match_known(task, c['label'])
            if k:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return False
            self.violations.append(dict(
                task=task['name'], label=c['label'], replay=path,
                inputs=c['inputs'], result=res))
            return True
        self.spurious.append(dict(task=task['name'], label=c['label'],
                                  inputs=c['inputs'], result=res))
        return False

    def handle_exception(self, task, e):
        if e['unsupported'] or e['inputs'] is None:
            self.problems.append(
                f'{task["name"]}: {e["type"]}: {e["msg"]}\n{e["tb"]}')
            return False
        label = 'exception:' + e['type']
        path, res, err = self.replay(self.rec(task, e['inputs'], label))
        self.replayed += 1
        if res is None:
            self.problems.append(f'{task["name"]}: replay failed: {err}')
            return False
        x = res['exception']
        if x and x['type'].lstrip('_') == e['type'].lstrip('_') and \
                x['inner'] == 'fides':
            k = self.match_known(task, label)
            if k:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return False
            self.violations.append(dict(
                task=task['name'], label=label, replay=path,
                inputs=e['inputs'], result=res))
            return True
        if res['violated']:
            self.violations.append(dict(
                task=task['name'], label=res['violated'][0], replay=path,
                inputs=e['inputs'], result=res))
            return True
        self.problems.append(
            f'{task["name"]}: unexpected {e["type"]}: {e["msg"]} (real: {x})'
            f'\n{e["tb"]}')
        return False

    def match_known(self, task, label):
        for k in self.known:
            if k['label'] == label and k.get('task') in (None, task['name']):
                return k
        return None

    # ---- scheduling
    def execute(self, limit, slice_s=8.0, only=None):
        tasks = self.mod.tasks(self.tier)
        if only:
            tasks = [t for t in tasks if only in t['name']]
        names = [t['name'] for t in tasks]
        assert len(set(names)) == len(names), 'task names must be unique'
        end = self.t0 + limit
        queue = [(t, None) for t in tasks]
        running = {}
        n_spur = 0
        stop = False
        ctx = mp.get_context('fork')
        while (queue or running) and not stop:
            while queue and len(running) < WORKERS:
                task, pref = queue.pop(0)
                a, b = ctx.Pipe(False)
                dl = min(end, time.time() + task.get('limit', limit))
                p = ctx.Process(target=_worker, args=(
                    b, self.module, task, pref, slice_s, dl), daemon=True)
                p.start()
                b.close()
                running[p.sentinel] = (p, a, task, dl)
            ready = mp.connection.wait(
                [r[1] for r in running.values()], timeout=0.5)
            now = time.time()
            for key in list(running):
                p, a, task, dl = running[key]
                if a in ready:
                    try:
                        res = a.recv()
                    except EOFError:
                        res = dict(error='worker died')
                    a.close()
                    p.join()
                    del running[key]
                elif now > dl + 60:
                    p.kill()
                    p.join()
                    a.close()
                    del running[key]
                    res = dict(error='worker exceeded its deadline')
                else:
                    continue
                if 'error' in res:
                    self.problems.append(
                        f'{task["name"]}: {res["error"]}\n'
                        f'{res.get("tb", "")}')
                    continue
                self.merge(task, res)
                for c in res['cex']:
                    if self.handle_cex(task, c):
                        stop = True
                        break
                    n_spur += 1
                if stop:
                    break
                for e in res['exceptions']:
                    if self.handle_exception(task, e):
                        stop = True
                        break
                    n_spur += 1
                if stop:
                    break
                if res['leftover']:
                    if n_spur > 60:
                        self.problems.append('too many unconfirmed '
                                             'counterexamples')
                        stop = True
                        break
                    lo = res['leftover']
                    k = max(1, min(len(lo), WORKERS - len(running)
                                   - len(queue)))
                    for i in range(k):
                        part = lo[i::k]
                        if part:
                            queue.append((task, part))
                elif not res['complete'] and not res['cex'] and \
                        not res['exceptions']:
                    self.problems.append(
                        f'{task["name"]}: exploration incomplete '
                        f'(time or path limit)')
        for p, a, task, dl in running.values():
            p.kill()
            p.join()
        self.wall = time.time() - self.t0

    def merge(self, task, res):
        for k, v in res['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, (a, b, u) in res['labels'].items():
            d = self.labels.setdefault(k, [0, 0, 0])
            d[0] += a
            d[1] += b
            d[2] += u
        for u in res['unknown']:
            self.problems.append(f'{task["name"]}: solver undecided: {u}')
        for r, n in res['reached'].items():
            self.reached[r] = self.reached.get(r, 0) + n
        pt = self.per_task.setdefault(task['name'], dict(
            paths=0, cut=0, wall=0.0, samples=0))
        pt['paths'] += res['stats']['paths']
        pt['cut'] += res['stats']['cut']
        pt['wall'] = round(pt['wall'] + res['wall'], 2)
        for s in res['samples']:
            if pt['samples'] < 2:
                pt['samples'] += 1
                self.samples.append((task, s))
        self.executed |= {tuple(e) for e in res['executed']}
        self.queries += res['queries']
        self.t_solver += res['t_solver']
        self.unknown_feas += res['unknown_feas']

    def validate_samples(self, limit=24):
        """replays sampled paths; compares observed values"""
        self.traces = 0
        self.degenerate = 0
        self.mismatch = []
        sel = [(t, s) for t, s in self.samples
               if t.get('replay_samples', True)]
        step = max(1, len(sel) // limit)
        sel = sel[::step][:limit]
        if not sel:
            return
        recs = [self.rec(t, s['inputs'], None) for t, s in sel]
        path, res, err = self.replay(recs, timeout=200)
        try:
            os.remove(path)
        except OSError:
            pass
        if res is None:
            self.mismatch.append('sample replay failed: ' + err)
            return
        for (t, s), r in zip(sel, res):
            if r['assume']:
                continue
            bad = None
            if r['exception']:
                bad = 'exception ' + r['exception']['type'] + ' ' + \
                    r['exception']['msg']
            elif r['violated']:
                bad = 'violated ' + str(r['violated'])
            else:
                for n, v in s['observed'].items():
                    if v is not None and n in r['observed'] and not close(
                            v, r['observed'][n]):
                        bad = f'observed {n}: encoding {v} ' \
                              f'real {r["observed"][n]}'
                        break
            if bad and s.get('degenerate'):
                self.degenerate += 1
            elif bad:
                self.mismatch.append(f'{t["name"]}: {bad} '
                                     f'inputs={s["inputs"]}')
            else:
                self.traces += 1


def close(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list) != isinstance(b, list):
        if isinstance(a, list) and len(a) == 1:
            a = a[0]
        elif isinstance(b, list) and len(b) == 1:
            b = b[0]
        else:
            return False
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]


def evidence(run, path):
    mod = run.mod
    st = run.stats
    samples = []
    for t, s in run.samples[:6]:
        samples.append(dict(task=t['name'], inputs=s['inputs']))
    cov = dict(
        explanation='symbolic paths of the real code explored to the stated '
        'bounds (states), branch decisions and obligations decided '
        '(transitions); every obligation holds for all inputs of its path',
        states=st.get('paths', 0),
        transitions=st.get('branches', 0) + st.get('obligations', 0),
        traces_validated_against_impl=run.traces + run.replayed,
        samples=samples or [dict(note='no satisfying path sampled')],
        obligations=st.get('obligations', 0),
        discharged=st.get('discharged', 0),
        decided_by_solver_query=st.get('nontrivial', 0),
        undecided=st.get('unknown', 0),
        paths=st.get('paths', 0), infeasible_paths=st.get('aborted', 0),
        paths_cut_at_bound=st.get('cut', 0), branches=st.get('branches', 0),
        solver_queries=run.queries, solver_seconds=round(run.t_solver, 2),
        feasibility_unknown_treated_as_feasible=run.unknown_feas,
        functions_encoded=[f'{f}:{ln} {q}' for f, q, ln in
                           sorted(run.executed)],
        bounds=getattr(mod, 'BOUNDS', ''),
        outside_the_claim=getattr(mod, 'OUTSIDE', []),
        labels={k: dict(obligations=a, discharged=b, undecided=u)
                for k, (a, b, u) in sorted(run.labels.items())},
        reached=run.reached, tasks=run.per_task,
        sample_mismatches=run.mismatch,
        samples_on_exact_ties_not_compared=run.degenerate,
        violations=[dict(task=v['task'], label=v['label'],
                         replay=v['replay'], inputs=v['inputs'])
                    for v in run.violations],
        known_findings=[k['what'] for k in run.known_hits],
        unconfirmed=run.spurious[:10], problems=run.problems[:20],
    )
    ev = dict(property=run.pid, tier=run.tier,
              seed=int(os.environ.get('VERIF_SEED', '1')),
              level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(run.wall, 2), violations=len(run.violations))
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    return ev


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    run = Run(pid, f'checks.{pid.lower()}', tier)
    limit = 700 if tier == 'quick' else 4 * 3600
    run.execute(limit, only=a.only)
    run.traces, run.mismatch, run.degenerate = 0, [], 0
    if not run.violations:
        run.validate_samples(24 if tier == 'quick' else 120)
    ev = evidence(run, os.path.join(HERE, 'evidence', f'{pid}.json'))
    st = run.stats
    print(f'{pid} [{tier}] paths={st.get("paths", 0)} '
          f'cut={st.get("cut", 0)} branches={st.get("branches", 0)} '
          f'obligations={st.get("obligations", 0)} '
          f'discharged={st.get("discharged", 0)} '
          f'queries={run.queries} solver={run.t_solver:.1f}s '
          f'wall={run.wall:.1f}s traces={run.traces}')
    if a.v:
        for k, v in sorted(run.per_task.items()):
            print('   ', k, v)
        for k, v in sorted(run.labels.items()):
            print('   ', k, v)
        print('    reached', run.reached)
        for m in run.mismatch:
            print('    MISMATCH', m)
        for s in run.spurious[:5]:
            print('    UNCONFIRMED', s)
    for k in run.known_hits:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if run.violations:
        v = run.violations[0]
        print(f'violated: {v["label"]} in {v["task"]}')
        print('inputs:', json.dumps(v['inputs'], default=str))
        if v['result'].get('exception'):
            print('exception:', v['result']['exception']['type'],
                  v['result']['exception']['msg'])
        print(f'VIOLATION property={pid} replay={v["replay"]}')
        return 1
    miss = [r for r in getattr(run.mod, 'REACH', [])
            if not run.reached.get(r)]
    if miss and not a.only:
        run.problems.append(f'never reached: {miss} (vacuous check)')
    real_spur = [s for s in run.spurious]
    if real_spur:
        s = real_spur[0]
        run.problems.append(
            f'{len(real_spur)} counterexamples did not reproduce on the real '
            f'code, e.g. {s["label"]} in {s["task"]}: {s["inputs"]} -> '
            f'{s["result"]}')
    if len(run.mismatch) >= 2 and len(run.mismatch) * 4 > run.traces:
        run.problems.append(f'{len(run.mismatch)} sampled paths behave '
                            f'differently on the real code: '
                            f'{run.mismatch[0]}')
    if run.problems:
        print(f'INCONCLUSIVE property={pid}')
        for p in run.problems[:6]:
            print('  -', p)
        return 2
    return 0
