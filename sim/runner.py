"""Parent process: seeds -> scenarios -> workers -> verdict, replay, evidence."""

import importlib
import json
import os
import queue
import re
import select
import subprocess
import sys
import threading
import time

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
BASE_XLA = '--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false'


def worker_env(extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f'{core.SRC}:{VERIF}',
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONHASHSEED='0',
        JAX_PLATFORMS='cpu',
        JAX_TRACEBACK_FILTERING='off',
        XLA_FLAGS=BASE_XLA,
        TF_CPP_MIN_LOG_LEVEL='3',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
    )
    env.update(extra or {})
    return env


class Worker:
    """A subprocess plus the thread feeding it."""

    def __init__(self, prop, env, errfile):
        self.prop, self.env, self.errfile = prop, env, errfile
        self.proc = None
        self.done = 0

    def start(self):
        self.proc = subprocess.Popen(
            [PYTHON, '-m', 'sim.worker'], cwd=VERIF, env=self.env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errfile,
            text=True, bufsize=1, start_new_session=True,
        )
        self.done = 0

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, 9)
            except ProcessLookupError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def call(self, ident, scenario, timeout, recycle):
        if self.proc is None or self.done >= recycle:
            self.stop()
            self.start()
        try:
            self.proc.stdin.write(json.dumps(dict(id=ident, prop=self.prop, scenario=scenario)) + '\n')
            self.proc.stdin.flush()
            ready, _, _ = select.select([self.proc.stdout], [], [], timeout)
            if not ready:
                self.stop()
                return dict(status='timeout', detail=f'no answer within {timeout} s')
            line = self.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            rc = self.proc.poll()
            self.stop()
            return dict(status='died', detail=f'worker died, rc={rc}')
        self.done += 1
        return json.loads(line)


class Pool:
    def __init__(self, prop, nworkers, env, timeout, recycle, errfile):
        self.timeout, self.recycle = timeout, recycle
        self.workers = [Worker(prop, env, errfile) for _ in range(nworkers)]

    def map(self, items, stop=lambda: False, on_result=None, deadline=None):
        """Process (id, scenario) pairs; returns {id: result}."""
        items = list(items)
        results, lock, pos = {}, threading.Lock(), [0]

        def feed(worker):
            while True:
                with lock:
                    if pos[0] >= len(items) or stop() or (deadline and time.monotonic() > deadline):
                        return
                    ident, scenario = items[pos[0]]
                    pos[0] += 1
                t0 = time.monotonic()
                res = worker.call(ident, scenario, self.timeout, self.recycle)
                res['wall'] = time.monotonic() - t0
                with lock:
                    results[ident] = res
                    if on_result:
                        on_result(ident, scenario, res)

        threads = [threading.Thread(target=feed, args=(w,)) for w in self.workers]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results

    def close(self):
        for w in self.workers:
            w.stop()


def load(prop):
    return importlib.import_module(f'sim.props.{prop.lower()}')


def known_findings(prop):
    """Entries 'finding: property=<id> kind=<regex> match=<regex> ...'."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) kind=/(.*?)/ match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def is_known(res, findings):
    for kind, match, text in findings:
        if re.search(kind, res.get('kind', '')) and re.search(match, res.get('detail', ''), re.S):
            return text
    return None


BAD = ('violation', 'timeout', 'died')


def fresh(prop, scenario, env, timeout, errfile):
    w = Worker(prop, env, errfile)
    try:
        res = w.call(0, scenario, timeout, 10)
    finally:
        w.stop()
    if res['status'] in ('timeout', 'died'):
        # a scenario which normally takes seconds hangs or kills the process
        res['kind'] = res['status']
    return res


def minimise(pool, mod, scenario, kind, seconds):
    """Greedy parallel shrinking; keeps the violation class."""
    end = time.monotonic() + seconds
    tried, rounds = 0, 0
    current = scenario
    while time.monotonic() < end:
        cands, seen = [], set()
        for c in mod.shrink(current):
            key = core.digest(c)
            if key not in seen and key != core.digest(current):
                seen.add(key)
                cands.append(c)
        if not cands:
            break
        found = []
        def on_result(i, sc, res):
            if res['status'] == 'violation' and res['kind'] == kind:
                found.append(i)
        pool.map(list(enumerate(cands)), stop=lambda: bool(found) or time.monotonic() > end, on_result=on_result)
        tried += len(cands)
        if not found:
            break
        current = cands[min(found)]
        rounds += 1
    return current, rounds


def main(argv):
    prop = argv[0].upper()
    args = argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    nworkers = int(os.environ.get('VERIF_WORKERS', '8'))
    if '--thorough' in args:
        tier = 'thorough'
    mod = load(prop)
    t0 = time.monotonic()
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    errpath = os.path.join(evdir, f'{prop}.stderr')
    env = worker_env(getattr(mod, 'ENV', None))
    timeout = getattr(mod, 'TIMEOUT', 240)
    recycle = getattr(mod, 'RECYCLE', 30)

    if '--replay' in args:
        path = args[args.index('--replay') + 1]
        data = json.load(open(path))
        res = fresh(prop, data['scenario'], env, timeout, sys.stderr)
        print(json.dumps({k: res.get(k) for k in ('status', 'kind', 'digest')}))
        print(res.get('detail', ''))
        if res['status'] in BAD:
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        return 0 if res['status'] in ('ok', 'skip') else 2

    nruns = mod.RUNS[tier]
    if '--runs' in args:
        nruns = int(args[args.index('--runs') + 1])
    first = int(args[args.index('--first') + 1]) if '--first' in args else 0
    cap = {'quick': 420, 'thorough': 7200}[tier]
    if tier == 'thorough' and 'VERIF_CAP' in os.environ:
        cap = int(os.environ['VERIF_CAP'])
    print(f'{prop} tier={tier} seed={seed} runs={nruns} workers={nworkers}', flush=True)

    with open(errpath, 'w') as errfile:
        pool = Pool(prop, nworkers, env, timeout, recycle, errfile)
        findings = known_findings(prop)
        items, scenarios = [], {}
        for i in range(first, first + nruns):
            sc = mod.generate(core.scenario_rng(seed, prop, i), tier, i)
            sc = json.loads(json.dumps(sc))
            scenarios[i] = sc
            items.append((i, sc))
        # the most expensive scenarios first would need timings; keep order
        bad, known = [], {}
        def on_result(i, sc, res):
            if res['status'] in BAD:
                text = is_known(res, findings)
                if text:
                    known.setdefault(text, []).append(i)
                    res['status'] = 'known'
                else:
                    bad.append(i)
        try:
            results = pool.map(items, stop=lambda: bool(bad), on_result=on_result, deadline=t0 + cap)
            explore_s = time.monotonic() - t0
            rc, nviol = 0, 0
            errors = [i for i, r in results.items() if r['status'] == 'error']
            replay = None
            if bad:
                i = min(bad)
                res = results[i]
                if res['status'] in ('timeout', 'died'):
                    res2 = fresh(prop, scenarios[i], env, timeout, errfile)
                    if res2['status'] in BAD:
                        res = res2
                if res['status'] in BAD:
                    kind = res.get('kind', res['status'])
                    small, rounds = scenarios[i], 0
                    if res['status'] == 'violation' and hasattr(mod, 'shrink') and '--no-min' not in args:
                        small, rounds = minimise(pool, mod, scenarios[i], kind, 60 if tier == 'quick' else 300)
                    reproduced = False
                    for cand in (small, scenarios[i], scenarios[i]):
                        r = fresh(prop, cand, env, timeout, errfile)
                        if r['status'] in BAD:
                            reproduced, small, res = True, cand, r
                            break
                    replay = os.path.join(evdir, 'replays', f'{prop}-{core.digest(small)}.json')
                    json.dump(dict(
                        property=prop, seed=seed, index=i, kind=res.get('kind'),
                        detail=res.get('detail'), scenario=small, original=scenarios[i],
                        minimisation_rounds=rounds, reproduced=reproduced, digest=res.get('digest'),
                        replay_cmd=f'./check {prop} --replay {replay}',
                    ), open(replay, 'w'), indent=1)
                    if reproduced:
                        nviol = len(bad)
                        rc = 1
                    else:
                        print(f'run {i} failed ({kind}) but not in a fresh process; first failure:')
                        print(results[i].get('detail', ''))
                        rc = 2
            if rc == 0 and errors:
                rc = 2
                print(f'harness error in run {errors[0]}:\n{results[errors[0]]["detail"]}')
                print('scenario:', json.dumps(scenarios[errors[0]])[:2000])
            if rc == 0 and not any(r['status'] in ('ok', 'known') for r in results.values()):
                rc = 2
                print('nothing explored')
        finally:
            pool.close()

    write_evidence(mod, prop, tier, seed, evdir, scenarios, results, nviol, t0, explore_s, nworkers, nruns)
    for text, runs in known.items():
        print(f'KNOWN-FINDING: property={prop} {text} (runs {runs[:5]})')
    done = [r for r in results.values() if r['status'] == 'ok']
    print(f'{prop}: {len(done)} runs ok of {len(results)} executed in {time.monotonic() - t0:.1f} s', flush=True)
    if rc == 1:
        print(f'violation kind: {res.get("kind")}\n{res.get("detail", "")}')
        print(f'VIOLATION property={prop} replay={replay}')
    return rc


def write_evidence(mod, prop, tier, seed, evdir, scenarios, results, nviol, t0, explore_s, nworkers, nruns):
    counts, faults, prints, steps, samples = {}, {}, set(), 0, []
    statuses = {}
    dig = []
    for i in sorted(results):
        r = results[i]
        statuses[r['status']] = statuses.get(r['status'], 0) + 1
        for k, v in r.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        prints.update(r.get('prints', ()))
        steps += r.get('steps', 0)
        dig.append((i, r.get('digest')))
        if r['status'] == 'ok' and len(samples) < 3:
            samples.append(dict(run=i, scenario=scenarios[i], observed=r.get('sample'), steps=r.get('steps'), digest=r.get('digest')))
    hours = max(explore_s, 1e-9) / 3600
    coverage = dict(
        evaluations=len(results),
        distinct_nontrivial=len(prints),
        rule=mod.RULE,
        samples=samples,
        runs_requested=nruns,
        run_outcomes=statuses,
        seeds_per_hour=round(len(results) / hours),
        simulated_steps=steps,
        simulated_steps_per_hour=round(steps / hours),
        simulated_time=f'{steps} {getattr(mod, "TIME_UNIT", "MCMC iterations")} (the only clock the system has)',
        faults_injected=dict(sorted(faults.items())),
        probes=dict(sorted(counts.items())),
        real_components=getattr(mod, 'REAL', 'all of bartz, jax tracing and XLA CPU execution'),
        stubbed_components=getattr(mod, 'STUB', 'none'),
        workers=nworkers,
        log_digest=core.digest(dig),
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=coverage,
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=nviol,
    )
    path = os.path.join(evdir, f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
