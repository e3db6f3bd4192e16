"""C18 the seed alone decides the result."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=42, thorough=600)
TIMEOUT = 300
RULE = ('a run executes the same fit or MCMC run in several environments (repeated, cold caches, other clock, other state of all global generators, after unrelated '
        'work, other containers, fresh process with another hash seed, timezone and directory) and compares everything bit for bit; and compares chains of different seeds, '
        'and the iterations and trees of one chain among themselves. distinct_nontrivial counts distinct (environment, resulting forests) with at least one decision node')
STUB = 'clock, os.urandom and the global generators of python and numpy are replaced or reseeded; mcmcstep.step is a stub in the runs with stub=true'

ENVS = ('repeat', 'cold', 'clock', 'global_rng', 'unrelated', 'container', 'urandom', 'seed_type', 'thread', 'gc_hash', 'machine')


def generate(r, tier, i):
    stub = r.random() < 0.3
    kind = config.pick(r, (2, 'fit'), (1, 'run'))
    if i % 8 == 3:
        kind = 'fit'
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 2, 6, 20, 40]), p=r.choice([1, 2, 4]), d=r.choice([2, 3, 4, 6]), ntree=r.choice([2, 3, 8, 30]), save_ratios=kind == 'run' and r.random() < 0.3)
    envs = [r.choice(ENVS) for _ in range(4)]
    if i % 4 == 3:
        envs[-1] = 'process'
    seed = r.choice([0, 1, 2, 12345, 2 ** 31 - 1, r.randrange(2 ** 31)])
    return dict(kind=kind, stub=stub, problem=c, envs=envs, seed=seed, numcut=r.choice([1, 5, 100, 255]), usequants=r.random() < 0.5,
                sched=r.choice([[6, 2, 1], [4, 0, 2], [8, 3, 1]]), x_test=r.random() < 0.5, env_seed=r.randrange(2 ** 31),
                init=dict(r.choice([dict(), dict(), dict(save_ratios=True), dict(min_points_per_leaf=2), dict(save_ratios=True, resid_batch_size=3, count_batch_size=None)])) if kind == 'fit' else {},
                others=[seed ^ 1 << r.randrange(8, 31), r.choice([seed ^ 1, (seed + 1) % 2 ** 31, (seed + 65535) % 2 ** 31, (seed + 2 ** 24 - 1) % 2 ** 31, 2 ** 31 - 1 - seed])])


def shrink(sc):
    if len(sc['envs']) > 1:
        for e in sc['envs']:
            yield dict(sc, envs=[e])
    if sc['envs']:
        yield dict(sc, envs=[])
    if sc['others']:
        yield dict(sc, others=[])
        if len(sc['others']) > 1:
            yield dict(sc, others=sc['others'][:1])
    if sc['x_test']:
        yield dict(sc, x_test=False)
    if sc['init']:
        yield dict(sc, init={})
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


def execute(sc, seed=None, wrap=None, how=None):
    """results as {name: (dtype, shape, bytes)}"""
    import numpy as np
    from .. import sut
    c = sc['problem']
    seed = sc['seed'] if seed is None else seed
    wrap = wrap or (lambda x: x)
    ndpost, nskip, every = sc['sched']
    with sut.stub_step(sc['stub'], forest=True):
        if sc['kind'] == 'fit':
            X, y = history.gbart_data(c)
            g = np.random.Generator(np.random.PCG64(c['data_seed'] + 3))
            xt = g.normal(size=(X.shape[0], 5)).astype(np.float32)
            s = dict(key=lambda: sut.random.key(seed), np=lambda: np.int64(seed)).get(how, lambda: seed)()
            m = sut.fit(wrap(X), wrap(y), x_test=wrap(xt) if sc['x_test'] else None, seed=s, ndpost=ndpost, nskip=nskip, keepevery=every, printevery=3,
                        ntree=c['ntree'], maxdepth=c['d'], numcut=sc['numcut'], usequants=sc['usequants'], initkw=dict(sc['init']))
            out = {a: getattr(m, a) for a in ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean')}
            if sc['x_test']:
                out.update(yhat_test=m.yhat_test)
            out.update({f'trace{k}': v for k, v in sut.leaves_with_path(sut.find_trace(m))})
            out.update({f'state{k}': v for k, v in sut.leaves_with_path(sut.find_state(m))})
        else:
            state = sut.make_state(c)
            key = sut.random.key(np.int64(seed) if how == 'np' else seed)
            res = sut.run_loop(state, nskip, ndpost, every, key)
            out = {f'{n}{k}': v for n, t in zip(('state', 'burn', 'trace'), res) for k, v in sut.leaves_with_path(t)}
    conv = lambda v: (v.dtype.name, v.shape, v.tobytes())
    return {k: conv(np.asarray(v)) for k, v in out.items() if v is not None}


def array(out, name):
    import numpy as np
    dt, shape, data = out[name]
    return np.frombuffer(data, dt).reshape(shape)


def run(sc, rec):
    import contextlib
    import gc
    import os
    import random as pyrandom
    import threading
    import time
    from unittest import mock
    import numpy as np
    from .. import sut
    rec.count('stub' if sc['stub'] else 'real')
    rec.count(f'kind:{sc["kind"]}')
    jax = sut.jax
    r = pyrandom.Random(sc['env_seed'])
    ref = execute(sc)
    n = sc['sched'][1] + sc['sched'][0] * sc['sched'][2]
    rec.step(n)
    spl = array(ref, "trace['split_trees']")
    leaf = array(ref, "trace['leaf_trees']")

    def perform(env):
        if env == 'cold':
            jax.clear_caches()
            return execute(sc)
        if env == 'clock':
            t = [r.uniform(0, 4e9)]
            def fake(*a):
                t[0] += r.uniform(-5, 1000)
                return t[0]
            with mock.patch.object(time, 'time', fake), mock.patch.object(time, 'time_ns', lambda: int(fake() * 1e9)):
                return execute(sc)
        if env == 'global_rng':
            np.random.seed(r.randrange(2 ** 31))
            pyrandom.seed(r.random())
            s0 = np.random.get_state()[1].tobytes(), pyrandom.getstate()
            out = execute(sc)
            if (np.random.get_state()[1].tobytes(), pyrandom.getstate()) != s0:
                rec.count('global generators consumed')
            return out
        if env == 'urandom':
            with mock.patch.object(os, 'urandom', lambda k: bytes(r.randrange(256) for _ in range(k))):
                return execute(sc)
        if env == 'unrelated':
            execute(sc, seed=r.randrange(2 ** 31))
            sut.jaxext.autobatch(lambda x: x + 1, 8)(sut.jnp.arange(6.))
            sut.random.normal(sut.random.key(r.randrange(2 ** 31)), (7,))
            return execute(sc)
        if env == 'container':
            kind = r.choice(['jax', 'fortran', 'view', 'float64'])
            rec.count(f'container:{kind}')
            return execute(sc, wrap=dict(jax=sut.jnp.asarray, fortran=np.asfortranarray, view=lambda x: np.repeat(x, 2, axis=-1)[..., ::2], float64=lambda x: x.astype(np.float64))[kind])
        if env == 'seed_type':
            return execute(sc, how=r.choice(['key', 'key', 'np']))
        if env == 'thread':
            box = []
            t = threading.Thread(target=lambda: box.append(execute(sc)))
            t.start()
            t.join()
            return box[0]
        if env == 'gc_hash':
            keep = [object() for _ in range(r.randrange(10000))]
            gc.collect()
            return execute(sc)
        if env == 'machine':
            # another machine: cores, load, memory, process number, host name, user
            import platform
            import socket
            cores = r.choice([1, 3, 128])
            names = {os: dict(cpu_count=lambda: cores, sched_getaffinity=lambda *a: set(range(cores)), getpid=lambda: 4242 + cores, getloadavg=lambda: (cores / 2.,) * 3, getcwd=lambda: '/nowhere'),
                     platform: dict(node=lambda: f'host{cores}', processor=lambda: ''), socket: dict(gethostname=lambda: f'host{cores}')}
            if hasattr(os, 'process_cpu_count'):
                names[os]['process_cpu_count'] = lambda: cores
            with contextlib.ExitStack() as stack:
                for mod, repl in names.items():
                    for name, f in repl.items():
                        stack.enter_context(mock.patch.object(mod, name, f))
                tick = [r.uniform(0, 1e6)]
                def mono(*a):
                    tick[0] += r.uniform(0, 100)
                    return tick[0]
                for name in ('perf_counter', 'process_time'):
                    stack.enter_context(mock.patch.object(time, name, mono))
                stack.enter_context(mock.patch.dict(os.environ, dict(OMP_NUM_THREADS=str(cores), HOME='/nowhere', USER=f'user{cores}', COLUMNS=str(20 * cores))))
                return execute(sc)
        if env == 'process':
            from .. import restart
            rec.fault('fresh process')
            cwd_tz = dict(PYTHONHASHSEED=str(r.randrange(1, 1000)), TZ=r.choice(['UTC', 'Asia/Tokyo']), LC_ALL='C', COLUMNS='33')
            return restart.spawn(dict(module='c18', function='execute', args=(sc,)), cwd_tz)
        return execute(sc)

    for env in sc['envs']:
        got = perform(env)
        rec.step(n)
        rec.fault(f'environment: {env}')
        bad = sorted(k for k in set(ref) | set(got) if ref.get(k) != got.get(k))
        if bad:
            raise Violation('not-determined-by-seed', f'{sc["kind"]} seed {sc["seed"]}, environment {env}: {bad[:8]} differ')
        if spl.any():
            rec.seen(env, spl.tobytes(), leaf.tobytes())
    for s in sc['others']:
        got = execute(sc, seed=s)
        rec.step(n)
        same = [k for k in ("trace['leaf_trees']", "trace['sigma2']") if got[k] == ref[k]]
        if same:
            raise Violation('seed-ignored', f'{sc["kind"]}: seeds {sc["seed"]} and {s} give the same {same}')
        a = array(got, "trace['leaf_trees']")
        shared = repeated(np.concatenate([leaf, a]), np) if not sc['stub'] else None
        if shared:
            raise Violation('randomness-reused', f'{sc["kind"]}: trees of the chains of seeds {sc["seed"]} and {s} drawn with the same noise: {shared}')
        s1, s2 = array(ref, "trace['sigma2']"), array(got, "trace['sigma2']")
        if not sc['stub'] and sc['problem']['n'] == 0 and np.intersect1d(s1, s2).size > 2:
            raise Violation('randomness-reused', f'sigma2 draws shared by the seeds {sc["seed"]} and {s}')
        rec.count('pairs of seeds')
    if not sc['stub']:
        rep = repeated(leaf, np)
        if rep:
            raise Violation('randomness-reused', f'{sc["kind"]}: leaf values of different iterations or trees drawn with the same noise: {rep}')
        s2 = array(ref, "trace['sigma2']")
        if len(np.unique(s2)) < len(s2) - 1:
            raise Violation('randomness-reused', f'repeated sigma2 values {s2}')
    rec.log(repr(sorted(ref.items())).encode())


def repeated(leaf, np):
    """
    Are two trees (of whatever sample) made with the same gaussian noise? The
    values at unused positions follow the prior, so equal noise means equal
    values there; two equal values out of a million float32 may be chance, more
    in the same pair of trees are not.
    """
    flat = leaf.reshape(-1, leaf.shape[-1])[:, 1:]
    seen = {}
    for t, row in enumerate(flat):
        for j, v in enumerate(row):
            if v != 0:
                seen.setdefault((j, v.tobytes()), []).append(t)
    pairs = {}
    for (j, v), ts in seen.items():
        ts = sorted(set(ts))
        for a in range(len(ts)):
            for b in range(a + 1, min(len(ts), a + 4)):
                pairs.setdefault((ts[a], ts[b]), []).append(j)
    bad = {p: js for p, js in pairs.items() if len(js) >= 2}
    if bad:
        p = min(bad)
        return f'trees {p} (of {len(flat)}) share the values at positions {bad[p][:5]}; {len(bad)} such pairs'
    return None
