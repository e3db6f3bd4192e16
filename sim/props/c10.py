"""C10 a chain resumes exactly from a serialized state."""

import copy
import hashlib
import pickle
import threading

from .. import config, history
from ..core import Violation
from ..runner import BASE_XLA

RUNS = dict(quick=40, thorough=700)
ENV = dict(XLA_FLAGS=BASE_XLA + ' --xla_force_host_platform_device_count=2')
TIMEOUT = 300
RULE = ('a run drives a chain that is checkpointed on a simulated disk (lost, torn, delayed checkpoint writes) and killed at arbitrary '
        'iterations; each incarnation restores the newest intact checkpoint in another place (same process, cold caches, thread, device, '
        'fresh process) and format; the whole recovered history is compared bit for bit with the undisturbed one. Models are restored likewise. '
        'distinct_nontrivial counts distinct (place, format, restored forest) with at least one decision node')
STUB = ('the disk holding the checkpoints (bartz has none of its own); in the runs of kind model with stub=true the fitted forests come from a stub of mcmcstep.step')

PLACES = ((3, 'same'), (2, 'cold'), (2, 'thread'), (2, 'device'), (1.2, 'process'))
FORMATS = ('pickle2', 'pickle5', 'deepcopy', 'leaves', 'numpy')


def generate(r, tier, i):
    kind = config.pick(r, (4, 'steps'), (1.5, 'loop'), (3, 'model'))
    small = dict(small=True, n=r.choice([0, 1, 5, 20, 60]), d=r.choice([1, 2, 3, 4, 5, 6]))
    sc = dict(kind=kind, entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))
    if kind == 'steps':
        c = config.gen_problem(r, **small)
        T = r.randint(8, 40)
        lives = []
        for _ in range(r.choice([1, 1, 2, 3])):
            lives.append(dict(
                crash=r.randint(1, T), every=r.choice([1, 2, 3, 7]), place=config.pick(r, *PLACES), format=r.choice(FORMATS),
                lost=r.choice([0, 0, 1, 2]), torn=r.choice([None, None, 0.0, 0.3, 0.9, 0.999]),
            ))
        sc.update(problem=c, T=T, lives=lives, mode=r.choice(['jit', 'jit', 'jit', 'vmap']))
    elif kind == 'loop':
        c = config.gen_problem(r, **small)
        sc.update(problem=c, warm=r.choice([0, 1, 5]), sched=r.choice([[0, 4, 1], [2, 3, 2], [3, 0, 1]]), place=config.pick(r, *PLACES), format=r.choice(FORMATS))
    else:
        c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 5, 20, 40]), p=r.choice([1, 2, 5]), d=r.choice([1, 2, 3, 5]),
                               ntree=r.choice([1, 3, 20]), save_ratios=False)
        sc.update(problem=c, stub=r.random() < 0.7, phase=r.choice(['new', 'predicted', 'accessed', 'diagnosed']), place=config.pick(r, *PLACES),
                  format=r.choice(['pickle2', 'pickle5', 'deepcopy', 'copy']), frame=r.random() < 0.3, x_test=r.random() < 0.5,
                  kw=dict(ntree=c['ntree'], maxdepth=c['d'], numcut=r.choice([1, 7, 255, 300]), usequants=r.random() < 0.5,
                          ndpost=r.choice([0, 1, 3]), nskip=r.choice([0, 2]), keepevery=r.choice([1, 2])))
    return sc


def shrink(sc):
    if sc['kind'] == 'steps':
        L = sc['lives']
        if len(L) > 1:
            for i in range(len(L)):
                yield dict(sc, lives=L[:i] + L[i + 1:])
        for i, l in enumerate(L):
            for q in (dict(l, lost=0), dict(l, torn=None), dict(l, place='same'), dict(l, place='cold'), dict(l, format='pickle5'), dict(l, every=1), dict(l, crash=1)):
                if q != l:
                    yield dict(sc, lives=L[:i] + [q] + L[i + 1:])
        for T in (2, sc['T'] // 2):
            if T < sc['T'] and T >= 1:
                yield dict(sc, T=T, lives=[dict(l, crash=min(l['crash'], T)) for l in L])
    else:
        if sc['place'] != 'same':
            yield dict(sc, place='same')
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


# ------------------------------------------------------------ serialization

def dump(obj, fmt, sut):
    """what is put in storage: bytes, or arrays in a plain container"""
    try:
        return dump_any(obj, fmt, sut)
    except (pickle.PickleError, AttributeError, TypeError, NotImplementedError) as e:
        raise Violation('not-serializable', f'{type(obj).__name__} in format {fmt}: {type(e).__name__}: {e}')


def dump_any(obj, fmt, sut):
    import numpy as np
    if fmt == 'pickle2':
        return pickle.dumps(obj, 2)
    if fmt == 'pickle5':
        return pickle.dumps(obj, 5)
    if fmt == 'deepcopy':
        return pickle.dumps(copy.deepcopy(obj))
    if fmt == 'copy':
        return pickle.dumps(copy.copy(obj))
    # plain numpy arrays
    leaves, treedef = sut.jax.tree_util.tree_flatten(obj)
    if fmt == 'leaves':
        return pickle.dumps(([np.array(x) for x in leaves], None))
    return pickle.dumps(sut.jax.tree_util.tree_map(np.array, obj))


def load(blob, fmt, template, sut):
    try:
        return load_any(blob, fmt, template, sut)
    except (pickle.PickleError, AttributeError, TypeError, ImportError, NotImplementedError) as e:
        raise Violation('not-restorable', f'format {fmt}: {type(e).__name__}: {e}')


def load_any(blob, fmt, template, sut):
    if fmt in ('pickle2', 'pickle5', 'deepcopy', 'copy'):
        return pickle.loads(blob)
    if fmt == 'leaves':
        # arrays saved alone, put back in the structure of a newly initialised state
        leaves, _ = pickle.loads(blob)
        leaves = list(map(sut.jnp.asarray, leaves))
        return sut.jax.tree_util.tree_unflatten(sut.jax.tree_util.tree_structure(template()), leaves)
    return pickle.loads(blob)


def state_digest(state, sut):
    snap = sut.snapshot(state)
    h = hashlib.sha256()
    for k in sorted(snap):
        if k != 'treedef':
            h.update(repr((k, snap[k])).encode())
    return h.hexdigest()[:16]


# -------------------------------------------------------------- incarnations

def make_initial(sc, sut):
    state = sut.make_state(sc['problem'])
    if sc.get('mode') == 'vmap':
        state = sut.jax.tree_util.tree_map(lambda x: sut.jnp.stack([x] * 3), state)
    return state


def make_step(sc, sut):
    if sc.get('mode') == 'vmap':
        f = sut.jax.jit(sut.jax.vmap(sut.mcmcstep.step))
        return lambda s, k: f(s, sut.random.split(k, 3))
    return sut.jax.jit(sut.mcmcstep.step)


def live(sc, start, stop, every, blob, fmt, device=False):
    """
    One incarnation: restores (or starts), advances from iteration `start` to
    `stop`, checkpointing. Returns digests {i: ...} and checkpoints {i: bytes}.
    """
    from .. import sut
    import numpy as np
    key = sut.make_key(sc['entropy'])
    if blob is None:
        state = make_initial(sc, sut)
    else:
        state = load(blob, fmt, lambda: make_initial(sc, sut), sut)
    if device:
        dev = sut.jax.devices()[-1]
        state = sut.jax.device_put(state, dev)
        key = sut.jax.device_put(key, dev)
    step = make_step(sc, sut)
    digests, ckpt = {start: state_digest(state, sut)}, {}
    forest = np.array(state['split_trees']).tobytes()
    for i in range(start, stop):
        state = step(state, sut.random.fold_in(key, i))
        digests[i + 1] = state_digest(state, sut)
        if (i + 1) % every == 0:
            ckpt[i + 1] = dump(state, fmt, sut)
    return digests, ckpt, forest


def elsewhere(place, rec, func, module, name, args, sut):
    """call func in some place"""
    rec.count(f'place:{place}')
    if place == 'process':
        from .. import restart
        rec.fault('restart in a fresh process')
        return restart.spawn(dict(module=module, function=name, args=args), dict(PYTHONHASHSEED='7', **ENV))
    if place == 'cold':
        rec.fault('loss of compilation caches')
        sut.jax.clear_caches()
    if place == 'thread':
        rec.fault('restart in another thread')
        box = []
        def target():
            try:
                box.append((func(*args), None))
            except BaseException as e:
                box.append((None, e))
        t = threading.Thread(target=target)
        t.start()
        t.join()
        if box[0][1] is not None:
            raise box[0][1]
        return box[0][0]
    if place == 'device':
        rec.fault('restart on another device')
        return func(*args, device=True)
    return func(*args)


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    dict(steps=run_steps, loop=run_loop, model=run_model)[sc['kind']](sc, rec)


def run_steps(sc, rec):
    from .. import sut
    T = sc['T']
    ref, _, _ = live(sc, 0, T, T + 1, None, 'pickle5')
    rec.step(T)
    # the disk: [iteration, bytes as written, checksum]
    disk = {}
    got = {}
    fmt = sc['lives'][0]['format']
    place = 'same'
    for n, l in enumerate(sc['lives'] + [None]):
        # restore the newest intact checkpoint
        start, blob = 0, None
        for i in sorted(disk, reverse=True):
            data, sha, f = disk[i]
            if hashlib.sha256(data).hexdigest() == sha:
                start, blob, fmt = i, data, f
                break
            rec.count('torn checkpoint discarded')
        stop = T if l is None else min(T, max(start, l['crash']))
        every = l['every'] if l else T + 1
        args = (sc, start, stop, every, blob, fmt)
        digests, ckpt, forest = elsewhere(place, rec, live, 'c10', 'live', args, sut)
        rec.step(stop - start)
        rec.log(repr(sorted(digests.items())).encode())
        if blob is not None and any(forest):
            rec.seen(place, fmt, forest)
        for i, d in digests.items():
            if ref[i] != d:
                raise Violation('resume', f'incarnation {n} ({place}, {fmt}, restored at {start}): the state after iteration {i} differs from that of the uninterrupted chain')
        if l is None:
            break
        rec.fault('process crash')
        # what survives of the checkpoints written in this life
        written = sorted(ckpt)
        if l['lost']:
            rec.fault('checkpoint write lost', min(l['lost'], len(written)))
            written = written[:max(0, len(written) - l['lost'])]
        for i in written:
            data = ckpt[i]
            disk[i] = (data, hashlib.sha256(data).hexdigest(), fmt)
        if l['torn'] is not None and written:
            i = written[-1]
            data, sha, f = disk[i]
            disk[i] = (data[:int(len(data) * l['torn'])], sha, f)
            rec.fault('checkpoint write torn')
        place = l['place']
        fmt = l['format'] if not disk else fmt


def loop_job(sc, blob, device=False):
    from .. import sut
    key = sut.random.fold_in(sut.make_key(sc['entropy']), 999)
    state = load(blob, sc['format'], lambda: make_initial(sc, sut), sut)
    if device:
        dev = sut.jax.devices()[-1]
        state, key = sut.jax.device_put((state, key), dev)
    b, s, k = sc['sched']
    out = sut.run_loop(state, b, s, k, key)
    return [state_digest(x, sut) for x in out], any(out[0]['split_trees'].tobytes() if hasattr(out[0]['split_trees'], 'tobytes') else b'')


def run_loop(sc, rec):
    from .. import sut
    import numpy as np
    key = sut.make_key(sc['entropy'])
    state = make_initial(sc, sut)
    if sc['warm']:
        step = make_step(sc, sut)
        for i in range(sc['warm']):
            state = step(state, sut.random.fold_in(key, i))
    b, s, k = sc['sched']
    out = sut.run_loop(state, b, s, k, sut.random.fold_in(key, 999))
    want = [state_digest(x, sut) for x in out]
    rec.step(b + s * k)
    rec.fault('process crash')
    blob = dump(state, sc['format'], sut)
    got, nontrivial = elsewhere(sc['place'], rec, loop_job, 'c10', 'loop_job', (sc, blob), sut)
    rec.step(b + s * k)
    rec.log(repr(got))
    if got != want:
        names = [n for n, a, b in zip(('final state', 'burn-in trace', 'main trace'), got, want) if a != b]
        raise Violation('resume', f'run_mcmc from the restored state ({sc["place"]}, {sc["format"]}): {names} differ')
    rec.seen(sc['place'], sc['format'], np.array(out[0]['split_trees']).tobytes())


ATTRS = ('offset', 'scale', 'lamda', 'sigest', 'ntree', 'maxdepth', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean')


def report(m, xs, frame, device=False):
    """everything a model says, as plain data"""
    from .. import sut
    import numpy as np
    if isinstance(m, bytes):
        m = load(m, 'pickle5', None, sut)
    out = {}
    for a in ATTRS:
        v = getattr(m, a, None)
        if v is not None:
            v = np.array(v)
            v = (v.dtype.name, v.shape, v.tobytes())
        out[a] = v
    for i, x in enumerate(xs):
        if frame:
            import pandas as pd
            x = pd.DataFrame(x.T, columns=[f'c{j}' for j in range(len(x))])
        v = np.array(m.predict(x))
        out[f'predict{i}'] = (v.dtype.name, v.shape, v.tobytes())
    st = sut.find_state(m)
    out['state'] = state_digest(st, sut)
    out['trace'] = state_digest(sut.find_trace(m), sut)
    return out


def run_model(sc, rec):
    from .. import sut
    import numpy as np
    c = sc['problem']
    X, y = history.gbart_data(c)
    g = np.random.Generator(np.random.PCG64(c['data_seed'] + 5))
    xs = [X, g.normal(size=(X.shape[0], 7)).astype(np.float32)]
    mk = lambda x: x
    if sc['frame']:
        import pandas as pd
        mk = lambda x: pd.DataFrame(x.T, columns=[f'c{j}' for j in range(len(x))])
    with sut.stub_step(sc['stub'], forest=True):
        m = sut.fit(mk(X), y, seed=sut.make_key(sc['entropy']), x_test=mk(xs[1]) if sc['x_test'] else None, printevery=10 ** 6, **sc['kw'])
    rec.step(sc['kw']['nskip'] + sc['kw']['ndpost'] * sc['kw']['keepevery'])
    if sc['phase'] == 'predicted':
        m.predict(mk(xs[1]))
    elif sc['phase'] == 'accessed':
        m.yhat_train, m.yhat_train_mean
    elif sc['phase'] == 'diagnosed' and sc['kw']['ndpost'] and hasattr(m, '_check_trees'):
        m._check_trees()
    blob = dump(m, sc['format'], sut)
    want = report(m, xs, sc['frame'])
    rec.fault('process crash')
    got = elsewhere(sc['place'] if sc['place'] != 'device' else 'cold', rec, report, 'c10', 'report', (blob, xs, sc['frame']), sut)
    again = report(dump(load(blob, 'pickle5', None, sut), 'pickle5', sut), xs, sc['frame'])
    rec.log(repr(sorted(got.items())).encode())
    for name, res in (('restored', got), ('twice restored', again)):
        d = sorted(k for k in want if want[k] != res.get(k))
        if d:
            raise Violation('restored-model', f'{name} model ({sc["place"]}, {sc["format"]}, {sc["phase"]}): {d} differ')
    spl = np.array(sut.find_trace(m)['split_trees'])
    if spl.any():
        rec.seen(sc['place'], sc['format'], spl.tobytes())
    rec.sample = dict(place=sc['place'], attributes=len(want))
