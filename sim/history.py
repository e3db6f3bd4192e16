"""Drives chains through histories with faults; shared by several checks."""

import functools
import pickle

from . import config
from .core import Violation

MODES = ('jit', 'vmap', 'parts', 'loop', 'gbart')


def generate(r, *, modes=((5, 'jit'), (1.5, 'vmap'), (1, 'parts'), (1.5, 'loop'), (1, 'gbart')),
             steps=(120, 400), problem=None, adversarial=0.5, events=True, jungle=False, wide=None, huge=None):
    mode = config.pick(r, *modes)
    c = config.gen_problem(r, **(problem or {}))
    if wide is not None:
        # integer type boundaries of the predictor and tree indices together
        mode = ('jit', 'parts', 'jit', 'loop')[wide % 4]
        d = (3, 2, 2)[wide % 3]
        minpts = (problem or {}).get('minpts')
        c = dict(c, p=(257, 256, 257, 258, 255)[wide % 5], ntree=(257, 256, 60, 255)[wide % 4], d=d, n=r.choice([20, 40]), cuts=r.choice(['few', 'mid', 'mixed']),
                 minpts=r.choice([1, 2] if minpts == 'set' else [None, None, 1, 2]), pnt=[r.choice([0.5, 0.9])] * (d - 1), alpha=r.choice([1.5, 50.0]), beta=r.choice([0.5, 50.0]))
        adversarial = 0
        steps = 50, 60
    if huge is not None:
        # boundaries of two byte types
        mode, d = 'jit', r.choice([2, 3])
        what = ('n', 'p', 'ntree')[huge % 3]
        k = 65536 + (0, 1, -1)[huge // 3 % 3]
        size = dict(dict(n=r.choice([8, 20]), p=r.choice([1, 2]), ntree=r.choice([1, 2])), **{what: k})
        if what == 'p':
            size['ntree'] = 200
        c = dict(c, **size, d=d, cuts=r.choice(['few', 'mid']), pnt=[r.choice([0.5, 0.9])] * (d - 1), alpha=1.5, beta=50.0, ykind='normal',
                 xkind='uniform', minpts=c['minpts'] and r.choice([1, 2]), cbs=r.choice([None, 'auto', 1000]), rbs=r.choice([None, 'auto', 1000]))
        return dict(mode=mode, problem=c, entropy=config.gen_entropy(r, 0), steps=40 if what == 'p' else 15, events=[])
    if jungle:
        mode = config.pick(r, (4, 'jit'), (1, 'parts'), (1, 'vmap'))
        c = make_jungle(r, c, (problem or {}).get('minpts'))
        adversarial = 0
        steps = max(steps[1] - 50, steps[0]), steps[1] + 50
    if mode == 'gbart':
        return generate_gbart(r, c, adversarial)
    if r.random() < (0.5 if jungle else 0.3):
        c = dict(c, plant=config.gen_plant(r, deep=jungle))
    size = c['ntree'] * (2 ** c['d'] + c['n'])
    T = r.randint(*steps)
    T = max(20, min(T, 4_000_000 // max(1, size)))
    if mode == 'loop':
        T = min(T, 120)
    sc = dict(mode=mode, problem=c, entropy=config.gen_entropy(r, adversarial), steps=T, events=[])
    if mode == 'vmap':
        sc['lanes'] = r.choice([1, 2, 3, 5])
        sc['steps'] = max(20, T // sc['lanes'])
    if mode == 'loop':
        sc['burn'] = r.choice([0, 0, T // 3, T // 2])
        sc['skip'] = r.choice([1, 1, 2, 3])
    elif events:
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            i = r.randrange(sc['steps'])
            k = r.random()
            if k < 0.4:
                ev = ['sigma', r.choice([1e-4, 1e-2, 0.1, 1.0, 30.0, 1e4])]
            elif k < 0.6:
                ev = ['yshift', r.choice([0.1, 1.0, 10.0]), r.randrange(2 ** 31)]
            elif k < 0.8:
                ev = ['crash', r.choice([0, 1, 3, 10])]
            else:
                ev = ['branch', r.choice([1, 2, 5])]
            sc['events'].append([i] + ev)
        sc['events'].sort(key=lambda e: e[0])
    return sc


def crowd(r, i):
    """settings around the type boundaries of counts of datapoints"""
    if i % 40 == 13:
        n = r.choice([32769, 40000, 65534, 65535, 65536, 65537])
        return dict(n=n, minpts=[1, n // 4, n // 2, 16384, 32767, 32768, 32769], ntree=1, d=r.choice([2, 3, 4]), p=2)
    if i % 20 == 5:
        return dict(n=r.choice([200, 254, 255, 256, 257]), minpts=[127, 128, 128, 129, 130])
    if i % 20 in (14, 18):
        return dict(n=r.choice([130, 200, 250, 254, 255, 256, 257, 300]), minpts=[1, 5, 63, 64, 65, 126, 127, 128, 129])
    return {}


def make_jungle(r, c, minpts):
    """
    Trees as deep as they get: little noise, a rough response, many points and
    cutpoints, a prior without penalty on depth. Reaches leaf indices of two
    bytes and long chains of ancestors.
    """
    d = r.choice([5, 7, 8, 9, 9, 10, 10])
    n = r.choice([100, 300, 600, 600, 1000])
    return dict(c, n=n, d=d, p=r.choice([1, 2, 4, 6]), ntree=r.choice([1, 1, 2, 3]), cuts=r.choice(['u8max', 'u16', 'mid']),
                minpts=r.choice([1, 1, 2, 5] if minpts == 'set' else [None, None, None, 1, 2, 5]), pnt=[r.choice([0.5, 0.5, 0.6, 0.8])] * (d - 1), alpha=1e4, beta=r.choice([1e-3, 1e-1, 10.0]),
                ykind=r.choice(['normal', 'normal', 'signal']), yscale=1.0, xkind='uniform', small_float='float32')


def generate_gbart(r, c, adversarial=0.5):
    maxdepth = max(1, min(c['d'], 8))
    ndpost, nskip = r.choice([(8, 0), (5, 10), (10, 30), (3, 40)])
    return dict(mode='gbart', problem=c, entropy=config.gen_entropy(r, adversarial), kw=dict(
        maxdepth=maxdepth, ntree=min(c['ntree'], 60), ndpost=ndpost, nskip=nskip,
        keepevery=r.choice([1, 1, 2, 3]), numcut=r.choice([1, 2, 10, 100, 255, 256, 300]),
        usequants=r.random() < 0.5, base=r.choice([0.5, 0.95, 0.99]), power=r.choice([0.0, 0.5, 2.0]),
        k=r.choice([1.0, 2.0]), sigdf=r.choice([1, 3, 10]),
    ), steps=ndpost + nskip, init=r.choice([{}, {}, {}, dict(min_points_per_leaf=None), dict(min_points_per_leaf=2), dict(min_points_per_leaf=1)]))


def shrink(sc):
    for c in config.shrink_problem(sc['problem']):
        q = dict(sc, problem=c)
        if 'kw' in q:
            q['kw'] = dict(q['kw'], ntree=min(q['kw']['ntree'], c['ntree']), maxdepth=min(q['kw']['maxdepth'], c['d']))
        yield q
    if 'kw' not in sc:
        T = sc['steps']
        for t in sorted({1, 2, 5, T // 4, T // 2, T - T // 4, T - 1}):
            if 1 <= t < T:
                yield dict(sc, steps=t, events=[e for e in sc['events'] if e[0] < t])
        ev = sc['events']
        if ev:
            yield dict(sc, events=[])
            if len(ev) > 1:
                yield dict(sc, events=ev[:len(ev) // 2])
                yield dict(sc, events=ev[len(ev) // 2:])
            for i in range(len(ev)):
                yield dict(sc, events=ev[:i] + ev[i + 1:])
        if sc['mode'] in ('vmap', 'parts', 'loop'):
            q = dict(sc, mode='jit')
            q.pop('lanes', None), q.pop('burn', None), q.pop('skip', None)
            yield q
        if sc.get('lanes', 1) > 1:
            yield dict(sc, lanes=1)
    ent = sc['entropy']
    if ent['kind'] == 'faulty':
        yield dict(sc, entropy=dict(kind='hash', seed=ent['seed']))
        for k in ('ones', 'zeros', 'sticky'):
            if ent[k]:
                yield dict(sc, entropy=dict(ent, **{k: 0}))


# ------------------------------------------------------------------ execution

def drive(sc, rec, on_start, on_step, on_trace=None):
    """
    Executes the history. on_start(s0), on_step(prev, new, where) get numpy
    states; on_trace(trace_np, static) gets recorded traces.
    """
    from . import sut
    rec.count(f'mode:{sc["mode"]}')
    if sc['mode'] == 'gbart':
        return drive_gbart(sc, rec, on_start, on_step, on_trace)
    import numpy as np
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    c = sc['problem']
    state = sut.make_state(c)
    s0 = sut.to_np(state)
    on_start(s0)
    key = sut.make_key(sc['entropy'], rec)
    if sc['mode'] == 'loop':
        return drive_loop(sc, rec, state, s0, key, on_step, on_trace)

    if sc['mode'] == 'parts':
        trees = jax.jit(sut.mcmcstep.sample_trees)
        sigma = jax.jit(sut.mcmcstep.sample_sigma)
        def step(s, k):
            k1, k2 = random.split(k)
            return sigma(trees(s, k1), k2)
    elif sc['mode'] == 'vmap':
        lanes = sc['lanes']
        state = jax.tree_util.tree_map(lambda x: jnp.stack([x] * lanes), state)
        vstep = jax.jit(jax.vmap(sut.mcmcstep.step))
        def step(s, k):
            return vstep(s, random.split(k, lanes))
    else:
        step = jax.jit(sut.mcmcstep.step)

    def views(state, base):
        if sc['mode'] == 'vmap':
            return [
                sut.dynamic_np(jax.tree_util.tree_map(lambda x: x[i], state), base[i])
                for i in range(sc['lanes'])
            ]
        return [sut.dynamic_np(state, base[0])]

    nlanes = sc.get('lanes', 1)
    prev = [s0] * nlanes
    kept = [(state, prev)]
    fold = jax.jit(random.fold_in)
    events = {}
    for e in sc['events']:
        events.setdefault(e[0], []).append(e[1:])
    scale2 = c['yscale'] ** 2
    for i in range(sc['steps']):
        for ev in events.get(i, ()):
            rec.fault(f'event:{ev[0]}')
            if ev[0] == 'sigma':
                v = jnp.full(state['sigma2'].shape, ev[1] * scale2, state['sigma2'].dtype)
                state = dict(state, sigma2=v)
                prev = [dict(p, sigma2=np.asarray(ev[1] * scale2, p['sigma2'].dtype)) for p in prev]
            elif ev[0] == 'yshift':
                g = np.random.Generator(np.random.PCG64(ev[2]))
                d = (g.normal(size=c['n']) * ev[1] * c['yscale']).astype(prev[0]['y'].dtype)
                newp = []
                for p in prev:
                    y = (p['y'] + d).astype(p['y'].dtype)
                    r = (p['resid'] + (y.astype(np.float64) - p['y'].astype(np.float64))).astype(p['resid'].dtype)
                    newp.append(dict(p, y=y, resid=r))
                prev = newp
                ys = np.stack([p['y'] for p in prev])
                rs = np.stack([p['resid'] for p in prev])
                if sc['mode'] != 'vmap':
                    ys, rs = ys[0], rs[0]
                state = dict(state, y=jnp.asarray(ys), resid=jnp.asarray(rs))
                kept = [(state, prev)]
            elif ev[0] == 'crash':
                # process dies: only the serialized checkpoint survives
                st, pv = kept[max(0, len(kept) - 1 - ev[1])]
                state, prev = pickle.loads(pickle.dumps(st)), pv
                kept = kept[:max(1, len(kept) - ev[1])]
            elif ev[0] == 'branch':
                state, prev = kept[max(0, len(kept) - 1 - ev[1])]
        state = step(state, fold(key, i))
        new = views(state, prev)
        rec.step(nlanes)
        for lane in range(nlanes):
            on_step(prev[lane], new[lane], f'step {i}' + (f' lane {lane}' if nlanes > 1 else ''))
        prev = new
        kept.append((state, prev))
        if len(kept) > 12:
            kept.pop(0)
    return state


def drive_loop(sc, rec, state, s0, key, on_step, on_trace):
    import numpy as np
    from . import sut
    T, burn, skip = sc['steps'], sc.get('burn', 0), sc.get('skip', 1)
    save = max(1, (T - burn) // skip)
    got = {}
    fields = [k for k in sut.DYNAMIC if s0[k] is not None]

    def record(i, ratios, **kw):
        got[int(i)] = ({k: np.array(v) for k, v in kw.items()}, ratios)

    def callback(*, bart, i_total, **kw):
        sut.jax.debug.callback(record, i_total, bart.get('ratios'), **{k: bart[k] for k in fields})

    out = sut.mcmcloop.run_mcmc(state, burn, save, skip, callback, key)
    sut.jax.block_until_ready(out)
    sut.jax.effects_barrier()
    prev = s0
    n = burn + save * skip
    for i in range(n):
        if i not in got:
            raise Violation('iteration-missing', f'callback not called for iteration {i} of {n}')
        new = dict(s0, **got[i][0])
        if got[i][1]:
            new['ratios'] = {k: np.array(v) for k, v in got[i][1].items()}
        rec.step()
        on_step(prev, new, f'iteration {i}')
        prev = new
    if on_trace is not None:
        trace = {k: np.array(out[2][k]) for k in ('leaf_trees', 'var_trees', 'split_trees')}
        on_trace(trace, s0)
    return out[0]


def gbart_data(c):
    """real valued predictors and response of a problem"""
    import numpy as np
    from . import sut
    X, y, ms = sut.make_data(dict(c, small_float='float32'))
    g = np.random.Generator(np.random.PCG64(c['data_seed'] + 1))
    scale = np.exp(g.normal(size=(X.shape[0], 1)))
    Xr = (X.astype(np.float64) * scale + g.normal(size=(X.shape[0], 1))).astype(np.float32)
    if y.size >= 2 and np.ptp(y) == 0:
        y = y + np.arange(y.size, dtype=np.float32) * np.float32(c['yscale'])
    return Xr, y


def drive_gbart(sc, rec, on_start, on_step, on_trace):
    import numpy as np
    from . import sut
    c, kw = sc['problem'], dict(sc['kw'])
    X, y = gbart_data(c)
    with sut.capture_run() as cap:
        model = sut.fit(X, y, seed=sut.make_key(sc['entropy'], rec), printevery=10 ** 6, initkw=dict(
            sc['init'], resid_batch_size=c['rbs'], count_batch_size=c['cbs'], save_ratios=c['ratios']), **kw)
    final = sut.to_np(sut.find_state(model))
    if cap.init is not None:
        on_start(sut.to_np(cap.init))
    trace = sut.find_trace(model)
    trace = {k: np.array(trace[k]) for k in ('leaf_trees', 'var_trees', 'split_trees')}
    rec.step(kw['nskip'] + kw['ndpost'] * kw['keepevery'])
    on_step(None, final, 'final state of gbart')
    if on_trace is not None:
        on_trace(trace, final)
    return model
