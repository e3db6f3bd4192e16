"""C11 steps never modify their input, chains never interact."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=60, thorough=900)
RULE = ('interleave: several chains (shared data arrays, shared ancestors, shared compiled code) advanced in a seeded interleaving with branches, '
        'runs, evaluations and failing steps in between, each compared bit for bit with the same chain advanced alone; eager/jit: each public '
        'operation on a kept state, with the state compared before and after and the operation repeated; fits: a session of fits sharing data and option '
        'objects, each compared with its first execution. '
        'distinct_nontrivial counts distinct (operation, forest) pairs with at least one decision node')

OPS = ('step', 'sample_trees', 'sample_sigma', 'run_mcmc', 'evaluate')


def generate(r, tier, i):
    kind = config.pick(r, (3, 'interleave'), (2, 'eager'), (2, 'jit'))
    if i % 7 == 3:
        kind = 'fits'
    ent = dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31))
    small = dict(small=True, tame=True, n=r.choice([0, 1, 2, 12, 30]), d=r.choice([1, 2, 3, 4, 5]), p=r.choice([1, 2, 4]), ntree=r.choice([1, 2, 3, 6]))
    c = config.gen_problem(r, **small)
    if kind == 'interleave':
        # the other problem shares data, or sizes, or nothing
        other = r.choice(['same', 'same-data', 'same-shape', 'different'])
        c2 = dict(c)
        if other == 'same-data':
            c2.update(minpts=r.choice([None, 1, 3, 5]), alpha=4.0, rbs=r.choice([None, 7]), ratios=not c['ratios'])
        elif other == 'same-shape':
            c2.update(data_seed=r.randrange(2 ** 31))
        elif other == 'different':
            c2 = config.gen_problem(r, **small)
        nch = r.choice([2, 3, 4])
        T = r.randint(5, 25)
        chains = [dict(which=r.randrange(2), seed=r.randrange(2 ** 31)) for _ in range(nch)]
        if r.random() < 0.4:
            chains[1] = dict(chains[0], seed=r.randrange(2 ** 31))
        sched = [j for j in range(nch) for _ in range(T)]
        r.shuffle(sched)
        noise = [[r.randrange(len(sched)), r.choice(['evaluate', 'branch', 'fail', 'loop', 'gc', 'mutate_copy'])] for _ in range(r.choice([0, 2, 5]))]
        return dict(kind=kind, problem=c, other=c2, relation=other, chains=chains, schedule=sched, noise=noise, entropy=ent,
                    mode=r.choice(['jit', 'jit', 'own-jit', 'loop1']))
    if kind == 'fits':
        specs = [dict(data=r.randrange(2), ntree=r.choice([1, 2, 5]), maxdepth=r.choice([1, 2, 3, 5]), numcut=r.choice([2, 9, 100]), usequants=r.random() < 0.5,
                      ndpost=r.choice([1, 3]), nskip=r.choice([0, 2]), seed=r.randrange(2 ** 31), x_test=r.random() < 0.5, init=r.choice([None, None, 0, 1]), frame=r.random() < 0.3,
                      sigdf=r.choice([3, 5])) for _ in range(3)]
        specs[0]['init'] = None
        specs[1]['init'] = r.choice([0, 1])
        order = [0, 1, 2] + [r.randrange(3) for _ in range(2)] + [0]
        return dict(kind=kind, problem=c, specs=specs, order=order, stub=r.random() < 0.6, entropy=ent, same_seed=r.random() < 0.5,
                    inits=r.sample([dict(save_ratios=True), dict(min_points_per_leaf=1), dict(resid_batch_size=1, count_batch_size=None), dict(min_points_per_leaf=None), dict()], 2))
    if kind == 'eager':
        ops = [r.choice(['step', 'step', 'step', 'sample_trees', 'sample_sigma', 'evaluate']) for _ in range(r.choice([2, 3]))]
    else:
        ops = [r.choice(OPS) for _ in range(r.choice([3, 4]))]
    c['n'] = min(c['n'], 12) if kind == 'eager' else c['n']
    c['ratios'] = r.random() < 0.5
    return dict(kind=kind, problem=c, ops=ops, entropy=ent, warm=r.choice([0, 3, 10]), disable_jit=(kind == 'eager' and c['d'] >= 3 and r.random() < 0.3))


def shrink(sc):
    if sc['kind'] == 'interleave':
        if sc['noise']:
            yield dict(sc, noise=[])
            for i in range(len(sc['noise'])):
                yield dict(sc, noise=sc['noise'][:i] + sc['noise'][i + 1:])
        s = sc['schedule']
        for t in sorted({1, 2, len(s) // 4, len(s) // 2, len(s) - 1}):
            if 1 <= t < len(s):
                yield dict(sc, schedule=s[:t], noise=[q for q in sc['noise'] if q[0] < t])
        if sc['mode'] != 'jit':
            yield dict(sc, mode='jit')
    elif sc['kind'] == 'fits':
        o = sc['order']
        for i in range(len(o)):
            if len(o) > 1:
                yield dict(sc, order=o[:i] + o[i + 1:])
        if not sc['stub']:
            yield dict(sc, stub=True)
    else:
        if len(sc['ops']) > 1:
            for i in range(len(sc['ops'])):
                yield dict(sc, ops=[sc['ops'][i]])
        if sc['warm']:
            yield dict(sc, warm=0)
    for q in config.shrink_problem(sc['problem']):
        if sc['kind'] == 'interleave' and sc['relation'] != 'different':
            o = dict(sc['other'])
            for k in q:
                if sc['problem'][k] == o.get(k):
                    o[k] = q[k]
            yield dict(sc, problem=q, other=o)
        else:
            yield dict(sc, problem=q)


def snap(state, sut, what):
    """snapshot, including the identity of the container structure"""
    try:
        s = sut.snapshot(state)
    except RuntimeError as e:
        if 'deleted' in str(e) or 'donated' in str(e):
            raise Violation('input-unusable', f'{what}: {e}')
        raise
    if isinstance(state, dict):
        s['keys'] = repr([(k, sorted(v) if isinstance(v, dict) else None) for k, v in state.items()])
    return s


def containers(state):
    """the objects reachable from a state, with their identities"""
    out = {}
    for k, v in state.items():
        out[k] = v
        if isinstance(v, dict):
            for kk, vv in v.items():
                out[k, kk] = vv
    return out


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    if sc['kind'] == 'interleave':
        run_interleave(sc, rec)
    elif sc['kind'] == 'fits':
        run_fits(sc, rec)
    else:
        run_ops(sc, rec)


def run_ops(sc, rec):
    import contextlib
    import numpy as np
    from .. import sut
    jax, random = sut.jax, sut.random
    eager = sc['kind'] == 'eager'
    state = sut.make_state(sc['problem'])
    key = sut.make_key(sc['entropy'])
    if sc['warm']:
        f = jax.jit(sut.mcmcstep.step)
        for i in range(sc['warm']):
            state = f(state, random.fold_in(key, i))
            rec.step()
    X = state['X']
    compiled = {}

    def execute(op, s, k):
        if op == 'run_mcmc':
            return sut.run_loop(s, 1, 1, 2, k)
        if op == 'evaluate':
            tr = {q: s[q][None] for q in ('leaf_trees', 'var_trees', 'split_trees')}
            before = snap(tr, sut, op)
            out = sut.mcmcloop.evaluate_trace(tr, X)
            if before != snap(tr, sut, op):
                raise Violation('input-modified', f'evaluate_trace changed the trace: {sut.diff_snap(before, snap(tr, sut, op))}')
            return out
        f = getattr(sut.mcmcstep, op)
        if not eager:
            f = compiled.setdefault(op, jax.jit(f))
        elif sc['disable_jit'] and s['split_trees'].shape[-1] >= 4:
            # jax does not support empty loops (shallow trees) in this mode
            with jax.disable_jit():
                return f(s, k)
        return f(s, k)

    for j, op in enumerate(sc['ops']):
        what = f'{sc["kind"]} {op} (operation {j})'
        k = random.fold_in(key, 100 + j)
        kd = np.array(random.key_data(k)).tobytes()
        before, held = snap(state, sut, what), containers(state)
        alias = dict(state)   # a shallow copy shares everything below the top level
        out = execute(op, state, k)
        if out is state:
            raise Violation('input-modified', f'{what}: returned its very input')
        after = snap(state, sut, what)
        if after != before:
            raise Violation('input-modified', f'{what}: changed {sut.diff_snap(before, after)[:6]}')
        now = containers(state)
        moved = [q for q in held if q not in now or now[q] is not held[q]]
        if moved or set(now) != set(held):
            raise Violation('input-modified', f'{what}: replaced the objects at {moved[:5]} of the state it was given')
        if np.array(random.key_data(k)).tobytes() != kd:
            raise Violation('input-modified', f'{what}: the key changed')
        first = snap(out, sut, what)
        # no trace of the first execution in the second one
        second = snap(execute(op, alias, k), sut, what)
        if first != second:
            raise Violation('repeat', f'{what}: repeating it with the same key gives another result: {sut.diff_snap(first, second)[:6]}')
        rec.step(2)
        rec.count(f'op:{op}')
        spl = np.array(state['split_trees'])
        if spl.any():
            rec.seen(sc['kind'], op, spl.tobytes())
        if snap(out, sut, what) != first:
            raise Violation('output-modified', f'{what}: the result of the first execution changed afterwards')
        rec.log(repr(sorted(first.items())).encode())
        if op == 'run_mcmc':
            state = out[0]
        elif op != 'evaluate':
            state = out


def run_fits(sc, rec):
    import copy
    import numpy as np
    import pandas as pd
    from .. import sut
    jax = sut.jax
    c = sc['problem']
    data = [history.gbart_data(c), history.gbart_data(dict(c, data_seed=c['data_seed'] + 1))]
    data = [(X, y, X[:, ::2] + np.float32(0.25)) for X, y in data]
    frames = [(pd.DataFrame(X.T).rename(columns=str), pd.Series(y, name='resp'), pd.DataFrame(t.T).rename(columns=str)) for X, y, t in data]
    inits = copy.deepcopy(sc['inits'])
    key = sut.make_key(sc['entropy'])

    def content(x):
        if isinstance(x, np.ndarray):
            return x.dtype.name, x.shape, x.tobytes(), x.flags.writeable
        if isinstance(x, pd.DataFrame):
            return list(x.columns), list(x.index), x.to_numpy().tobytes(), [str(t) for t in x.dtypes]
        return x.name, list(x.index), x.to_numpy().tobytes(), str(x.dtype)

    def inputs():
        return [content(x) for t in data + frames for x in t], repr([sorted(d.items()) for d in inits]), [id(v) for d in inits for v in d.values()], np.array(sut.random.key_data(key)).tobytes()

    def results(m):
        out = {a: getattr(m, a, None) for a in ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_test', 'yhat_train_mean', 'yhat_test_mean')}
        out.update({f'trace{k}': v for k, v in sut.leaves_with_path(sut.find_trace(m))})
        out.update({f'state{k}': v for k, v in sut.leaves_with_path(sut.find_state(m))})
        conv = lambda v: (v.dtype.name, v.shape, v.tobytes())
        return {k: conv(np.asarray(v)) for k, v in out.items() if v is not None}

    before = inputs()
    first, models = {}, []
    with sut.stub_step(sc['stub'], forest=True):
        for pos, j in enumerate(sc['order']):
            q = dict(sc['specs'][j])
            X, y, t = (frames if q.pop('frame') else data)[q.pop('data')]
            init, seed = q.pop('init'), q.pop('seed')
            kw = {} if init is None else dict(initkw=inits[init])
            what = f'fit {pos} (specification {j}, initkw {None if init is None else sc["inits"][init]}, stub={sc["stub"]})'
            m = sut.fit(X, y, x_test=t if q.pop('x_test') else None, seed=key if sc['same_seed'] else sut.random.fold_in(key, seed), printevery=10 ** 6, **q, **kw)
            got = results(m)
            rec.step(q['nskip'] + q['ndpost'])
            rec.count('op:fit')
            now = inputs()
            if now != before:
                raise Violation('input-modified', f'{what}: {[i for i, (a, b) in enumerate(zip(now, before)) if a != b]} of (data, initkw, initkw values, key)')
            if j in first:
                bad = sorted(k for k in set(got) | set(first[j]) if got.get(k) != first[j].get(k))
                if bad:
                    raise Violation('fits-interact', f'{what}: differs from the same fit before the others, order {sc["order"][:pos + 1]}: {bad[:6]}')
            first.setdefault(j, got)
            models.append((what, m, got))
            spl = np.frombuffer(got["trace['split_trees']"][2], np.uint8)
            if spl.any():
                rec.seen('fits', j, pos, spl.tobytes())
            rec.log(repr(sorted(got.items())).encode())
        for what, m, got in models:
            late = results(m)
            bad = sorted(k for k in set(got) | set(late) if got.get(k) != late.get(k))
            if bad:
                raise Violation('output-modified', f'{what}: the model changed while others were fitted: {bad[:6]}')


def run_interleave(sc, rec):
    import gc
    import numpy as np
    from .. import sut
    from .c10 import state_digest
    jax, random = sut.jax, sut.random
    probs = [sc['problem'], sc['other']]
    share = sc['relation'] in ('same', 'same-data')
    rec.count(f'relation:{sc["relation"]}')
    nch = len(sc['chains'])
    quota = [sc['schedule'].count(j) for j in range(nch)]

    def build():
        data = [tuple(sut.make_data(p)) for p in probs]
        if share:
            arrs = [sut.jnp.asarray(x) for x in data[0]]
            return [sut.make_state(p, None, X=arrs[0], y=arrs[1], max_split=arrs[2]) for p in probs]
        return [sut.make_state(p) for p in probs]

    def stepper():
        if sc['mode'] == 'loop1':
            return lambda s, k, j: sut.run_loop(s, 0, 1, 1, k)[0]
        if sc['mode'] == 'own-jit':
            own = {}
            def step(s, k, j):
                f = own.setdefault(j, jax.jit(lambda s, k: sut.mcmcstep.step(s, k)))
                return f(s, k)
            return step
        f = jax.jit(sut.mcmcstep.step)
        return lambda s, k, j: f(s, k)

    def keys(j, i):
        return random.fold_in(random.fold_in(sut.make_key(sc['entropy']), sc['chains'][j]['seed']), i)

    # alone
    solo = []
    step = stepper()
    for j in range(nch):
        s = build()[sc['chains'][j]['which']]
        digs = [state_digest(s, sut)]
        for i in range(quota[j]):
            s = step(s, keys(j, i), j)
            digs.append(state_digest(s, sut))
        solo.append(digs)

    # interleaved
    base = build()
    states = [base[c['which']] for c in sc['chains']]
    pos = [0] * nch
    step = stepper()
    kept = []
    noise = {}
    for i, op in sc['noise']:
        noise.setdefault(i, []).append(op)
    for t, j in enumerate(sc['schedule']):
        for op in noise.get(t, ()):
            s = states[j]
            rec.fault(f'interference:{op}')
            if op == 'evaluate':
                sut.mcmcloop.evaluate_trace({q: s[q][None] for q in ('leaf_trees', 'var_trees', 'split_trees')}, s['X'])
            elif op == 'branch':
                step(s, random.key(t), j)
            elif op == 'loop':
                sut.run_loop(s, 0, 1, 2, random.key(t))
            elif op == 'gc':
                gc.collect()
            elif op == 'mutate_copy':
                # a user edits a copy of the state
                q = dict(s)
                q['leaf_trees'] = q['leaf_trees'] + 1
                if isinstance(q.get('ratios'), dict):
                    q['ratios'] = dict(q['ratios'])
                    q['ratios'].clear()
                del q['resid']
            elif op == 'fail':
                def cb(**kw):
                    raise KeyboardInterrupt('injected')
                try:
                    sut.mcmcloop.run_mcmc(s, 0, 1, 1, cb, random.key(t))
                except KeyboardInterrupt:
                    pass
        kept.append((j, pos[j], states[j]))
        new = step(states[j], keys(j, pos[j]), j)
        pos[j] += 1
        states[j] = new
        rec.step()
        d = state_digest(new, sut)
        if d != solo[j][pos[j]]:
            raise Violation('chains-interact', f'chain {j} of {nch} ({sc["relation"]}, {sc["mode"]}): state after iteration {pos[j]} differs from that of the chain alone')
    # all the states met along the way are still what they were
    for j, i, s in kept:
        snap(s, sut, 'kept state')
        if state_digest(s, sut) != solo[j][i]:
            raise Violation('kept-state-modified', f'chain {j}, state after iteration {i} changed after the chains went on')
        spl = np.array(s['split_trees'])
        if spl.any():
            rec.seen('interleave', j, spl.tobytes())
    rec.log(repr(solo))
    rec.count('switches', sum(a != b for a, b in zip(sc['schedule'], sc['schedule'][1:])))
