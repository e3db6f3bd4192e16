"""C20 execution mode is transparent."""

from .. import config, history
from ..core import Violation
from ..runner import BASE_XLA

RUNS = dict(quick=54, thorough=700)
ENV = dict(XLA_FLAGS=BASE_XLA + ' --xla_force_host_platform_device_count=2')
TIMEOUT = 400
RULE = ('step: the states met by a compiled chain (with shocks) are stepped again, with the same key, op by op, without jit, inside other compiled functions, as lanes '
        'of a vectorised batch, on another device, sharded over devices; batch: chains of different data and entropy advanced as one batch and separately; run and fit: whole '
        'runs and fits in the same modes; cold: a fresh process whose first uses of the library happen in a random order of modes (under a trace, vectorised, op by op, on a restored state). distinct_nontrivial counts distinct (mode, forest) pairs with at least one decision node')
STUB = 'mcmcstep.step is a stub in the runs of kind run or fit with stub=true'
ASSUMPTIONS = ['roundoff may flip a decision only in isolated steps: a mode is wrong if at least two steps (and more than one in twenty), or most of five entropy streams of a run or fit, disagree']

STEP_MODES = ('eager', 'eager', 'nojit', 'userjit', 'closure', 'lanes', 'lanes1', 'lanes_key', 'scan', 'device', 'sharded', 'grad_free', 'parts', 'remat', 'cond', 'pmap', 'nested')
RUN_MODES = ('userjit', 'vmap_key', 'vmap_state', 'device', 'vmap_both', 'scan', 'pmap', 'eager_key')
COLD_MODES = ('init_jit', 'init_eager', 'init_vmap', 'restored', 'restored_vmap', 'eager', 'init_jit2', 'diagnostics')
FIT_MODES = ('userjit', 'vmap_key', 'vmap_y', 'device', 'predict_jit', 'predict_vmap', 'evaluate')


def generate(r, tier, i):
    kind = 'cold' if i % 9 == 4 else config.pick(r, (4, 'step'), (2, 'batch'), (2, 'run'), (2, 'fit'))
    ent = dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31))
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 2, 11, 30, 60]), d=r.choice([1, 2, 3, 4, 5, 6]), p=r.choice([1, 2, 4]), ntree=r.choice([1, 2, 3, 8]))
    sc = dict(kind=kind, problem=c, entropy=ent)
    if kind == 'step':
        sc.update(modes=sorted({r.choice(STEP_MODES) for _ in range(2)}), warm=r.choice([0, 5, 30]), steps=r.choice([10, 40]), cut=r.choice([0, 0, 1]),
                  shocks=[[r.randrange(40), r.choice([1e-3, 0.1, 30.])] for _ in range(r.choice([0, 2, 5]))])
    elif kind == 'batch':
        sc.update(lanes=r.choice([2, 3, 5]), steps=r.choice([30, 80]), shared=r.choice(['nothing', 'X', 'all', 'hyper']), how=r.choice(['vmap', 'vmap', 'vmap2', 'sharded', 'pmap']))
        if sc['how'] == 'pmap':
            sc['lanes'] = 2
        if sc['how'] == 'sharded' or sc['how'] == 'vmap2':
            sc['lanes'] = 4
    elif kind == 'cold':
        sc.update(order=r.sample(COLD_MODES, 4), warm=r.choice([3, 10]))
    elif kind == 'run':
        stub = r.random() < 0.75
        sc.update(stub=stub, modes=sorted({r.choice(RUN_MODES) for _ in range(3 if stub else 2)}), sched=r.choice([[0, 4, 1], [3, 3, 2], [2, 0, 1], [1, 5, 3]]))
    else:
        stub = r.random() < 0.7
        sc.update(stub=stub, modes=sorted({r.choice(FIT_MODES) for _ in range(2)}), usequants=r.random() < 0.5, numcut=r.choice([1, 5, 100, 255, 256]),
                  sched=r.choice([[4, 2, 1], [3, 0, 2]]))
        c['n'] = r.choice([0, 1, 2, 3, 11, 30])
    return sc


def shrink(sc):
    if len(sc.get('modes', ())) > 1:
        for m in sc['modes']:
            yield dict(sc, modes=[m])
    if sc.get('shocks'):
        yield dict(sc, shocks=[])
    for k, vs in dict(warm=(0, 5), steps=(2, 4, 10)).items():
        if k in sc:
            for v in vs:
                if v < sc[k]:
                    yield dict(sc, **{k: v})
    if sc.get('lanes', 2) > 2 and sc['how'] == 'vmap':
        yield dict(sc, lanes=2)
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


# ------------------------------------------------------------------ comparison

INT = ('var_trees', 'split_trees', 'grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count', 'leaf_indices', 'affluence_trees')


def compare(a, b, what, sigma2):
    """
    Differences between two dicts of numpy arrays with the same meaning. Wrong
    shapes or types raise; a list of fields differing in value is returned.
    """
    import numpy as np
    flat = lambda s: {**{k: v for k, v in s.items() if not isinstance(v, dict) and v is not None}, **{f'ratios.{k}': v for k, v in (s.get('ratios') or {}).items()}}
    a, b = flat(a), flat(b)
    if set(a) != set(b):
        raise Violation('fields', f'{what}: fields {sorted(set(a) ^ set(b))} in only one of the two results')
    out = []
    for k in sorted(a):
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or x.dtype != y.dtype:
            raise Violation('type', f'{what}: {k} is {y.dtype}{y.shape} instead of {x.dtype}{x.shape}')
        if x.dtype.kind in 'iub':
            if not np.array_equal(x, y):
                out.append(k)
            continue
        x, y = x.astype(np.float64), y.astype(np.float64)
        fin = np.isfinite(x)
        if not np.array_equal(fin, np.isfinite(y)):
            out.append(k)
            continue
        big = np.abs(x[fin]).max(initial=0)
        if k == 'resid':
            big = max(big, np.abs(np.asarray(a['y'], np.float64)).max(initial=0))
        tol = 3e-4 * (big + 1e-6)
        if k == 'ratios.log_likelihood':
            # difference between terms which may be much larger
            terms = (np.abs(a['resid'].astype(np.float64)) + 2 * np.abs(a['leaf_trees']).max(initial=0)) ** 2
            tol += 3e-6 * (10 + terms.sum() / float(sigma2))
        if np.any(np.abs(x - y)[fin] > tol):
            out.append(k)
    return out


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    dict(step=run_step, batch=run_batch, run=run_run, fit=run_fit, cold=run_cold)[sc['kind']](sc, rec)


def lane(tree, i, sut):
    return sut.jax.tree_util.tree_map(lambda x: x[i], tree)


def stack(trees, sut):
    return sut.jax.tree_util.tree_map(lambda *x: sut.jnp.stack(x), *trees)


def run_step(sc, rec):
    import numpy as np
    from .. import sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    state = sut.make_state(sc['problem'])
    base = sut.to_np(state)
    key = sut.make_key(sc['entropy'])
    step = lambda s, k: sut.mcmcstep.step(s, k)
    ref = jax.jit(step)
    visited = []
    shocks = dict(map(tuple, sc['shocks']))
    for i in range(sc['warm'] + sc['steps']):
        if i - sc['warm'] in shocks:
            state = dict(state, sigma2=jnp.full_like(state['sigma2'], shocks[i - sc['warm']] * sc['problem']['yscale'] ** 2))
            rec.fault('event:sigma')
        k = random.fold_in(key, i)
        new = ref(state, k)
        if i >= sc['warm']:
            visited.append((state, k, new))
        state = new
    rec.step(len(visited))
    devs = jax.devices()

    def executor(mode):
        """(function of lists of states and keys -> list of states, how many)"""
        many = lambda f: lambda ss, ks: [f(s, k) for s, k in zip(ss, ks)]
        if mode == 'eager':
            return many(step), 4
        if mode == 'nojit':
            def f(s, k):
                if s['split_trees'].shape[-1] < 4:
                    # jax does not support empty loops (shallow trees) in this mode
                    return step(s, k)
                with jax.disable_jit():
                    return step(s, k)
            return many(f), 2
        if mode == 'userjit':
            def f(s, k):
                s = {q: v for q, v in sorted(s.items())}
                return dict(step(s, random.fold_in(random.fold_in(k, 0), 0)), extra=jnp.sum(s['resid']))
            def g(s, k):
                out = step(dict(s), k)
                return out, jnp.sum(out['leaf_trees'])
            j = jax.jit(g)
            return many(lambda s, k: j(s, k)[0]), 10 ** 6
        if mode == 'nested':
            j = jax.jit(lambda s, k: jax.jit(lambda s, k: jax.jit(step)(s, k))(s, k))
            return many(j), 10 ** 6
        if mode == 'closure':
            # everything but the chain is a constant of the compiled program
            dyn = [k for k in sut.DYNAMIC if base[k] is not None] + (['ratios'] if 'ratios' in state else [])
            const = {k: v for k, v in visited[0][0].items() if k not in dyn}
            j = jax.jit(lambda d, k: {q: v for q, v in step({**const, **d}, k).items() if q in dyn})
            return many(lambda s, k: {**s, **j({q: s[q] for q in dyn}, k)}), 10 ** 6
        if mode in ('lanes', 'lanes1', 'lanes_key'):
            if mode == 'lanes_key':
                # one state, many keys
                j = jax.jit(jax.vmap(step, in_axes=(None, 0)))
                def f(ss, ks):
                    for s, k in zip(ss, ks):
                        kk = jnp.stack([k, random.fold_in(k, 1), random.fold_in(k, 2)])
                        yield lane(j(s, kk), 0, sut)
                return f, 10 ** 6
            j = jax.jit(jax.vmap(step))
            if mode == 'lanes1':
                return many(lambda s, k: lane(j(stack([s], sut), k[None]), 0, sut)), 10 ** 6
            def f(ss, ks):
                out = j(stack(ss, sut), jnp.stack(ks))
                return [lane(out, i, sut) for i in range(len(ss))]
            return f, 10 ** 6
        if mode == 'scan':
            j = jax.jit(lambda ss, ks: jax.lax.scan(lambda _, a: (None, step(*a)), None, (ss, ks))[1])
            def f(ss, ks):
                out = j(stack(ss, sut), jnp.stack(ks))
                return [lane(out, i, sut) for i in range(len(ss))]
            return f, 10 ** 6
        if mode == 'remat':
            j = jax.jit(jax.checkpoint(step))
            return many(j), 10 ** 6
        if mode == 'cond':
            j = jax.jit(lambda s, k, on: jax.lax.cond(on, step, lambda s, k: s, s, k))
            return many(lambda s, k: j(s, k, True)), 10 ** 6
        if mode == 'grad_free':
            # partial evaluation of the program ahead of time
            j = jax.jit(step).lower(visited[0][0], visited[0][1]).compile()
            return many(j), 10 ** 6
        if mode == 'parts':
            def f(s, k):
                return eval_jaxpr(s, k)
            jaxpr, shape = jax.make_jaxpr(step, return_shape=True)(visited[0][0], visited[0][1])
            treedef = jax.tree_util.tree_structure(shape)
            run = jax.jit(lambda *a: jax.core.eval_jaxpr(jaxpr.jaxpr, jaxpr.consts, *a))
            def eval_jaxpr(s, k):
                return jax.tree_util.tree_unflatten(treedef, run(*jax.tree_util.tree_leaves((s, k))))
            return many(f), 10 ** 6
        if mode == 'device':
            def f(s, k):
                out = ref(jax.device_put(s, devs[-1]), jax.device_put(k, devs[-1]))
                where = {d for v in jax.tree_util.tree_leaves(out) for d in v.devices()}
                if where != {devs[-1]}:
                    raise Violation('device', f'state placed on {devs[-1]} ended up on {where}')
                return out
            return many(f), 10 ** 6
        if mode in ('sharded', 'pmap'):
            if mode == 'pmap':
                j = jax.pmap(step)
                put = lambda x: x
            else:
                mesh = jax.sharding.Mesh(np.array(devs), ('chain',))
                sh = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec('chain'))
                j = jax.jit(jax.vmap(step))
                put = lambda x: jax.device_put(x, sh)
            def f(ss, ks):
                out = []
                for i in range(0, len(ss) - 1, 2):
                    o = j(put(stack(ss[i:i + 2], sut)), put(jnp.stack(ks[i:i + 2])))
                    out += [lane(o, 0, sut), lane(o, 1, sut)]
                return out
            return f, 10 ** 6
        raise KeyError(mode)

    for mode in sc['modes']:
        rec.count(f'step:{mode}')
        ex, limit = executor(mode)
        vis = visited if len(visited) <= limit else visited[::max(1, len(visited) // limit)][:limit]
        outs = list(ex([v[0] for v in vis], [v[1] for v in vis]))
        bad = []
        for i, ((s, k, new), out) in enumerate(zip(vis, outs)):
            want, got = sut.dynamic_np(new, base), sut.dynamic_np(out, base)
            diff = compare(want, got, f'step {mode}', s['sigma2'])
            rec.step()
            if diff:
                bad.append((i, diff))
            elif want['split_trees'].any():
                rec.seen(mode, want['split_trees'].tobytes(), want['var_trees'].tobytes())
            rec.log(mode, want['split_trees'].tobytes())
        if len(bad) >= 2 and len(bad) > len(outs) / 20:
            raise Violation('mode-changes-step', f'{mode}: {len(bad)} of {len(outs)} steps differ from the compiled step, first: step {bad[0][0]}, fields {bad[0][1]}')
        rec.count('isolated differences', len(bad))


def cold_job(sc, blob):
    """in a fresh process: one step from two states, in several modes"""
    import pickle
    import numpy as np
    from .. import sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    key = sut.make_key(sc['entropy'])
    X, y, ms = sut.make_data(sc['problem'])
    shapes = [k for k in sut.DYNAMIC]
    keep = lambda s: {k: (None if s.get(k) is None else np.array(s[k])) for k in shapes}

    def init(y):
        return sut.make_state(sc['problem'], (X, y, ms))

    def trace_of(s):
        return {k: s[k][None] for k in ('leaf_trees', 'var_trees', 'split_trees')}

    step = lambda s, k: sut.mcmcstep.step(s, k)
    out = []
    for mode in sc['order']:
        if mode == 'init_jit':
            res = ('init', jax.jit(lambda y, k: step(init(y), k))(jnp.array(y), key))
        elif mode == 'init_jit2':
            f = jax.jit(init)
            res = ('init', jax.jit(step)(f(jnp.array(y)), key))
        elif mode == 'init_eager':
            res = ('init', jax.jit(step)(init(jnp.array(y)), key))
        elif mode == 'init_vmap':
            o = jax.jit(jax.vmap(lambda y, k: step(init(y), k)))(jnp.stack([y, y * 0]), jnp.stack([key, key]))
            res = ('init', lane(o, 0, sut))
        elif mode == 'restored':
            res = ('restored', jax.jit(step)(pickle.loads(blob), key))
        elif mode == 'restored_vmap':
            s = pickle.loads(blob)
            res = ('restored', lane(jax.jit(jax.vmap(step))(stack([s, s], sut), jnp.stack([key, key])), 1, sut))
        elif mode == 'eager':
            res = ('restored', step(pickle.loads(blob), key))
        elif mode == 'diagnostics':
            s = pickle.loads(blob)
            f = lambda s: (sut.debug.check_trace(trace_of(s), s), sut.debug.trace_depth_distr(s['split_trees'][None]), sut.debug.trace_points_per_leaf_distr(trace_of(s), s['X']))
            a, b = jax.jit(f)(s), f(s)
            if any(not np.array_equal(u, v) for u, v in zip(a, b)):
                return dict(error='diagnostics differ between compiled and not')
            if np.any(a[0]):
                return dict(error='diagnostics flag a valid forest')
            continue
        out.append((mode, res[0], keep(res[1])))
    return dict(out=out)


def run_cold(sc, rec):
    import pickle
    from .. import restart, sut
    jax, random = sut.jax, sut.random
    initial = sut.make_state(sc['problem'])
    base = sut.to_np(initial)
    j = jax.jit(sut.mcmcstep.step)

    def attempt(seed):
        """modes whose result differs from that of this process"""
        q = dict(sc, entropy=dict(sc['entropy'], seed=seed))
        key = sut.make_key(q['entropy'])
        state = initial
        want = {'init': j(state, key)}
        sigma2 = {'init': state['sigma2']}
        for i in range(sc['warm']):
            state = j(state, random.fold_in(key, i))
        want['restored'], sigma2['restored'] = j(state, key), state['sigma2']
        rec.fault('restart in a fresh process')
        res = restart.spawn(dict(module='c20', function='cold_job', args=(q, pickle.dumps(state))), ENV)
        if 'error' in res:
            raise Violation('diagnostics-mode', res['error'])
        bad = {}
        for mode, which, got in res['out']:
            rec.step()
            rec.count(f'cold:{mode}')
            w = sut.dynamic_np(want[which], base)
            diff = compare(w, dict(w, **got), f'first use {mode}', sigma2[which])
            if diff:
                bad[mode] = diff
            elif w['split_trees'].any():
                rec.seen('cold', mode, w['split_trees'].tobytes())
            rec.log(mode, got['split_trees'].tobytes())
        return bad

    bad = attempt(sc['entropy']['seed'])
    for n in (1, 2):
        if not bad:
            break
        rec.count('reseeded')
        again = attempt((sc['entropy']['seed'] + n) % 2 ** 31)
        bad = {k: v for k, v in again.items() if k in bad}
    if bad:
        raise Violation('mode-changes-step', f'fresh process, order {sc["order"]}: the modes {bad} give another step with three entropy streams out of three')


def run_batch(sc, rec):
    """chains of different problems as one batch, step by step"""
    import numpy as np
    from .. import sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    L, c = sc['lanes'], sc['problem']
    if sc['shared'] in ('all', 'hyper'):
        probs = [c] * L
    else:
        probs = [dict(c, data_seed=c['data_seed'] + i) for i in range(L)]
    if sc['shared'] == 'hyper':
        probs = [dict(c, alpha=c['alpha'] * (1 + i), beta=c['beta'] * (1 + i)) for i in range(L)]
    data = [sut.make_data(q) for q in probs]
    if sc['shared'] == 'X':
        data = [(data[0][0], d[1], data[0][2]) for d in data]
    states = [sut.make_state(q, d) for q, d in zip(probs, data)]
    if sc['shared'] == 'hyper' and states[0]['min_points_per_leaf'] is not None:
        states = [dict(s, min_points_per_leaf=s['min_points_per_leaf'] + i) for i, s in enumerate(states)]
        states = [dict(s, affluence_trees=s['affluence_trees'].at[:, 1].set(len(s['y']) >= 2 * s['min_points_per_leaf'])) for s in states]
    bases = [sut.to_np(s) for s in states]
    key = sut.make_key(sc['entropy'])
    lkeys = [random.fold_in(key, i) for i in range(L)]
    single = jax.jit(sut.mcmcstep.step)
    batch = stack(states, sut)
    axes = 0
    if sc['shared'] == 'X':
        axes = jax.tree_util.tree_map(lambda x: 0, states[0])
        for k in ('X', 'max_split'):
            axes[k] = None
            batch[k] = states[0][k]
    how = sc['how']
    if how == 'pmap':
        vstep = jax.pmap(sut.mcmcstep.step, in_axes=(axes, 0))
    elif how == 'vmap2' and axes == 0:
        f = jax.jit(jax.vmap(jax.vmap(sut.mcmcstep.step)))
        def vstep(b, k):
            fold = lambda t: jax.tree_util.tree_map(lambda x: x.reshape((2, L // 2) + x.shape[1:]), t)
            return jax.tree_util.tree_map(lambda x: x.reshape((L,) + x.shape[2:]), f(fold(b), fold(k)))
    else:
        vstep = jax.jit(jax.vmap(sut.mcmcstep.step, in_axes=(axes, 0)))
        if how == 'sharded' and axes == 0:
            mesh = jax.sharding.Mesh(np.array(jax.devices()), ('chain',))
            batch = jax.device_put(batch, jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec('chain')))
    rec.count(f'batch:{how}')
    rec.count(f'shared:{sc["shared"]}')
    bad = []
    total = 0
    for i in range(sc['steps']):
        ks = [random.fold_in(k, i) for k in lkeys]
        before = [lane(batch if axes == 0 else {k: (jnp.stack([v] * L) if k in ('X', 'max_split') else v) for k, v in batch.items()}, j, sut) for j in range(L)]
        out = vstep(batch, jnp.stack(ks))
        for j in range(L):
            b = jax.device_put(before[j], jax.devices()[0])
            want = sut.dynamic_np(single(b, ks[j]), bases[j])
            got = sut.dynamic_np(lane({k: v for k, v in out.items()}, j, sut), bases[j])
            diff = compare(want, got, f'lane {j}', b['sigma2'])
            total += 1
            if diff:
                bad.append((i, j, diff))
            elif want['split_trees'].any():
                rec.seen('batch', how, want['split_trees'].tobytes(), want['var_trees'].tobytes())
            rec.log(want['split_trees'].tobytes())
        rec.step(L)
        batch = out
        if axes != 0:
            for k in ('X', 'max_split'):
                batch[k] = states[0][k]
    if len(bad) >= 2 and len(bad) > total / 20:
        raise Violation('batch-differs', f'{how}, sharing {sc["shared"]}: {len(bad)} of {total} steps of the lanes differ from the chain alone, first: step {bad[0][0]} lane {bad[0][1]}, fields {bad[0][2]}')
    rec.count('isolated differences', len(bad))


def result_np(res, np):
    state, burn, trace = res
    out = {}
    for n, t in (('state', state), ('burn', burn), ('trace', trace)):
        for k, v in t.items():
            if k in ('opt', 'min_points_per_leaf') or v is None:
                continue
            if isinstance(v, dict):
                out.update({f'{n}.{k}.{q}': np.array(w) for q, w in v.items()})
            else:
                out[f'{n}.{k}'] = np.array(v)
    return out


def same_results(want, got, what, np):
    if set(want) != set(got):
        raise Violation('fields', f'{what}: fields {sorted(set(want) ^ set(got))} in only one of the two results')
    bad = []
    for k in sorted(want):
        x, y = want[k], got[k]
        if x.shape != y.shape or x.dtype != y.dtype:
            raise Violation('type', f'{what}: {k} is {y.dtype}{y.shape} instead of {x.dtype}{x.shape}')
        if x.dtype.kind in 'iub':
            ok = np.array_equal(x, y)
        else:
            x, y = x.astype(np.float64), y.astype(np.float64)
            fin = np.isfinite(x)
            ok = np.array_equal(fin, np.isfinite(y)) and np.all(np.abs(x - y)[fin] <= 1e-3 * (np.abs(x[fin]).max(initial=0) + 1e-6))
        if not ok:
            bad.append(k)
    return bad


def confirm(sc, mode, attempt, rec, what):
    """attempt(key) -> differing fields; roundoff may fork single chains only"""
    from .. import sut
    ent = sc['entropy']
    first = attempt(sut.make_key(ent))
    if first:
        votes = [first] + [attempt(sut.make_key(dict(ent, seed=(ent['seed'] + j) % 2 ** 31))) for j in (1, 2, 3, 4)]
        rec.count('reseeded')
        if sum(map(bool, votes)) >= 4 or sc.get('stub'):
            raise Violation('mode-changes-result', f'{what} {mode}: {sum(map(bool, votes))} of 5 entropy streams give different results, fields {first[:6]}')


def run_run(sc, rec):
    import numpy as np
    from .. import sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    nb, ns, nk = sc['sched']
    state = sut.make_state(sc['problem'])
    c2 = dict(sc['problem'], data_seed=sc['problem']['data_seed'] + 1)
    # same shapes, other response
    state2 = dict(state, y=state['y'][::-1], resid=state['resid'][::-1] * 0.5)
    cb = sut.no_callback
    go = lambda s, k: sut.mcmcloop.run_mcmc(s, nb, ns, nk, cb, k)
    rec.count('stub' if sc['stub'] else 'real')
    devs = jax.devices()
    with sut.stub_step(sc['stub'], forest=True):
        jax.clear_caches()
        for mode in sc['modes']:
            rec.count(f'run:{mode}')
            compiled = {}

            def attempt(key):
                k2 = random.fold_in(key, 77)
                if mode == 'userjit':
                    f = compiled.setdefault('f', jax.jit(lambda s, k: (go(s, k), jnp.sum(s['y']))))
                    got = [(state, key, f(state, key)[0])]
                elif mode == 'vmap_key':
                    f = compiled.setdefault('f', jax.vmap(go, in_axes=(None, 0)))
                    o = f(state, jnp.stack([key, k2]))
                    got = [(state, key, lane(o, 0, sut)), (state, k2, lane(o, 1, sut))]
                elif mode == 'vmap_state':
                    f = compiled.setdefault('f', jax.jit(jax.vmap(go, in_axes=(0, None))))
                    o = f(stack([state, state2], sut), key)
                    got = [(state, key, lane(o, 0, sut)), (state2, key, lane(o, 1, sut))]
                elif mode == 'vmap_both':
                    f = compiled.setdefault('f', jax.jit(jax.vmap(go)))
                    o = f(stack([state, state2], sut), jnp.stack([key, k2]))
                    got = [(state, key, lane(o, 0, sut)), (state2, k2, lane(o, 1, sut))]
                elif mode == 'pmap':
                    f = compiled.setdefault('f', jax.pmap(go))
                    o = f(stack([state, state2], sut), jnp.stack([key, k2]))
                    got = [(state, key, lane(o, 0, sut)), (state2, k2, lane(o, 1, sut))]
                elif mode == 'scan':
                    f = compiled.setdefault('f', jax.jit(lambda s, ks: jax.lax.scan(lambda _, k: (None, go(s, k)), None, ks)[1]))
                    o = f(state, jnp.stack([key, k2]))
                    got = [(state, key, lane(o, 0, sut)), (state, k2, lane(o, 1, sut))]
                elif mode == 'device':
                    o = go(jax.device_put(state, devs[-1]), jax.device_put(key, devs[-1]))
                    where = {d for v in jax.tree_util.tree_leaves(o) for d in v.devices()}
                    if where != {devs[-1]}:
                        raise Violation('device', f'run placed on {devs[-1]} ended up on {where}')
                    got = [(state, key, o)]
                else:
                    # without compilation cache, from numpy arrays
                    jax.clear_caches()
                    got = [(state, key, go(jax.tree_util.tree_map(np.asarray, state), key))]
                bad = []
                for s, k, o in got:
                    want, have = result_np(go(s, k), np), result_np(o, np)
                    bad += same_results(want, have, f'run {mode}', np)
                    rec.step(nb + ns * nk)
                    if want['state.split_trees'].any():
                        rec.seen('run', mode, want['state.split_trees'].tobytes())
                    rec.log(mode, want['state.split_trees'].tobytes())
                return bad

            confirm(sc, mode, attempt, rec, 'run')
            jax.effects_barrier()
    jax.clear_caches()


def run_fit(sc, rec):
    import contextlib
    import io
    import numpy as np
    from .. import sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    c = sc['problem']
    ndpost, nskip, every = sc['sched']
    g = np.random.Generator(np.random.PCG64(c['data_seed']))
    # continuous data: no datapoint is on a cutpoint
    n, p = c['n'], c['p']
    X = g.normal(size=(p, n)).astype(np.float32)
    y = (g.normal(size=n) + (X[0] > 0)).astype(np.float32)
    y2 = (g.normal(size=n) * 2 - X[0]).astype(np.float32)
    xt = g.normal(size=(p, 7)).astype(np.float32)
    kw = dict(ndpost=ndpost, nskip=nskip, keepevery=every, printevery=10 ** 6, ntree=c['ntree'], maxdepth=c['d'], numcut=sc['numcut'], usequants=sc['usequants'],
              initkw=dict(min_points_per_leaf=2))
    arr = ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean')

    def fit(X, y, xt, key):
        m = sut.BART.gbart(X, y, x_test=xt, seed=key, **kw)
        out = {a: jnp.asarray(getattr(m, a)) for a in arr if getattr(m, a) is not None}
        tr = sut.find_trace(m)
        out.update({k: tr[k] for k in ('leaf_trees', 'var_trees', 'split_trees')})
        out['X'] = sut.find_state(m)['X']
        return out

    rec.count('stub' if sc['stub'] else 'real')
    devs = jax.devices()
    conv = lambda o: {k: np.array(v) for k, v in o.items()}
    with sut.stub_step(sc['stub'], forest=True), contextlib.redirect_stdout(io.StringIO()):
        jax.clear_caches()
        for mode in sc['modes']:
            rec.count(f'fit:{mode}')
            compiled = {}

            def attempt(key):
                k2 = random.fold_in(key, 77)
                what = f'fit {mode}'
                if mode == 'userjit':
                    f = compiled.setdefault('f', jax.jit(fit))
                    got = [(fit(X, y, xt, key), f(X, y, xt, key))]
                elif mode == 'vmap_key':
                    f = compiled.setdefault('f', jax.vmap(lambda k: fit(X, y, xt, k)))
                    o = f(jnp.stack([key, k2]))
                    got = [(fit(X, y, xt, key), lane(o, 0, sut)), (fit(X, y, xt, k2), lane(o, 1, sut))]
                elif mode == 'vmap_y':
                    f = compiled.setdefault('f', jax.vmap(lambda y: fit(X, y, xt, key)))
                    o = f(jnp.stack([y, y2]))
                    got = [(fit(X, y, xt, key), lane(o, 0, sut)), (fit(X, y2, xt, key), lane(o, 1, sut))]
                elif mode == 'device':
                    put = lambda x: jax.device_put(x, devs[-1])
                    o = fit(put(X), put(y), put(xt), put(key))
                    where = {d for v in (o['yhat_test'], o['sigma'], o['leaf_trees']) for d in v.devices()}
                    if where != {devs[-1]}:
                        raise Violation('device', f'fit with data on {devs[-1]} ended up on {where}')
                    got = [(fit(X, y, xt, key), o)]
                elif mode in ('predict_jit', 'predict_vmap'):
                    m = sut.BART.gbart(X, y, seed=key, **kw)
                    want = m.predict(xt)
                    if mode == 'predict_jit':
                        have = jax.jit(m.predict)(xt)
                    else:
                        have = jax.vmap(lambda x: m.predict(x[:, None])[:, 0], in_axes=1, out_axes=1)(xt)
                    got = [(dict(yhat=want), dict(yhat=have))]
                else:
                    m = sut.BART.gbart(X, y, seed=key, **kw)
                    tr, Xb = sut.find_trace(m), sut.find_state(m)['X']
                    want = sut.mcmcloop.evaluate_trace(tr, Xb)
                    have = jax.jit(lambda t, x: sut.mcmcloop.evaluate_trace(t, x) + 0)(tr, Xb)
                    got = [(dict(yhat=want), dict(yhat=have))]
                    have = [sut.grove.evaluate_forest(Xb, tr['leaf_trees'][i], tr['var_trees'][i], tr['split_trees'][i], jnp.float32) for i in range(min(2, ndpost))]
                    got += [(dict(yhat=want[i]), dict(yhat=h)) for i, h in enumerate(have)]
                    have = jax.jit(jax.vmap(sut.grove.evaluate_forest, in_axes=(None, 0, 0, 0, None)), static_argnums=4)
                    got.append((dict(yhat=want), dict(yhat=have(Xb, tr['leaf_trees'], tr['var_trees'], tr['split_trees'], jnp.float32))))
                bad = []
                for want, have in got:
                    want, have = conv(want), conv(have)
                    if 'sigest' in want and mode in ('vmap_y',) and n <= 1:
                        pass
                    bad += same_results(want, have, what, np)
                    rec.step(nskip + ndpost * every)
                    if 'split_trees' in want and want['split_trees'].any():
                        rec.seen('fit', mode, want['split_trees'].tobytes())
                    elif 'split_trees' not in want:
                        rec.seen('fit', mode, want['yhat'].tobytes())
                    rec.log(mode, want.get('split_trees', want.get('yhat')).tobytes())
                return bad

            confirm(sc, mode, attempt, rec, 'fit')
            jax.effects_barrier()
    jax.clear_caches()
