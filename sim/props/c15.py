"""C15 memory budgets and batch sizes are invisible."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=70, thorough=1000)
RULE = ('autobatch: random functions (pytrees, batched axes, types, sizes) under simulated memory budgets from one byte to unlimited, with the '
        'batches actually executed observed; budget: predictions, binning, cutpoints and whole fits with the budget of the library replaced; suffstat: '
        'each step of a chain executed with different residual/count batch sizes from the same state. '
        'distinct_nontrivial counts distinct (function or stage or state, batch size or number of batches) with more than one batch')
STUB = 'in the runs of kind budget the fitted forests come from a stub of mcmcstep.step; the budget is that passed to jaxext.autobatch'
ASSUMPTIONS = ['one step from equal states: decisions may differ by roundoff only in isolated steps, hence two differing steps are required']


def generate(r, tier, i):
    kind = config.pick(r, (3, 'autobatch'), (2, 'budget'), (3, 'suffstat'))
    if kind == 'autobatch':
        cases = []
        for _ in range(10):
            size = r.choice([0, 1, 2, 3, 5, 7, 12, 13, 14, 30, 36, 49, 60, 97, 120])
            ndim = r.randint(1, 3)
            args = []
            for _ in range(r.randint(1, 3)):
                nd = r.randint(1, 3)
                axis = r.choice([None, 0, 0, r.randrange(nd), -1, r.randrange(nd) - nd]) if args else r.randrange(-nd, nd)
                args.append(dict(other=[r.choice([0, 1, 2, 3, 4]) if r.random() < 0.15 else r.randint(1, 5) for _ in range(nd - 1)], axis=axis,
                                 dtype=r.choice(['int32', 'uint8', 'float32', 'int16'])))
            outs = [dict(axis=r.choice([0, 1, -1, 2, -2, -3]), which=r.randrange(len(args))) for _ in range(r.randint(1, 2))]
            cases.append(dict(size=size, args=args, outs=outs, tree=r.choice(['flat', 'dict', 'nested']), frac=r.choice([0.001, 0.05, 0.13, 0.3, 0.5, 0.9, 0.999, 1.0, 1.5, 100.0]),
                              off=r.choice([-1, 0, 0, 1]), seed=r.randrange(2 ** 31), int_axes=r.random() < 0.3, jit=r.random() < 0.3))
        return dict(kind=kind, cases=cases)
    if kind == 'budget':
        c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 2, 6, 13, 24, 60]), p=r.choice([1, 2, 3, 6, 7]), d=r.choice([1, 2, 4, 6]),
                               ntree=r.choice([1, 2, 7, 12]), save_ratios=False)
        return dict(kind=kind, problem=c, budgets=[r.choice([1, 10, 50, 100, 200, 333, 1000, 4000, 10 ** 5]) for _ in range(2)],
                    kw=dict(ntree=c['ntree'], maxdepth=c['d'], numcut=r.choice([1, 5, 30, 255, 256, 300]), usequants=r.random() < 0.6,
                            ndpost=r.choice([0, 1, 4]), nskip=r.choice([0, 2])), method=r.choice([None, 'scan', 'sort', 'compare_all']),
                    entropy=dict(kind='hash', seed=r.randrange(2 ** 31)))
    c = config.gen_problem(r, small=r.random() < 0.8, tame=True)
    n = c['n']
    sizes = [None, 'auto', 1, 2, 3, 7, 16, max(1, n - 1), max(1, n), n + 1, 2 * n + 5, max(1, n // 2), max(1, n // 2 + 1), 4, 32]
    variants = [[r.choice(sizes), r.choice(sizes)] for _ in range(3)]
    c.update(rbs=r.choice([None, 1, 'auto']), cbs=r.choice([None, 1, 'auto']))
    T = max(8, min(40, 400000 // (c['ntree'] * (2 ** c['d'] + n))))
    return dict(kind=kind, problem=c, variants=variants, T=T, entropy=config.gen_entropy(r, 0.3))


def shrink(sc):
    if sc['kind'] == 'autobatch':
        C = sc['cases']
        if len(C) > 1:
            for i in range(len(C)):
                yield dict(sc, cases=[C[i]])
        elif C:
            c = C[0]
            for s in (1, 2, 3, 4, 6, c['size'] // 2, c['size'] - 1):
                if 0 <= s < c['size']:
                    yield dict(sc, cases=[dict(c, size=s)])
            if len(c['args']) > 1:
                yield dict(sc, cases=[dict(c, args=c['args'][:1], outs=[dict(o, which=0) for o in c['outs']])])
            if len(c['outs']) > 1:
                yield dict(sc, cases=[dict(c, outs=c['outs'][:1])])
            for k, v in dict(tree='flat', jit=False, off=0).items():
                if c[k] != v:
                    yield dict(sc, cases=[dict(c, **{k: v})])
        return
    if sc['kind'] == 'budget':
        if len(sc['budgets']) > 1:
            for b in sc['budgets']:
                yield dict(sc, budgets=[b])
    else:
        if len(sc['variants']) > 1:
            for v in sc['variants']:
                yield dict(sc, variants=[v])
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    dict(autobatch=run_autobatch, budget=run_budget, suffstat=run_suffstat)[sc['kind']](sc, rec)


# ----------------------------------------------------------------- autobatch

def run_autobatch(sc, rec):
    for case in sc['cases']:
        one_case(case, rec)


def one_case(c, rec):
    import warnings
    import numpy as np
    from .. import sut
    jax, jnp = sut.jax, sut.jnp
    g = np.random.Generator(np.random.PCG64(c['seed']))
    N = c['size']
    specs = [dict(a) for a in c['args']]
    if c['int_axes']:
        # a single integer for all arguments
        for a in specs:
            a['axis'] = 0
    arrs, axes = [], []
    for a in specs:
        nd = len(a['other']) + 1
        if a['axis'] is None:
            shape = [3] + a['other']
        else:
            shape = list(a['other'])
            shape.insert(a['axis'] % nd, N)
        x = g.integers(0, 100, shape)
        arrs.append(jnp.asarray(x.astype(a['dtype'])))
        axes.append(a['axis'])
    batched = [i for i, a in enumerate(axes) if a is not None]

    calls = []

    def core_func(*xs):
        calls.append([tuple(x.shape) for x in xs])
        front = [jnp.moveaxis(x, a, 0).astype(jnp.int32) if a is not None else x.astype(jnp.int32) for x, a in zip(xs, axes)]
        tot = sum(f.sum() for f, a in zip(front, axes) if a is None)
        rows = sum(front[i].sum(axis=tuple(range(1, front[i].ndim))) for i in batched) + tot
        outs = []
        for o in c['outs']:
            w = front[batched[o['which'] % len(batched)]]
            r = w * 3 + rows.reshape((-1,) + (1,) * (w.ndim - 1))
            if r.ndim == 1:
                r = jnp.stack([r, r + 1], axis=1)
            ax = o['axis'] if -r.ndim <= o['axis'] < r.ndim else 0
            outs.append(jnp.moveaxis(r, 0, ax))
        return tuple(outs)

    out_axes = []
    nd0 = [max(2, arrs[batched[o['which'] % len(batched)]].ndim) for o in c['outs']]
    for o, nd in zip(c['outs'], nd0):
        out_axes.append(o['axis'] if -nd <= o['axis'] < nd else 0)
    # structure of the arguments and results
    if c['tree'] == 'flat' or c['int_axes']:
        func = lambda *xs: core_func(*xs)
        args, ia = tuple(arrs), tuple(axes)
        oa = tuple(out_axes)
    elif c['tree'] == 'dict':
        func = lambda d: dict(zip('uvw', core_func(*[d[k] for k in sorted(d)])))
        args = ({f'k{i}': x for i, x in enumerate(arrs)},)
        ia = ({f'k{i}': a for i, a in enumerate(axes)},)
        oa = dict(zip('uvw', out_axes))
    else:
        func = lambda a, rest: [core_func(a, *rest['r'])]
        args = (arrs[0], dict(r=tuple(arrs[1:])))
        ia = (axes[0], dict(r=tuple(axes[1:])))
        oa = [tuple(out_axes)]
    if c['int_axes']:
        ia = 0
    want = func(*args)
    flat = jax.tree_util.tree_leaves(want)
    total = sum(x.nbytes for x, a in zip(arrs, axes) if a is not None) + sum(x.nbytes for x in flat)
    budget = max(1, int(total * c['frac']) + c['off'])
    if N and c['frac'] < 0.5 and g.random() < 0.4:
        # right at the limit of a possible subdivision
        div = g.choice([q for q in range(1, N + 1) if N % q == 0])
        budget = max(1, total // int(div) + c['off'])
    text = f'size={N} budget={budget} of {total} bytes, {c}'
    calls.clear()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        f = sut.jaxext.autobatch(func, budget, ia, oa, return_nbatches=True)
        if c['jit']:
            inner = f
            f = jax.jit(lambda *a: inner(*a))
        got, nb = f(*args)
    nb = int(nb)
    warned = any('batch_nbytes' in str(w.message) or 'max_io_nbytes' in str(w.message) for w in ws)
    rec.fault('memory budget below the need', budget < total)
    rec.step()
    if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(want):
        raise Violation('autobatch-structure', text)
    for a, b in zip(jax.tree_util.tree_leaves(got), flat):
        if not sut.same_bits(a, b):
            raise Violation('autobatch-value', f'{text}: shape {a.shape} vs {b.shape}' + ('' if a.shape != b.shape else f', {int((np.array(a) != np.array(b)).sum())} elements differ'))
    if not 1 <= nb <= max(1, N) or (N and N % nb):
        raise Violation('autobatch-unequal', f'{text}: {nb} batches')
    # the batches really executed: sizes along the batched axes of the last trace
    if calls and N:
        b = calls[-1][batched[0]][axes[batched[0]]]
        if b * nb != N:
            raise Violation('autobatch-nbatches', f'{text}: batches of {b}, {nb} batches reported')
        for q in calls[-1:]:
            for i in batched:
                if q[i][axes[i]] != b:
                    raise Violation('autobatch-batches', f'{text}: {q}')
            for i in range(len(arrs)):
                if axes[i] is None and q[i] != arrs[i].shape:
                    raise Violation('autobatch-nonbatched', f'{text}: {q}')
    possible = total <= budget * max(1, N) if N else True
    if possible and total > budget * nb:
        raise Violation('autobatch-over-budget', f'{text}: {nb} batches of {total / nb} bytes')
    if warned == possible:
        raise Violation('autobatch-warning', f'{text}: warned={warned}, fits={possible}')
    rec.count('impossible_budgets', not possible)
    if nb > 1:
        rec.seen('autobatch', c['seed'], nb)
    rec.log(nb, *[np.array(x).tobytes() for x in flat])


# -------------------------------------------------------------------- budget

class budget:
    """Replaces the memory budgets of the library (seam: jaxext.autobatch)."""

    def __init__(self, nbytes):
        from .. import sut
        self.sut, self.nbytes, self.used, self.nb = sut, nbytes, 0, []

    def __enter__(self):
        self.sut.jax.clear_caches()
        self.orig = orig = self.sut.jaxext.autobatch

        def autobatch(func, max_io_nbytes, *args, **kw):
            self.used += 1
            return orig(func, min(self.nbytes, max_io_nbytes), *args, **kw)

        self.sut.jaxext.autobatch = autobatch
        for mod in (self.sut.prepcovars, self.sut.mcmcloop, self.sut.grove):
            if getattr(mod, 'autobatch', None) is orig:
                mod.autobatch = autobatch
        return self

    def __exit__(self, *exc):
        a = self.sut.jaxext.autobatch
        self.sut.jaxext.autobatch = self.orig
        for mod in (self.sut.prepcovars, self.sut.mcmcloop, self.sut.grove):
            if getattr(mod, 'autobatch', None) is a:
                mod.autobatch = self.orig
        self.sut.jax.clear_caches()


def run_budget(sc, rec):
    import contextlib
    import numpy as np
    from .. import sut
    jnp = sut.jnp
    c, kw = sc['problem'], sc['kw']
    X, y = history.gbart_data(c)
    g = np.random.Generator(np.random.PCG64(c['data_seed'] + 9))
    Xi = g.integers(-50, 50, X.shape)
    Xt = g.normal(size=(X.shape[0], 9)).astype(np.float32)
    key = sut.make_key(sc['entropy'])
    meth = {} if sc['method'] is None else dict(method=sc['method'])

    def everything():
        out = {}
        nb = kw['numcut'] + 1
        for name, x in (('float', X), ('int', Xi)):
            s, m = sut.prepcovars.quantilized_splits_from_matrix(jnp.asarray(x), nb)
            out[f'quantile splits {name}'], out[f'quantile number {name}'] = s, m
            out[f'bins {name}'] = sut.prepcovars.bin_predictors(jnp.asarray(x), s, **meth)
        s, m = sut.prepcovars.uniform_splits_from_matrix(jnp.asarray(X), nb)
        out['bins uniform'] = sut.prepcovars.bin_predictors(jnp.asarray(Xt), s, **meth)
        with sut.stub_step(True, forest=True):
            m = sut.fit(X, y, x_test=Xt, seed=key, printevery=10 ** 6, **kw)
        out['yhat_train'], out['yhat_test'], out['sigma'] = m.yhat_train, m.yhat_test, m.sigma
        out['predict'] = m.predict(X)
        st = sut.find_state(m)
        out['X'], out['max_split'] = st['X'], st['max_split']
        tr = sut.find_trace(m)
        out['trace split'], out['trace leaf'] = tr['split_trees'], tr['leaf_trees']
        out['evaluate_trace'] = sut.mcmcloop.evaluate_trace(tr, st['X'])
        mag = np.abs(np.array(tr['leaf_trees'], np.float64)).max(initial=0) * c['ntree'] * float(m.scale) + abs(float(m.offset))
        return {k: np.array(v) for k, v in out.items()}, mag

    want, mag = everything()
    for b in sc['budgets']:
        with budget(b) as B:
            got, _ = everything()
        rec.fault('memory budget of the library reduced', B.used)
        rec.count('seam_missed', B.used == 0)
        for k in want:
            a, w = got[k], want[k]
            if a.dtype != w.dtype or a.shape != w.shape:
                raise Violation('budget-shape', f'{k} with a budget of {b} bytes: {a.dtype}{a.shape} instead of {w.dtype}{w.shape}')
            if k in ('yhat_train', 'yhat_test', 'predict', 'evaluate_trace'):
                ok = np.all(np.abs(a - w) <= 2e-6 * mag)
            else:
                ok = a.tobytes() == w.tobytes()
            if not ok:
                raise Violation('budget-value', f'{k} with a budget of {b} bytes: {int((a != w).sum())} of {a.size} elements differ')
            rec.count('compared', w.size)
        rec.step()
        rec.seen('budget', b, c['data_seed'], kw['numcut'], kw['ndpost'])
        rec.log(*[a.tobytes() for a in got.values()])


# ------------------------------------------------------------------ suffstat

def run_suffstat(sc, rec):
    import numpy as np
    from .. import sut
    jax, random = sut.jax, sut.random
    c = sc['problem']
    data = sut.make_data(c)
    state = sut.make_state(c, data)
    variants = []
    for rbs, cbs in sc['variants']:
        variants.append((rbs, cbs, sut.make_state(dict(c, rbs=rbs, cbs=cbs), data)))
    step = jax.jit(sut.mcmcstep.step)
    key = sut.make_key(sc['entropy'], rec)
    mism = {}
    ever = 0
    for i in range(sc['T']):
        k = random.fold_in(key, i)
        new = step(state, k)
        ref = sut.to_np(new)
        old = np.array(state['resid'], np.float64)
        s2 = float(ref['sigma2'])
        for rbs, cbs, init in variants:
            v = dict(init)
            for f in sut.DYNAMIC:
                v[f] = state[f]
            if 'ratios' in state:
                v['ratios'] = state['ratios']
            got = sut.to_np(step(v, k))
            rec.step()
            name = f'resid_batch_size={rbs}, count_batch_size={cbs}'
            for f in ref:
                if f == 'ratios' or ref[f] is None:
                    continue
                if got[f] is None or got[f].dtype != ref[f].dtype or got[f].shape != ref[f].shape:
                    raise Violation('batch-size-shape', f'{name}: {f}')
            bad = compare_step(ref, got, c, old, np)
            if bad:
                mism.setdefault(name, []).append(f'step {i}: {bad}')
            rec.log(got['resid'].tobytes())
            if ref['split_trees'].any() and c['n'] > 1:
                rec.seen(rbs, cbs, ref['split_trees'].tobytes())
        state = new
    for name, l in mism.items():
        rec.count('isolated_roundoff_differences', len(l) == 1)
        if len(l) >= 2 and len(l) > 0.03 * sc['T']:
            raise Violation('batch-size-result', f'{name} vs {c["rbs"]}, {c["cbs"]}, n={c["n"]}: {len(l)} of {sc["T"]} steps differ: {l[:3]}')
    rec.count('variants', len(variants))


def compare_step(ref, got, c, old, np):
    for f in ('split_trees', 'var_trees', 'leaf_indices', 'affluence_trees', 'grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count'):
        if ref[f] is not None and not np.array_equal(ref[f], got[f]):
            return f'{f} differs'
    half = c['small_float'] == 'float16'
    eps = 2e-3 if half else 1e-5
    size = np.abs(old).max(initial=0) + np.abs(ref['resid']).max(initial=0) + np.abs(ref['leaf_trees'].astype(float)).max(initial=0) + np.abs(ref['y']).max(initial=0)
    amp = max(1, c['ntree'] ** .5) * 10
    for f in ('leaf_trees', 'resid'):
        a, b = ref[f].astype(float), got[f].astype(float)
        if not np.all(np.abs(a - b) <= eps * amp * size):
            return f'{f} differs by {np.abs(a - b).max()} (size {size})'
    if not np.isclose(ref['sigma2'], got['sigma2'], rtol=100 * eps * amp):
        return f'sigma2 {ref["sigma2"]} vs {got["sigma2"]}'
    return None
