"""C28 how the training data are presented does not matter."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=48, thorough=700)
RULE = ('twin executions under one entropy stream: steps: each state of a history is stepped with the datapoints in several other orders; fit: the same fit with '
        'the datapoints in other orders, in other containers, types and memory layouts, with other names, with predictors replaced by increasing functions of themselves. '
        'distinct_nontrivial counts distinct (presentation, resulting forests) with at least one decision node')
ASSUMPTIONS = ['another order of the datapoints changes the roundoff of sums: differences count only if they repeat (steps) or show in most of five entropy streams (fits)',
               'increasing functions of predictors matter through the regression behind the noise prior, which is therefore given']

EXACT = ('numpy', 'fortran', 'strided', 'reversed', 'readonly', 'float64', 'frame', 'frame_index', 'frame_named', 'frame_labels', 'frame_polars', 'series', 'int_y', 'small_y', 'small_y', 'small_x', 'rank', 'rank_int', 'rank_int8', 'rank_cube')


def generate(r, tier, i):
    kind = config.pick(r, (2, 'steps'), (3, 'fit'))
    if i % 8 == 6:
        kind = 'fit'
    c = config.gen_problem(r, tame=True, small=kind == 'fit', n=r.choice([2, 3, 5, 8, 20, 33, 64, 100, 255, 256, 257] if kind == 'steps' else [1, 2, 3, 6, 17, 30, 64, 100]),
                           p=r.choice([1, 2, 3, 5, 12]), d=r.choice([2, 3, 4, 5, 6, 6, 8, 9] if kind == 'steps' else [2, 3, 4, 6]), ntree=r.choice([1, 2, 5, 20]))
    ent = dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31))
    if kind == 'steps':
        if r.random() < 0.4:
            c['plant'] = config.gen_plant(r, deep=r.random() < 0.5)
        return dict(kind=kind, problem=c, T=r.choice([15, 30]), orders=[r.choice(['random', 'reverse', 'rotate', 'swap', 'sort_y', 'sort_x']) for _ in range(3)], entropy=ent, seed=r.randrange(2 ** 31))
    if i % 8 == 6:
        # thousands of datapoints
        c.update(n=[5000, 20000, 1025, 12000, 2049, r.choice([500, 1000, 3000, 4097])][i // 8 % 6], ntree=min(c['ntree'], 5), p=min(c['p'], 3))
    usequants = r.random() < 0.6
    kw = dict(ntree=c['ntree'], maxdepth=c['d'], numcut=r.choice([1, 2, 5, 20, 100, 255, 256, 300]), usequants=usequants, ndpost=r.choice([2, 5]), nskip=r.choice([0, 3]), keepevery=r.choice([1, 2]))
    if i % 8 == 6:
        kw['usequants'] = i // 8 % 3 < 2
    how = [r.choice(EXACT) for _ in range(4)] + [r.choice(['random', 'reverse', 'rotate', 'swap', 'sort_y', 'sort_x'])]
    if i % 8 == 6:
        how = how[:2] + r.sample(['random', 'reverse', 'rotate', 'sort_y', 'sort_x'], 2)
    return dict(kind=kind, problem=c, kw=kw, given=r.choice(['lamda', 'lamda', 'sigest', None]), how=how, ties=r.random() < 0.5, entropy=ent, seed=r.randrange(2 ** 31))


def shrink(sc):
    name = 'orders' if sc['kind'] == 'steps' else 'how'
    if len(sc[name]) > 1:
        for h in sc[name]:
            yield dict(sc, **{name: [h]})
    if sc['kind'] == 'fit':
        for k, v in dict(ndpost=1, nskip=0, keepevery=1, numcut=5, maxdepth=2, ntree=1).items():
            if sc['kw'][k] != v:
                yield dict(sc, kw=dict(sc['kw'], **{k: v}))
    for q in config.shrink_problem(sc['problem']):
        if q['n'] >= 1:
            yield dict(sc, problem=q)


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    dict(steps=run_steps, fit=run_fit)[sc['kind']](sc, rec)


def order(how, g, X, y, np):
    n = y.size
    if how == 'random':
        return g.permutation(n)
    if how == 'reverse':
        return np.arange(n)[::-1]
    if how == 'rotate':
        return np.roll(np.arange(n), int(g.integers(1, n + 1)))
    if how == 'swap':
        o = np.arange(n)
        o[[0, -1]] = o[[-1, 0]]
        return o
    return np.argsort(y if how == 'sort_y' else X[0], kind='stable')


def run_steps(sc, rec):
    import numpy as np
    from .. import sut
    from .c15 import compare_step
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    c = sc['problem']
    g = np.random.Generator(np.random.PCG64(sc['seed']))
    state = sut.make_state(c)
    s0 = sut.to_np(state)
    step = jax.jit(sut.mcmcstep.step)
    key = sut.make_key(sc['entropy'], rec)
    bad = {}
    for i in range(sc['T']):
        k = random.fold_in(key, i)
        new = step(state, k)
        ref = sut.to_np(new)
        old = np.array(state['resid'], np.float64)
        for h in sc['orders']:
            o = order(h, g, s0['X'], s0['y'], np)
            back = np.argsort(o)
            v = dict(state)
            for f in ('X', 'leaf_indices'):
                v[f] = jnp.asarray(np.array(state[f])[:, o])
            for f in ('y', 'resid'):
                v[f] = jnp.asarray(np.array(state[f])[o])
            got = sut.to_np(step(v, k))
            rec.step()
            for f in ('X', 'leaf_indices'):
                got[f] = got[f][:, back]
            for f in ('y', 'resid'):
                got[f] = got[f][back]
            diff = compare_step(ref, got, c, old, np)
            if diff:
                bad.setdefault(h, []).append(f'step {i}: {diff}')
            if not np.array_equal(got['X'], s0['X']) or not np.array_equal(got['y'], s0['y']):
                raise Violation('data-changed', f'{h}: step {i}')
            rec.log(got['resid'].tobytes())
            if ref['split_trees'].any():
                rec.seen(h, ref['split_trees'].tobytes())
        state = new
    for h, l in bad.items():
        rec.count('isolated_roundoff_differences', len(l) == 1)
        if len(l) >= 2 and len(l) > 0.1 * sc['T']:
            raise Violation('order-changes-step', f'datapoints in order "{h}", n={c["n"]}: {len(l)} of {sc["T"]} steps differ: {l[:3]}')


def run_fit(sc, rec):
    import numpy as np
    import pandas as pd
    from .. import sut
    c, kw = sc['problem'], dict(sc['kw'])
    g = np.random.Generator(np.random.PCG64(sc['seed']))
    X, y = history.gbart_data(c)
    if not sc['ties']:
        X = X + g.normal(size=X.shape).astype(np.float32)
    p, n = X.shape
    # small dyadic values, exact in every type used
    X = (np.round(X / max(1e-6, np.abs(X).max(initial=0)) * 60)).astype(np.float32)
    y = (np.round(y / max(1e-6, np.abs(y).max(initial=0)) * 100)).astype(np.float32)
    if n >= 500:
        # extremes and clusters anywhere
        y[g.integers(n)], y[-1 - g.integers(n // 10)] = 230, -190
        X[:, -1 - g.integers(n // 10)] = 90
        y[n // 2:] += 40
    if n > 1 and np.ptp(y) == 0:
        y[0] += 1
    xt = X[:, g.integers(0, n, 7)] if n else X[:, :0]
    given = dict(lamda=dict(lamda=np.float32(5.0)), sigest=dict(sigest=np.float32(2.0))).get(sc['given'], {})
    init = dict(resid_batch_size=c['rbs'], count_batch_size=c['cbs'])
    if c['minpts'] is not None and c['minpts'] < 5:
        init['min_points_per_leaf'] = c['minpts']

    def fit(X, y, xt, key):
        m = sut.fit(X, y, x_test=xt, seed=key, printevery=10 ** 6, initkw=init, **kw, **given)
        tr, st = sut.find_trace(m), sut.find_state(m)
        out = {a: None if getattr(m, a) is None else np.array(getattr(m, a)) for a in ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_test', 'yhat_train_mean', 'yhat_test_mean')}
        out.update({k: np.array(tr[k]) for k in ('leaf_trees', 'var_trees', 'split_trees', 'sigma2', 'grow_acc_count', 'prune_acc_count', 'grow_prop_count', 'prune_prop_count')})
        out.update({f'state {k}': np.array(st[k]) for k in ('X', 'y', 'max_split', 'resid', 'leaf_indices')})
        rec.step(kw['nskip'] + kw['ndpost'] * kw['keepevery'])
        return out

    key = sut.make_key(sc['entropy'], rec)
    base = fit(X, y, xt, key)
    bases = {0: base}

    def present(how):
        """(x_train, y_train, x_test)"""
        if how == 'numpy':
            return sut.jnp.asarray(X), sut.jnp.asarray(y), sut.jnp.asarray(xt)
        if how == 'fortran':
            return np.asfortranarray(X), y, np.asfortranarray(xt)
        if how == 'strided':
            big = np.full((2 * p, 3 * n + 1), np.nan, np.float32)
            big[::2, 1::3] = X
            yy = np.full(2 * n, np.nan, np.float32)
            yy[::2] = y
            return big[::2, 1::3], yy[::2], xt
        if how == 'reversed':
            return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1], np.ascontiguousarray(y[::-1])[::-1], xt
        if how == 'readonly':
            a, b = X.copy(), y.copy()
            a.flags.writeable = b.flags.writeable = False
            return a, b, xt
        if how == 'float64':
            return X.astype(np.float64), y.astype(np.float64), xt.astype(np.float64)
        if how in ('frame', 'frame_index', 'frame_named', 'frame_labels'):
            kw = dict(columns=[f'x{j}' for j in range(p)])
            ka, kb = {}, {}
            if how == 'frame_index' and n:
                ka, kb = dict(index=g.permutation(n) * 3), dict(index=g.permutation(n) - 4)
            if how == 'frame_labels' and n:
                # the same labels in different order, or repeated
                lab = g.permutation(n) if g.random() < 0.7 else g.integers(0, 2, n)
                ka, kb = dict(index=lab), dict(index=g.permutation(lab) if g.random() < 0.8 else lab[::-1])
            if how == 'frame_named':
                kw = dict(columns=[f'{v}' for v in g.permutation(p)])
            return pd.DataFrame(X.T, **kw, **ka), pd.Series(y, name='response', **kb), pd.DataFrame(xt.T, **kw)
        if how == 'frame_polars':
            import polars as pl
            kw = dict(schema=[f'x{j}' for j in range(p)])
            return pl.DataFrame(X.T.copy(), **kw), pl.Series('response', y), pl.DataFrame(xt.T.copy(), **kw)
        if how == 'series':
            return X, pd.Series(y, index=g.permutation(n)), xt
        if how == 'int_y':
            return X, y.astype(np.int32), xt
        if how in ('small_y', 'small_x'):
            # the values are small integers, which most of these types can represent
            dt = np.dtype((np.int8, np.int8, np.int16, np.float16, sut.jax.dtypes.bfloat16)[g.integers(5)])
            if any(not np.array_equal(v.astype(dt).astype(np.float32), v) for v in (X, y)):
                dt = np.dtype(np.int16)
            rec.count(f'presentation:{dt.name}')
            return (X, y.astype(dt), xt) if how == 'small_y' else (X.astype(dt), y, xt.astype(dt))
        # increasing functions of each predictor
        Z, zt = np.empty((p, n), np.float64), np.empty(xt.shape, np.float64)
        for j in range(p):
            u, inv = np.unique(X[j], return_inverse=True)
            if how == 'rank':
                new = np.cumsum(g.choice([0.25, 1, 3, 50], u.size)) - 60
            elif how == 'rank_cube':
                new = u.astype(np.float64) ** 3 + 7
            elif how == 'rank_int8':
                new = u
            else:
                new = np.cumsum(g.choice([1, 2, 1000], u.size)) - 500
            Z[j] = new[inv]
            zt[j] = new[np.searchsorted(u, xt[j])]
        dt = dict(rank=np.float32, rank_cube=np.float32, rank_int=np.int32, rank_int8=np.int8)[how]
        return Z.astype(dt), y, zt.astype(dt)

    for how in sc['how']:
        if how.startswith('rank') and not (kw['usequants'] and (sc['given'] or n <= p)):
            continue
        rec.count(f'presentation:{how}')
        o = np.arange(n) if how in EXACT else order(how, g, X, y, np)
        data = present(how) if how in EXACT else (X[:, o], y[o], xt)
        got = fit(*data, key)
        same = all(v is None and got[k] is None or v is not None and got[k] is not None and v.shape == got[k].shape and np.array_equal(v, got[k]) for k, v in base.items())
        errs = []
        if how in EXACT and same:
            rec.count('identical')
        else:
            # roundoff may depend on order, type and layout
            errs = differences(base, got, o, np)
            if errs and base['sigest'] is not None and not sc['given'] and float(base['sigest']) < 1e-3 * np.abs(y).max():
                rec.count('sigest is roundoff')
                continue
            if errs:
                votes = [errs]
                for j in (1, 2, 3, 4):
                    kj = sut.make_key(dict(sc['entropy'], seed=(sc['entropy']['seed'] + j) % 2 ** 31))
                    if j not in bases:
                        bases[j] = fit(X, y, xt, kj)
                    votes.append(differences(bases[j], fit(*data, kj), o, np))
                rec.count('reseeded')
                if sum(map(bool, votes)) < 4:
                    errs = []
        if errs:
            raise Violation('presentation', f'{how}, n={n} p={p} {kw} given={sc["given"]}: {errs[:4]}')
        if base['split_trees'].any():
            rec.seen(how, base['split_trees'].tobytes())
        rec.log(got['leaf_trees'].tobytes())


def differences(base, got, o, np):
    errs = []
    back = np.argsort(o)
    big = np.abs(base['yhat_train']).max(initial=0) + abs(float(base['offset'])) + float(base['scale'])
    for k, v in base.items():
        w = got[k]
        if (v is None) != (w is None):
            errs.append(f'{k} is {w}')
            continue
        if v is None:
            continue
        if w.shape != v.shape:
            errs.append(f'{k} has shape {w.shape} instead of {v.shape}')
            continue
        if k in ('yhat_train', 'yhat_train_mean', 'state X', 'state y', 'state resid', 'state leaf_indices'):
            w = w[..., back]
        if v.dtype.kind in 'ui':
            if not np.array_equal(v, w):
                errs.append(f'{k}: {int((v != w).sum())} of {v.size} values differ')
        else:
            v, w = v.astype(float), w.astype(float)
            tol = 3e-3 * (big if k.startswith('yhat') or k == 'offset' else np.abs(v).max(initial=0) + 1e-3 if 'sigma' not in k and k != 'lamda' else 0)
            bad = ~(np.abs(v - w) <= tol + 3e-3 * np.abs(v))
            if np.any(bad):
                errs.append(f'{k}: {int(bad.sum())} of {v.size} values differ, e.g. {w[bad].ravel()[:2]} instead of {v[bad].ravel()[:2]}')
    return errs
