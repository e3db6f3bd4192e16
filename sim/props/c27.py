"""C27 the joint law of parameters and data is preserved by any schedule of updates."""

from .. import config
from ..core import Violation, Skip

RUNS = dict(quick=48, thorough=700)
RULE = ('thousands of chains start from parameters and data drawn exactly from the joint model and go through the same random schedule of updates '
        '(steps, tree updates, noise updates, whole runs, new data given the parameters, permutations of trees, returns to checkpoints); then bounded functions '
        'of parameters and data must have the same expected value as at the start. distinct_nontrivial counts distinct final forests with at least one decision node')
ASSUMPTIONS = ['each comparison at 1e-10 significance (empirical Bernstein bound, valid for any bounded function)']


def generate(r, tier, i):
    if i % 6 == 5:
        # whole fits without data
        sc = dict(kind='fit', ntree=r.choice([1, 100, 300, 800, 1000]), maxdepth=r.choice([1, 2, 3, 3, 4]), base=r.choice([0.95, 0.5, 0.99, 0.8]), power=r.choice([2, 1, 0.5, 3, 0]),
                    sigdf=r.choice([1, 3, 8]), sigquant=r.choice([0.5, 0.9]), lamda=r.choice([None, 0.3, 20.0]), offset=r.choice([None, 0.0, -7.5]), minpts=r.choice([None, None, None, 0, 'default']),
                    n=r.choice([0, 0, 0, 1]), p=r.choice([1, 3]), numcut=r.choice([100, 255, 256, 1000]), usequants=False, ndpost=r.choice([60, 150]), nskip=r.choice([0, 3]), keepevery=r.choice([1, 2]),
                    entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))
        if i % 12 == 11:
            # many draws of the noise variance
            sc.update(ntree=1, ndpost=r.choice([6000, 10000]), maxdepth=min(3, sc['maxdepth']), n=0, sigdf=r.choice([1, 2, 3, 3, 5, 8]), minpts=None)
        return sc
    d = r.choice([1, 2, 3, 3, 4, 4, 5])
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 2, 5, 8, 12, 20, 30]), p=r.choice([1, 2, 3, 4]), d=d,
                           ntree=r.choice([1, 1, 2, 3, 5]), cuts=r.choice(['few', 'few', 'mid', 'u8max', 'mixed', 'zeros']), save_ratios=r.random() < 0.2)
    if r.random() < 0.6:
        c['minpts'] = None
    elif c['minpts'] is not None:
        c['minpts'] = min(c['minpts'], max(1, c['n'] // 4))
    c['pnt'] = [round(min(x, 0.9), 4) for x in c['pnt']]
    c['alpha'] = r.choice([0.5, 1.5, 3.0, 10.0])
    c['beta'] = c['alpha'] * r.choice([0.05, 0.3, 1.0, 3.0])
    c['yscale'] = 1.0
    c['small_float'] = 'float32'
    events = []
    for _ in range(r.randint(4, 9)):
        events.append(config.pick(r, (5, ['step', r.choice([1, 2, 5, 10])]), (2, ['trees', r.choice([1, 3])]), (1, ['sigma', 1]),
                                  (4, ['data']), (1, ['permute']), (0.5, ['save']), (1, ['restore', round(r.random(), 2)]), (0.4, ['loop', r.choice([0, 2]), r.choice([1, 3]), r.choice([1, 2])])))
    events.append(['step', r.choice([1, 3, 10])])
    return dict(problem=c, lanes=8000 if tier == 'quick' else 40000, events=events,
                entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)), seed=r.randrange(2 ** 31))


def shrink(sc):
    if 'events' not in sc:
        for k, v in dict(ntree=100, maxdepth=2, base=0.95, power=2, sigdf=3, sigquant=0.9, lamda=None, offset=None, n=0, p=1, numcut=100, nskip=0, keepevery=1).items():
            if sc[k] != v:
                yield dict(sc, **{k: v})
        return
    ev = sc['events']
    for k in range(len(ev)):
        if len(ev) > 1:
            yield dict(sc, events=ev[:k] + ev[k + 1:])
    for k, e in enumerate(ev):
        if e[0] in ('step', 'trees') and e[1] > 1:
            yield dict(sc, events=ev[:k] + [[e[0], 1]] + ev[k + 1:])
    for c in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=c)


def prior_trees(g, N, H, pnt, ms, X, minp):
    """exact draws of tree structures: splits by depth, uniform among the rules
    left, conditional on being valid"""
    import numpy as np
    from .. import model
    p = len(ms)
    got, tried = [], 0
    have = 0
    while have < N:
        B = min(100000, max(2000, N))
        tried += B
        var, spl = np.zeros((B, H), np.int64), np.zeros((B, H), np.int64)
        ok = np.ones(B, bool)
        exists = np.zeros((B, 2 * H), bool)
        exists[:, 1] = True
        for k in range(1, H):
            dec = exists[:, k] & (g.random(B) < pnt[model.depth_of(k)])
            rows = np.flatnonzero(dec)
            if not rows.size:
                continue
            l = np.ones((rows.size, p), np.int64)
            r = np.repeat(ms[None] + 1, rows.size, 0)
            j, a = k, np.arange(rows.size)
            while j > 1:
                side, j = j & 1, j >> 1
                v, s = var[rows, j], spl[rows, j]
                if side:
                    l[a, v] = np.maximum(l[a, v], s + 1)
                else:
                    r[a, v] = np.minimum(r[a, v], s)
            avail = r > l
            some = avail.any(axis=1)
            ok[rows[~some]] = False
            u = np.where(avail, g.random(avail.shape), -1).argmax(axis=1)
            lo, hi = l[a, u], np.maximum(r[a, u], l[a, u] + 1)
            var[rows, k] = u
            spl[rows, k] = lo + np.floor(g.random(rows.size) * (hi - lo)).astype(np.int64)
            exists[rows, 2 * k] = exists[rows, 2 * k + 1] = True
        var, spl = var[ok], spl[ok]
        if minp and H > 1 and len(var):
            idx = model.route(X, var, spl)
            leaf = model.leaf_mask(spl.copy())
            cnt = np.zeros(leaf.shape, np.int64)
            for i in range(X.shape[1]):
                cnt[np.arange(len(idx)), idx[:, i]] += 1
            good = ~np.any(leaf & (cnt < minp), axis=1) | (spl[:, 1] == 0)
            var, spl = var[good], spl[good]
        got.append((var, spl))
        have += len(var)
        if tried >= 40 * N + 10 ** 6 and have < N / 50:
            raise Skip('prior hardly allows valid trees')
        if tried > 10 ** 7:
            raise Skip('prior hardly allows valid trees')
    var, spl = (np.concatenate([x[k] for x in got])[:N] for k in (0, 1))
    return var, spl


def functions(s, X, c, np):
    """{name: (L,) array within [0, 1]}"""
    from scipy import special
    from .. import model
    f8 = np.float64
    sp, var = s['split_trees'], s['var_trees']
    L, T, H = sp.shape
    n = X.shape[1]
    dec = model.decision_mask(sp.copy())
    size = dec.sum(axis=2)  # L, T
    depth = np.array([0] + [int(k).bit_length() for k in range(1, H)])
    dmax = (dec * depth).max(axis=2)
    out = {}
    ps = special.gammaincc(c['alpha'], c['beta'] / s['sigma2'].astype(f8))
    out['noise'], out['noise^2'], out['noise low'], out['noise high'] = ps, ps * ps, ps < 0.05, ps > 0.95
    for t, ts in {'first tree': slice(0, 1), 'last tree': slice(T - 1, T), 'trees': slice(0, T)}.items():
        for k in range(4):
            out[f'{t}: {k} decision nodes'] = (size[:, ts] == k).mean(axis=1)
        for k in range(1, int(np.log2(H)) + 1):
            out[f'{t}: deeper than {k - 1}'] = (dmax[:, ts] >= k).mean(axis=1)
            out[f'{t}: nodes on level {k - 1}'] = dec[:, ts, 2 ** (k - 1):2 ** k].mean(axis=(1, 2))
        if H > 1:
            for j in range(X.shape[0]):
                out[f'{t}: root on predictor {j}'] = (dec[:, ts, 1] & (var[:, ts, 1] == j)).mean(axis=1)
            rel = sp[:, ts, 1] / (1 + np.maximum(1, s['max_split'].astype(f8))[np.minimum(var[:, ts, 1], X.shape[0] - 1)])
            out[f'{t}: root cutpoint'] = (dec[:, ts, 1] * rel).mean(axis=1)
    lt = s['leaf_trees'].astype(f8)
    lm = model.leaf_mask(sp.copy())
    # one leaf per tree, first and last in the array
    for name, m in (('first leaf', lm.argmax(axis=2)), ('last leaf', 2 * H - 1 - lm[:, :, ::-1].argmax(axis=2))):
        v = special.ndtr(np.sqrt(T) * np.take_along_axis(lt, m[..., None], 2)[..., 0])
        out[name], out[f'{name} extreme'] = v.mean(axis=1), (np.abs(v - 0.5) > 0.45).mean(axis=1)
    mean_size = size.mean(axis=1) / max(1, H - 1)
    out['noise * size'] = ps * mean_size
    if n:
        idx = model.route(X, var, sp)
        vals = np.take_along_axis(lt, idx, 2)
        f = vals.sum(axis=1)
        res = s['y'].astype(f8) - f
        sg = np.sqrt(s['sigma2'].astype(f8))[:, None]
        z = res / sg
        pr = special.gammainc(n / 2, (z * z).sum(axis=1) / 2)
        out['residuals'], out['residuals^2'], out['residuals low'], out['residuals high'] = pr, pr * pr, pr < 0.05, pr > 0.95
        pm = special.ndtr(z.mean(axis=1) * np.sqrt(n))
        out['mean residual'], out['mean residual^2'] = pm, pm * pm
        out['noise * residuals'], out['noise * mean residual'], out['residuals * size'] = ps * pr, ps * pm, pr * mean_size
        for i in sorted({0, n // 2, n - 1}):
            u, v = special.ndtr(f[:, i]), special.ndtr(s['y'][:, i].astype(f8) / 2)
            zi = special.ndtr(z[:, i])
            out.update({f'value {i}': u, f'value {i}^2': u * u, f'data {i}': v, f'value * data {i}': u * v, f'residual {i}': zi, f'residual {i}^2': zi * zi,
                        f'residual * value {i}': zi * u, f'noise * value^2 {i}': ps * (u - 0.5) ** 2, f'noise * residual {i}': ps * zi, f'size * value^2 {i}': mean_size * (u - 0.5) ** 2})
            if i:
                out[f'values 0 {i}'] = special.ndtr(f[:, 0]) * u
                out[f'residuals 0 {i}'] = special.ndtr(z[:, 0]) * zi
            if T > 1:
                a, b = special.ndtr(np.sqrt(T) * vals[:, 0, i]), special.ndtr(np.sqrt(T) * vals[:, -1, i])
                out[f'first * last tree {i}'] = a * b
    if T > 1:
        out['first * last size'] = size[:, 0] * size[:, -1] / max(1, H - 1) ** 2
    return {k: np.asarray(v, f8) for k, v in out.items()}


def structures(H, pn):
    """all the tree shapes and the exact law of one update without data, from
    the definition: {decision nodes: row}, matrix"""
    import numpy as np
    from .. import model
    shapes, todo = [frozenset()], [frozenset()]
    while todo:
        a = todo.pop()
        for k in range(1, H):
            if k not in a and (k == 1 or k >> 1 in a):
                b = a | {k}
                if b not in shapes:
                    shapes.append(b)
                    todo.append(b)
    at = {a: i for i, a in enumerate(shapes)}
    P = np.zeros((len(shapes),) * 2)

    def moves(a):
        grow = [k for k in range(1, H) if k not in a and (k == 1 or k >> 1 in a)]
        prune = [k for k in a if 2 * k not in a and 2 * k + 1 not in a]
        pg = (0.5 if prune else 1.0) if grow else 0.0
        w = np.array([pn[model.depth_of(k)] for k in grow])
        q = {k: pg * x / w.sum() for k, x in zip(grow, w)} if w.sum() else {}
        return q, {k: (1 - pg) / len(prune) for k in prune}

    for a in shapes:
        gq, _ = moves(a)
        for k, q in gq.items():
            if q == 0:
                continue
            b = a | {k}
            d = model.depth_of(k)
            prior = pn[d] * (1 - pn[d + 1]) ** 2 / (1 - pn[d])
            back = moves(b)[1][k]
            ratio = prior * back / q
            P[at[a], at[b]] = q * min(1, ratio)
            P[at[b], at[a]] = back * min(1, 1 / ratio) if ratio else back
    P[np.arange(len(P)), np.arange(len(P))] += 1 - P.sum(axis=1)
    return at, P


def run_fit(sc, rec):
    """a fit without data samples from the documented prior"""
    import numpy as np
    from scipy import special, stats as sps
    from .. import model, stats, sut
    jnp = sut.jnp
    p, n = sc['p'], sc['n']
    X, y = np.arange(p * n, dtype=np.float32).reshape(p, n), np.full(n, 2.5, np.float32)
    kw = {k: sc[k] for k in ('ntree', 'maxdepth', 'base', 'power', 'sigdf', 'sigquant', 'lamda', 'offset', 'numcut', 'usequants', 'ndpost', 'nskip', 'keepevery')}
    init = {} if sc['minpts'] == 'default' else dict(min_points_per_leaf=sc['minpts'])
    m = sut.fit(X, y, x_test=np.zeros((p, 2), np.float32), seed=sut.make_key(sc['entropy'], rec), printevery=10 ** 6, initkw=init, **kw)
    tr, st = sut.find_trace(m), sut.to_np(sut.find_state(m))
    rec.step(sc['nskip'] + sc['ndpost'] * sc['keepevery'])
    T, H = sc['ntree'], 2 ** (sc['maxdepth'] - 1)
    leaf, spl = np.array(tr['leaf_trees']), np.array(tr['split_trees'])
    if spl.shape != (sc['ndpost'], T, H):
        raise Violation('forest-shape', f'{spl.shape}, ntree={T}, maxdepth={sc["maxdepth"]}')
    offset = sc['offset'] if sc['offset'] is not None else 2.5 if n else 0.0
    lam = sc['lamda']
    if lam is None:
        # unit noise estimate
        lam = 1 / (0.5 / special.gammainccinv(sc['sigdf'] / 2, sc['sigquant']) * sc['sigdf'])
    if not np.isclose(float(m.offset), offset, rtol=1e-6) or not np.isclose(float(m.scale), 1) or not np.isclose(float(m.lamda), lam, rtol=1e-4):
        raise Violation('fit-prior', f'n={n}: offset {float(m.offset)} (expected {offset}), scale {float(m.scale)} (expected 1), lamda {float(m.lamda)} (expected {lam})')
    pn = [sc['base'] / (1 + k) ** sc['power'] for k in range(sc['maxdepth'] - 1)] + [0.0]
    never = sc['minpts'] == 'default'
    # noise variance
    if n == 0:
        s2 = np.concatenate([np.array(m.first_sigma), np.array(m.sigma)]).astype(np.float64) ** 2
        u, v = sps.chi2.cdf(sc['sigdf'] * lam / s2, sc['sigdf']), sps.chi2.sf(sc['sigdf'] * lam / s2, sc['sigdf'])
        stats.normal_suite(np.where(u < 0.5, special.ndtri(u), -special.ndtri(v)), 'fit-noise', f'{kw}')
        # leaves
        lm = model.leaf_mask(spl.copy())
        stats.normal_suite(leaf[lm].astype(np.float64) * np.sqrt(T), 'fit-leaves', f'{kw}')
        f = (np.array(m.yhat_test, np.float64)[:, 0] - offset)
        stats.normal_suite(f, 'fit-values', f'{kw}')
    # structures, exact law after each number of iterations
    dec = model.decision_mask(spl.copy())
    code = (dec * (1 << np.arange(H))).sum(axis=2)
    if never:
        if code.any():
            raise Violation('fit-structure', f'trees grow without datapoints, default minimum: {kw}')
        return
    at, P = structures(H, pn)
    law = np.zeros(len(P))
    law[at[frozenset()]] = 1
    it = 0
    for k in range(sc['ndpost']):
        target = sc['nskip'] + (k + 1) * sc['keepevery']
        while it < target:
            law = law @ P
            it += 1
        for a, i in at.items():
            c = sum(1 << q for q in a)
            N = int((code[k] == c).sum())
            stats.reject(stats.bernstein(N, T * law[i], T * law[i] * (1 - law[i])), 'fit-structure',
                         f'iteration {it}: {N} of {T} trees have decision nodes {sorted(a)}, expected {T * law[i]:.2f} (base={sc["base"]} power={sc["power"]} maxdepth={sc["maxdepth"]})')
    rec.count('fits')
    for c in np.unique(code):
        rec.seen('fit', H, int(c), sc['base'], sc['power'])
    rec.log(leaf.tobytes())


def run(sc, rec):
    rec.count(f'kind:{sc.get("kind", "joint")}')
    if sc.get('kind') == 'fit':
        run_fit(sc, rec)
    else:
        run_joint(sc, rec)


def run_joint(sc, rec):
    import math
    import numpy as np
    from scipy import special
    from .. import model, sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    c, L = sc['problem'], sc['lanes']
    while L > 4000 and L * c['ntree'] * (c['n'] + 2 ** c['d']) > 6 * 10 ** 6:
        L //= 2
    g = np.random.Generator(np.random.PCG64(sc['seed']))
    base = sut.make_state(dict(c, plant=None))
    s0 = sut.to_np(base)
    X, ms = s0['X'].astype(np.int64), s0['max_split'].astype(np.int64)
    T, H = s0['split_trees'].shape
    n = X.shape[1]
    minp = 0 if c['minpts'] is None else c['minpts']
    var, spl = prior_trees(g, L * T, H, c['pnt'], ms, X, minp)
    g.shuffle(order := np.arange(L * T))
    var, spl = var[order].reshape(L, T, H), spl[order].reshape(L, T, H)
    leaf = (g.normal(size=(L, T, 2 * H)) / np.sqrt(T)).astype(s0['leaf_trees'].dtype)
    leaf = np.where(model.leaf_mask(spl.copy()), leaf, 0).astype(leaf.dtype)
    sigma2 = (c['beta'] / np.maximum(g.gamma(c['alpha'], size=L), 1e-30)).astype(s0['sigma2'].dtype)

    def values(leaf, var, spl):
        idx = model.route(X, var, spl)
        return idx, np.take_along_axis(leaf.astype(np.float64), idx, 2).sum(axis=1)

    def new_data(st):
        idx, f = values(st['leaf_trees'], st['var_trees'], st['split_trees'])
        eps = np.sqrt(st['sigma2'].astype(np.float64))[:, None] * g.normal(size=(L, n))
        y = (f + eps).astype(s0['y'].dtype)
        return idx, y, (y.astype(np.float64) - f).astype(s0['resid'].dtype)

    st = dict(leaf_trees=leaf, var_trees=var.astype(s0['var_trees'].dtype), split_trees=spl.astype(s0['split_trees'].dtype), sigma2=sigma2)
    idx, y, resid = new_data(st)
    st.update(y=y, resid=resid, leaf_indices=idx.astype(s0['leaf_indices'].dtype))
    if s0['affluence_trees'] is not None:
        cnt = np.zeros((L * T, 2 * H), np.int64)
        flat = idx.reshape(L * T, n)
        for i in range(n):
            cnt[np.arange(L * T), flat[:, i]] += 1
        aff = cnt[:, :H] >= 2 * minp
        aff[:, 0] = False
        st['affluence_trees'] = aff.reshape(L, T, H)
    fields = list(st)
    axes = {k: jax.tree_util.tree_map(lambda _: None, base[k]) for k in base}
    lanes = dict(base)
    changing = [k for k in sut.DYNAMIC if base[k] is not None] + ['y'] + (['ratios'] if 'ratios' in base else [])
    for k in changing:
        v = st.get(k)
        lanes[k] = jax.tree_util.tree_map(lambda x: jnp.stack([x] * L), base[k]) if v is None else jnp.asarray(v)
        axes[k] = jax.tree_util.tree_map(lambda _: 0, base[k])
    extra = {k: v for k, v in lanes.items() if k not in changing}

    def over_lanes(fun):
        def one(dyn, key):
            out = fun({**extra, **dyn}, key)
            return {k: out[k] for k in changing}
        return jax.jit(jax.vmap(one))

    funs = {}
    dyn = {k: lanes[k] for k in changing}

    def current():
        out = {k: np.array(dyn[k]) for k in ('leaf_trees', 'var_trees', 'split_trees', 'sigma2', 'y', 'resid')}
        out['max_split'] = ms
        return out

    first = functions(current(), X, c, np)
    key = sut.make_key(sc['entropy'], rec)
    saved = dict(dyn)
    count = 0

    def check(done):
        now = functions(current(), X, c, np)
        ln = math.log(3 / 1e-10)
        worst = 0
        for k, a in first.items():
            dif = now[k] - a
            if not np.all(np.isfinite(dif)):
                raise Violation('not-finite', f'{k} after {done}: {int((~np.isfinite(dif)).sum())} of {L} chains')
            m, v = dif.mean(), dif.var()
            lim = math.sqrt(2 * v * ln / L) + 6 * ln / L
            worst = max(worst, abs(m) / lim)
            if abs(m) > lim:
                raise Violation('not-stationary', f'after {done}: expected value of "{k}" goes from {a.mean():.4f} to {now[k].mean():.4f} '
                                f'({abs(m) / math.sqrt(max(v, 1e-30) / L):.1f} standard errors, {L} chains, n={n} trees={T} depth={c["d"]} minimum={c["minpts"]})')
        rec.count('comparisons', len(first))
        rec.sample = dict(worst=worst, chains=L)

    done = []
    for ne, e in enumerate(sc['events']):
        what = e[0]
        rec.count(f'event:{what}')
        if what in ('step', 'trees', 'sigma', 'loop'):
            name = str(e[:1] if what != 'loop' else e)
            if name not in funs:
                funs[name] = over_lanes(dict(step=lambda s, k: sut.mcmcstep.step(s, k), trees=lambda s, k: sut.mcmcstep.sample_trees(s, k), sigma=lambda s, k: sut.mcmcstep.sample_sigma(s, k),
                                             loop=lambda s, k, e=e: sut.mcmcloop.run_mcmc(s, *e[1:], sut.no_callback, k)[0])[what])
            for _ in range(e[1] if what != 'loop' else 1):
                dyn = funs[name](dyn, random.split(random.fold_in(key, count), L))
                count += 1
                rec.step(L)
        elif what == 'data':
            a = current()
            _, y, resid = new_data(a)
            dyn = dict(dyn, y=jnp.asarray(y), resid=jnp.asarray(resid))
        elif what == 'permute':
            perm = g.permuted(np.repeat(np.arange(T)[None], L, 0), axis=1)
            for k in ('leaf_trees', 'var_trees', 'split_trees', 'leaf_indices', 'affluence_trees'):
                if k in dyn:
                    v = np.array(dyn[k])
                    dyn = dict(dyn, **{k: jnp.asarray(np.take_along_axis(v, perm[..., None], 1))})
        elif what == 'save':
            saved = dict(dyn)
        elif what == 'restore':
            rec.fault('crash: return to a checkpoint', int(e[1] * L))
            m = jnp.asarray(g.random(L) < e[1])
            dyn = jax.tree_util.tree_map(lambda a, b: jnp.where(m.reshape((L,) + (1,) * (a.ndim - 1)), b, a), dyn, saved)
        done.append(e)
        if ne == len(sc['events']) - 1 or what in ('step', 'trees', 'loop') and ne % 3 == 2:
            check(done)
    a = current()
    for t in np.unique(a['split_trees'].reshape(L, -1), axis=0)[:300]:
        if t.any():
            rec.seen(t.tobytes(), n)
    rec.log(a['leaf_trees'].tobytes(), a['sigma2'].tobytes())
