"""C06 Metropolis-Hastings kernel."""

from .. import config, history
from ..core import Violation, Skip

RUNS = dict(quick=70, thorough=1200)
RULE = ('ratios: a history with saved ratios, each tree of each step compared with the possible moves; fan/prior: many '
        'independent entropy streams from the same reached state, frequencies of each move compared with the exact kernel. '
        'distinct_nontrivial counts distinct (forest, tree) from which at least two different moves were possible')
ASSUMPTIONS = ['frequency tests at 1e-10 significance (Bernstein bound)', 'float32 roundoff of the recorded log ratios bounded by 2e-6 of the summed magnitudes']


def generate(r, tier, i):
    kind = config.pick(r, (4, 'fan'), (2, 'prior'), (3, 'ratios'))
    if kind == 'ratios':
        c = config.gen_problem(r, small=True, p=r.randint(1, 5), d=r.choice([1, 2, 3, 3, 4, 5, 6]), ntree=r.choice([1, 2, 3, 6, 10]),
                               cuts=config.pick(r, (3, 'few'), (2, 'mid'), (1, 'mixed'), (1, 'zeros')), save_ratios=True, tame=True)
        if r.random() < 0.4:
            c['plant'] = config.gen_plant(r)
        return dict(kind=kind, problem=c, steps=r.randint(30, 60), mode='jit', events=[[r.randrange(30), 'sigma', r.choice([0.1, 1.0, 10.0])] for _ in range(r.choice([0, 2, 4]))],
                    entropy=config.gen_entropy(r, 0.3))
    d = r.choice([2, 3, 3, 4, 4, 5])
    if kind == 'fan':
        tight = r.random() < 0.4
        if tight:
            # few predictors and cutpoints, used up along the branches
            d = r.choice([3, 4, 4, 5, 5])
        c = config.gen_problem(r, small=True, n=r.choice([1, 2, 6, 12, 25, 40]), p=r.choice([1, 2, 3, 3]) if tight else max(d - 1, r.choice([1, 2, 3])), d=d,
                               ntree=r.choice([1, 1, 2, 3, 4]), cuts='few', tame=True,
                               minpts=r.choice(['none', 'none', 'set'] if tight else ['none', 'set']))
        c['cuts'] = r.choice(['few', 'few', 'zeros'])
        if tight or r.random() < 0.4:
            c['plant'] = config.gen_plant(r, deep=tight and r.random() < 0.5)
        keys = 6000
    else:
        c = config.gen_problem(r, small=True, n=0, d=r.choice([2, 3, 4, 5, 7, 9]), p=r.choice([8, 9, 20, 255, 256, 257, 300]),
                               ntree=r.choice([1, 2, 5]), cuts=r.choice(['mid', 'u8max', 'u16', 'many', 'mixed']), tame=True, minpts='none')
        c['minpts'] = r.choice([None, None, 0])
        if r.random() < 0.5:
            c['plant'] = config.gen_plant(r, deep=r.random() < 0.3)
            if r.random() < 0.5:
                c.update(p=r.choice([1, 2, 3, 5, 8]), cuts=r.choice(['few', 'zeros', 'mid']))
        keys = 6000
    c['ratios'] = False
    c['yscale'] = 1.0
    return dict(kind=kind, problem=c, entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)),
                warm=[r.choice([0, 2, 5]), r.choice([5, 20, 40]), r.choice([10, 30, 80])],
                sigma=[r.choice([0.2, 1.0, 5.0, 50.0]) for _ in range(3)], keys=keys * (1 if tier == 'quick' else 4))


def shrink(sc):
    if sc['kind'] == 'ratios':
        for q in history.shrink(sc):
            q['problem']['ratios'] = True
            yield q
        return
    for c in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=c)
    if len(sc['warm']) > 1:
        for i in range(len(sc['warm'])):
            yield dict(sc, warm=[sc['warm'][i]], sigma=[sc['sigma'][i]])
    w = sc['warm'][0]
    for k in (0, 1, w // 2):
        if len(sc['warm']) == 1 and k < w:
            yield dict(sc, warm=[k])


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    if sc['kind'] == 'ratios':
        run_ratios(sc, rec)
    else:
        run_fan(sc, rec)


def run_ratios(sc, rec):
    import numpy as np
    from .. import kernel, model

    def on_step(prev, new, where):
        a, b = model.View(prev), model.View(new)
        moves = model.moves_between(a, b)
        R = kernel.partial_residuals(a.values, b.values, prev['y'])
        for t in range(a.ntree):
            tk = kernel.TreeKernel(a, t)
            if not tk.moves:
                continue
            kind, node = moves[t]
            if kind == 'same' and not tk.has_rules:
                continue
            tp = float(new['ratios']['log_trans_prior'][t])
            lk = float(new['ratios']['log_likelihood'][t])
            clk = tk.lk(R[t])
            err = 2e-6 * (np.abs(R[t]) + np.abs(a.values[t]) + np.abs(prev['y']))
            sl, sr = np.abs(tk.L @ R[t]) + tk.L @ err, np.abs(tk.R @ R[t]) + tk.R @ err
            el, er = tk.L @ err, tk.R @ err
            sm, s2 = 1 / tk.ntree, tk.sigma2
            vl, vr = s2 + tk.L.sum(1) * sm, s2 + tk.R.sum(1) * sm
            vt = vl + vr - s2
            tol = 2e-4 + sm / s2 * (sl * el / vl + sr * er / vr + (sl + sr) * (el + er) / vt) + 3e-6 * sm / s2 * (sl ** 2 / vl + sr ** 2 / vr + (sl + sr) ** 2 / vt)
            close_tp = np.isclose(tk.tp, tp, atol=2e-4, rtol=2e-4) | (tk.tp == tp)
            close = close_tp & (np.abs(clk - lk) <= tol)
            if kind == 'grow':
                sel = tk.kind & (tk.node == node) & (tk.mvar == b.var[t, node]) & (tk.mspl == b.split[t, node])
                if not sel.any():
                    raise Violation('impossible-grow', f'{where}: tree {t} node {node} var {b.var[t, node]} split {b.split[t, node]}')
            elif kind == 'prune':
                sel = ~tk.kind & (tk.node == node)
                if not sel.any():
                    raise Violation('impossible-prune', f'{where}: tree {t} node {node}')
            else:
                sel = np.ones(len(tk.moves), bool)
            if kind != 'same' and not tk.ok[sel].all():
                raise Violation('undersized-accepted', f'{where}: tree {t} node {node}')
            if not (close & sel).any():
                i = int(np.argmin(np.where(sel, np.abs(tk.tp - tp) + np.abs(clk - lk), np.inf)))
                raise Violation('ratios', f'{where}: tree {t} {kind} {node}: recorded log_trans_prior {tp} log_likelihood {lk}; '
                                f'nearest of {int(sel.sum())} possible moves {tk.moves[i][:4]}: {tk.tp[i]}, {clk[i]} (tolerance {tol[i]})')
            rec.count(f'ratios:{kind}')
            if len(tk.moves) > 1:
                rec.seen(a.split[t].tobytes(), a.var[t].tobytes(), t)
        rec.log(new['split_trees'].tobytes())

    history.drive(sc, rec, lambda s: None, on_step)


def run_fan(sc, rec):
    import numpy as np
    from .. import kernel, model, stats, sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    c = sc['problem']
    state = sut.make_state(c)
    key = sut.make_key(sc['entropy'], rec)
    K = sc['keys']
    chunk = 2000
    fields = ('leaf_trees', 'var_trees', 'split_trees', 'grow_prop_count', 'prune_prop_count')

    def one(s, k):
        s = sut.mcmcstep.step(s, k)
        return {f: s[f] for f in fields}

    step = jax.jit(sut.mcmcstep.step)
    fan = jax.jit(jax.vmap(one, in_axes=(None, 0)))
    i = 0
    for warm, sigma in zip(sc['warm'], sc['sigma']):
        for _ in range(warm):
            # keep the noise large enough for trees to move
            state = step(state, random.fold_in(key, i))
            i += 1
        s = dict(state, sigma2=jnp.asarray(sigma, state['sigma2'].dtype))
        sn = sut.to_np(s)
        a = model.View(sn)
        outs = []
        base = random.fold_in(key, 10 ** 6 + i)
        for q in range(0, K, chunk):
            o = fan(s, random.split(random.fold_in(base, q), chunk))
            outs.append({f: np.array(o[f]) for f in fields})
        o = {f: np.concatenate([x[f] for x in outs]) for f in fields}
        rec.step(len(o['leaf_trees']))
        check_fan(sc, rec, a, o, np, kernel, model, stats)


def check_fan(sc, rec, a, o, np, kernel, model, stats):
    K = o['leaf_trees'].shape[0]
    T, n, H = a.ntree, a.s['X'].shape[1], a.H
    new_dec = model.decision_mask(o['split_trees'])  # (K, T, H)
    prior = sc['kind'] == 'prior'
    if not prior:
        idx = model.route(a.s['X'], o['var_trees'], o['split_trees'])
        vals = np.take_along_axis(o['leaf_trees'].astype(np.float64), idx, axis=-1)  # (K, T, n)
        R = kernel.partial_residuals(np.broadcast_to(a.values, vals.shape), vals, a.s['y'])
    tests = 0
    gp = pp = 0.0
    gv = 0.0
    exact_counts = True
    for t in range(T):
        changed = new_dec[:, t] != a.dec[t]
        nch = changed.sum(axis=1)
        if nch.max(initial=0) > 1:
            raise Violation('many-nodes-changed', f'tree {t}')
        node = np.where(nch > 0, changed.argmax(axis=1), 0)
        rows = np.arange(K)
        grown = (nch > 0) & new_dec[rows, t, node]
        pruned = (nch > 0) & ~grown
        gvar = o['var_trees'][rows, t, node].astype(int)
        gspl = o['split_trees'][rows, t, node].astype(int)
        if prior:
            e = prior_tree(rec, a, t, K, node, grown, pruned, gvar, gspl, np, kernel, model, stats)
            gp += e[0] * K
            gv += e[0] * (1 - e[0]) * K
            tests += e[1]
            exact_counts &= e[2]
            continue
        tk = kernel.TreeKernel(a, t)
        gp += tk.p_grow * K
        gv += tk.p_grow * (1 - tk.p_grow) * K
        if not tk.has_rules:
            exact_counts = False
        M = len(tk.moves)
        if M == 0:
            if grown.any() or pruned.any():
                raise Violation('impossible-move', f'tree {t}')
            continue
        P = tk.probs(R[:, t])  # (K, M)
        code = {}
        for m in range(M):
            code[(bool(tk.kind[m]), int(tk.node[m]), int(tk.mvar[m]), int(tk.mspl[m]))] = m
        obs = np.full(K, -1)
        for k in np.flatnonzero(grown | pruned):
            c = (True, int(node[k]), int(gvar[k]), int(gspl[k])) if grown[k] else (False, int(node[k]), -1, -1)
            if c not in code:
                raise Violation('impossible-move', f'tree {t}: {c}')
            obs[k] = code[c]
        O = np.bincount(obs[obs >= 0], minlength=M)
        groups = {f'move {tk.moves[m][:4]}': np.arange(M) == m for m in range(M)}
        groups['any grow'] = tk.kind
        groups['any prune'] = ~tk.kind
        for k in np.unique(tk.node[tk.kind]):
            groups[f'grow node {k}'] = tk.kind & (tk.node == k)
        for j in np.unique(tk.mvar[tk.kind]):
            groups[f'grow var {j}'] = tk.kind & (tk.mvar == j)
        for name, g in groups.items():
            p = P[:, g].sum(axis=1)
            E, V, N = p.sum(), (p * (1 - p)).sum(), O[g].sum()
            stats.reject(stats.bernstein(N, E, V), 'kernel-frequency',
                         f'tree {t} of {T}, {name}: made {N} times out of {K}, expected {E:.1f} +- {V ** .5:.1f}')
            tests += 1
        if M > 1:
            rec.seen(a.split[t].tobytes(), a.var[t].tobytes(), t, n)
        rec.count('moves_made', (obs >= 0).sum())
    if exact_counts:
        N = int(o['grow_prop_count'].sum())
        stats.reject(stats.bernstein(N, gp, gv), 'grow-odds', f'grow proposed {N} times out of {K * T}, expected {gp:.1f} +- {gv ** .5:.1f}')
    rec.count('frequency_tests', tests)
    rec.log(o['split_trees'].tobytes())


def prior_tree(rec, a, t, K, node, grown, pruned, gvar, gspl, np, kernel, model, stats):
    """no datapoints: the kernel does not depend on residuals, closed form"""
    s = a.s
    pn = s['p_nonterminal'].astype(float)
    ms = s['max_split'].astype(int)
    H = a.H
    var, split = a.var[t], a.split[t]
    grow = np.flatnonzero(a.growable[t])
    prun = np.flatnonzero(a.prunable[t])
    G, P = len(grow), len(prun)
    pg = 0.0 if not G else (0.5 if P else 1.0)
    w = np.array([pn[model.depth_of(k)] for k in grow])
    tests = 0
    has_rules = True

    def odds(k, wsum, np_new, leaves_after):
        d = model.depth_of(k)
        prior = pn[d] * (1 - pn[d + 1]) ** 2 / (1 - pn[d])
        return prior / np_new * (0.5 if leaves_after else 1.0) / ((1.0 if k == 1 else 0.5) * pn[d] / wsum)

    for k, wk in zip(grow.tolist(), w):
        par = k >> 1
        np_new = P + 1 - (1 if par and a.prunable[t, par] else 0)
        after = G >= 2 or k < H // 2
        rules = model.available_rules(var, split, k, ms)
        if not rules:
            has_rules = False
            if (grown & (node == k)).any():
                raise Violation('impossible-move', f'tree {t} node {k}: no predictor has cutpoints available')
            continue
        prob = pg * wk / w.sum() * min(1.0, odds(k, w.sum(), np_new, after))
        sel = grown & (node == k)
        N = int(sel.sum())
        stats.reject(stats.bernstein(N, prob * K, prob * (1 - prob) * K), 'kernel-frequency',
                     f'tree {t}, grow node {k}: made {N} times out of {K}, expected {prob * K:.1f}')
        tests += 1
        if N == 0:
            continue
        nr = len(rules)
        vs, sp = gvar[sel], gspl[sel]
        bad = [j for j in np.unique(vs) if int(j) not in rules]
        if bad:
            raise Violation('impossible-move', f'tree {t} node {k}: predictor {bad[0]} has no cutpoint available')
        cnt = np.bincount(vs, minlength=len(ms))
        # ancestors and the ends of the range individually, all others in blocks
        anc = set()
        j = k >> 1
        while j:
            anc.add(int(var[j]))
            j >>= 1
        groups = [[j] for j in sorted((anc & set(rules)) | {min(rules), max(rules)})]
        rest = [j for j in rules if [j] not in groups]
        groups += [rest[i::5] for i in range(5)] + [rest[i * len(rest) // 5:(i + 1) * len(rest) // 5] for i in range(5)]
        for g in groups:
            if not g:
                continue
            q = len(g) / nr
            O = int(cnt[g].sum())
            stats.reject(stats.bernstein(O, q * N, q * (1 - q) * N), 'predictor-odds',
                         f'tree {t} node {k}: predictors {g[:5]}... chosen {O} times of {N}, expected {q * N:.1f} ({nr} available)')
            tests += 1
        l = np.array([rules[int(j)][0] for j in vs])
        r = np.array([rules[int(j)][1] for j in vs])
        if np.any((sp < l) | (sp >= r)):
            raise Violation('impossible-move', f'tree {t} node {k}: cutpoint out of range')
        width = (r - l).astype(float)
        mean, sd2 = (l + r - 1) / 2, (width ** 2 - 1) / 12
        m = width > 1
        if m.sum() > 50:
            # bounded independent terms, Hoeffding style via Bernstein on [0, 1]
            u = (sp[m] - l[m]) / (width[m] - 1)
            v = (width[m] ** 2 - 1) / 12 / (width[m] - 1) ** 2
            stats.reject(stats.bernstein(u.sum(), 0.5 * m.sum(), v.sum()), 'cutpoint-mean', f'tree {t} node {k}: mean relative cutpoint {u.mean():.3f}')
            for name, hit in (('first', sp == l), ('last', sp == r - 1)):
                q = 1 / width[m]
                stats.reject(stats.bernstein(hit[m].sum(), q.sum(), (q * (1 - q)).sum()), 'cutpoint-ends',
                             f'tree {t} node {k}: {name} available cutpoint chosen {hit[m].sum()} times, expected {q.sum():.1f}')
            for lo in (0, .25, .5, .75):
                # cells of the exact discrete uniform
                x0 = l[m] + np.ceil(lo * width[m])
                x1 = l[m] + np.ceil((lo + .25) * width[m])
                q = (x1 - x0) / width[m]
                hit = (sp[m] >= x0) & (sp[m] < x1)
                stats.reject(stats.bernstein(hit.sum(), q.sum(), (q * (1 - q)).sum()), 'cutpoint-quarter', f'tree {t} node {k}: quarter {lo}: {hit.sum()} vs {q.sum():.1f}')
            tests += 7
    for k in prun.tolist():
        gset = (set(grow.tolist()) - {2 * k, 2 * k + 1}) | {k}
        ws = sum(pn[model.depth_of(g)] for g in gset)
        o = odds(k, ws, P, G > 0)
        prob = (1 - pg) / P * min(1.0, 1 / o)
        N = int((pruned & (node == k)).sum())
        stats.reject(stats.bernstein(N, prob * K, prob * (1 - prob) * K), 'kernel-frequency',
                     f'tree {t}, prune node {k}: made {N} times out of {K}, expected {prob * K:.1f}')
        tests += 1
    rec.count('moves_made', int(grown.sum() + pruned.sum()))
    rec.seen(a.split[t].tobytes(), a.var[t].tobytes(), t, 'prior')
    return pg, tests, has_rules
