"""C07 leaf values are posterior draws."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=80, thorough=1200)
RULE = ('a run records a history (several chains, sigma shocks, response changes), standardises every redrawn leaf with the exact '
        'conditional posterior recomputed from the data, and tests the standardised draws; distinct_nontrivial counts distinct '
        'forests with at least one decision node whose leaves were standardised')
ASSUMPTIONS = ['tests at 1e-10 significance each']


def generate(r, tier, i):
    c = config.gen_problem(r, small=True, n=r.choice([0, 1, 2, 5, 10, 20, 40, 60, 120]), d=r.choice([1, 2, 3, 3, 4, 4, 5, 6]),
                           ntree=r.choice([1, 2, 2, 3, 5, 8, 15, 30]), p=r.choice([1, 2, 3, 5]), tame=True)
    if i % 20 == 9:
        # many leaves, for the tails
        d = r.choice([5, 6])
        c = dict(c, d=d, ntree=500, n=r.choice([0, 1, 5]), pnt=[0.9] * (d - 1), cuts='u8max', minpts=None, plant=config.gen_plant(r, deep=True))
        c['plant']['grow'] = [1.0] * 12
        return dict(mode='jit', problem=c, steps=60 if tier == 'quick' else 300, events=[], entropy=dict(kind='threefry', seed=r.randrange(2 ** 31)))
    if c['ykind'] == 'outlier':
        c['ykind'] = 'normal'
    if r.random() < 0.4:
        c['plant'] = config.gen_plant(r, deep=r.random() < 0.4)
    T = r.randint(150, 300) * (1 if tier == 'quick' else 6)
    T = max(60, min(T, 400_000 // (c['ntree'] * 2 ** min(c['d'], 4))))
    sc = dict(mode=config.pick(r, (3, 'jit'), (2, 'vmap'), (1, 'loop')), problem=c, steps=T, events=[],
              entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))
    if sc['mode'] == 'vmap':
        sc['lanes'] = r.choice([2, 4])
        sc['steps'] = T // 2
    if sc['mode'] != 'loop':
        for _ in range(r.choice([0, 2, 6])):
            k = r.random()
            ev = (['sigma', r.choice([0.05, 0.3, 1.0, 5.0, 30.0])] if k < 0.5 else
                  ['yshift', r.choice([0.1, 1.0, 3.0]), r.randrange(2 ** 31)] if k < 0.8 else ['crash', r.choice([0, 2])])
            sc['events'].append([r.randrange(sc['steps'])] + ev)
        sc['events'].sort(key=lambda e: e[0])
    else:
        sc.update(steps=min(T, 120), burn=r.choice([0, 40]), skip=r.choice([1, 2]))
    return sc


def shrink(sc):
    for q in history.shrink(sc):
        # statistical evidence needs length: shrink the problem, not the history below a third
        if q.get('steps', 0) * 3 >= sc['steps'] or q['steps'] >= 400:
            yield q


WINDOW = 5e-4


def tally(pairs, name, u, v):
    import numpy as np
    d = np.abs(np.abs(u[:, None]) - np.abs(v[None, :])) < WINDOW
    hit, tot = int(d.sum()), d.size
    if u is v:
        hit, tot = (hit - len(u)) // 2, (tot - len(u)) // 2
    pairs[name] = pairs[name][0] + hit, pairs[name][1] + tot


def run(sc, rec):
    import numpy as np
    from .. import kernel, model, stats
    zs, classes, sibs, trees, lags = [], {}, [], [], []
    pairs = dict.fromkeys(('same step', 'consecutive steps'), (0, 0))
    offsets = {}
    msd = []
    nodesum = []
    last = {}

    def on_step(prev, new, where):
        lane = where.split('lane ')[-1] if 'lane' in where else '0'
        a, b = model.View(prev), model.View(new)
        R = kernel.partial_residuals(a.values, b.values, prev['y'])
        T = a.ntree
        sigma2 = float(prev['sigma2'])
        size = 2 * b.H
        cnt = b.cnt
        sums = np.zeros((T, size))
        for t in range(T):
            sums[t] = np.bincount(b.idx[t], weights=R[t], minlength=size)[:size]
        prec = cnt / sigma2 + T
        mean = sums / sigma2 / prec
        z = (b.leaf.astype(np.float64) - mean) * np.sqrt(prec)
        lv = b.leaves
        Z = z[lv]
        zs.append(Z)
        msd.append((mean * np.sqrt(prec))[lv])
        da, db = a.dec.any(axis=1), b.dec.any(axis=1)
        nd_a, nd_b = a.dec.sum(axis=1), b.dec.sum(axis=1)
        move = np.where(nd_b > nd_a, 1, np.where(nd_b < nd_a, 2, 0))
        tt, kk = np.nonzero(lv)
        dep = np.array([int(k).bit_length() - 1 for k in kk])
        # nodes which were just created by the move
        fresh = ~a.leaves[tt, kk]
        names = dict(
            empty=cnt[lv] == 0, full=cnt[lv] > 0, left=(kk % 2 == 0), right=(kk % 2 == 1) & (kk > 1), root=kk == 1,
            bottom=kk >= b.H, grown=move[tt] == 1, pruned=move[tt] == 2, still=move[tt] == 0,
            grown_new=(move[tt] == 1) & fresh, pruned_new=(move[tt] == 2) & fresh,
            first_tree=tt == 0, last_tree=tt == T - 1,
        )
        for k, m in names.items():
            if m.any():
                classes.setdefault(k, []).append(Z[m])
        lower = lv[:, 2::2] & lv[:, 3::2]
        if lower.any():
            sibs.append(np.stack([z[:, 2::2][lower], z[:, 3::2][lower]]))
        if T > 1:
            for lag in (1, 2):
                if T > lag:
                    both = lv[:-lag] & lv[lag:]
                    if both.any():
                        trees.append(np.stack([z[:-lag][both], z[lag:][both]]))
            m = lv.sum(axis=0)
            sel = m > 1
            nodesum.append(np.where(lv, z, 0).sum(axis=0)[sel] / np.sqrt(m[sel]))
        # different nodes within a tree
        for off in range(1, min(size, 65)) if size <= 64 else [2 ** i for i in range(size.bit_length() - 1)]:
            both = lv[:, :-off] & lv[:, off:]
            if both.any():
                offsets.setdefault(off, []).append(np.stack([z[:, :-off][both], z[:, off:][both]]))
        both = lv & lv[:, ::-1]
        both[:, b.H:] = False
        if both.any():
            offsets.setdefault('mirror', []).append(np.stack([z[both], z[:, ::-1][both]]))
        # draws made equal by whatever mapping of trees and nodes
        own = Z[:150]
        tally(pairs, 'same step', own, own)
        if lane in last:
            pz, plv = last[lane]
            tally(pairs, 'consecutive steps', own, pz[plv][:150])
            both = lv & plv
            if both.any():
                lags.append(np.stack([z[both], pz[both]]))
        last[lane] = (z, lv)
        if b.dec.any():
            rec.seen(new['split_trees'].tobytes(), new['var_trees'].tobytes())
        rec.log(new['leaf_trees'].tobytes())

    history.drive(sc, rec, lambda s: None, on_step)
    Z = np.concatenate(zs)
    text = f'{Z.size} leaves'
    # first gross errors, with the finest class able to tell
    for k, v in classes.items():
        n = stats.normal_suite(np.concatenate(v), 'leaf-draws', f'leaves of class {k!r}')
        rec.count(f'leaves:{k}', n)
    stats.normal_suite(Z, 'leaf-draws', text)
    if sibs:
        s = np.concatenate(sibs, axis=1)
        stats.uncorrelated(s[0], s[1], 'leaf-dependence', 'sibling leaves')
    if trees:
        s = np.concatenate(trees, axis=1)
        stats.uncorrelated(s[0], s[1], 'leaf-dependence', 'same node of nearby trees')
    if nodesum:
        s = np.concatenate(nodesum)
        if s.size >= 300:
            q = float(np.sum(s * s))
            from scipy import stats as st
            stats.reject(2 * min(st.chi2.sf(q, s.size), st.chi2.cdf(q, s.size)), 'leaf-dependence', f'sum over trees at the same node: mean square {q / s.size:.4f}')
    for off, v in offsets.items():
        s = np.concatenate(v, axis=1)
        stats.uncorrelated(s[0], s[1], 'leaf-dependence', f'nodes of the same tree at distance {off}')
        rec.count('node_offsets_tested')
    for name, (hit, tot) in pairs.items():
        # density of |z1| - |z2| at zero is 2 / sqrt(pi)
        expect = tot * 2 * WINDOW / np.sqrt(np.pi)
        if hit > 3 * expect + 40:
            raise Violation('leaf-dependence', f'{name}: {hit} pairs of draws out of {tot} are equal up to sign within {WINDOW}, expected {expect:.1f}')
        rec.count('pairs_compared', tot)
    if lags:
        s = np.concatenate(lags, axis=1)
        stats.uncorrelated(s[0], s[1], 'leaf-dependence', 'same node in consecutive steps')
    m = np.concatenate(msd)
    stats.uncorrelated(Z, m, 'leaf-mean-shrinkage', 'draw and standardised posterior mean')
    rec.count('leaves', Z.size)
    rec.sample = dict(leaves=int(Z.size), mean=float(Z.mean()), var=float(Z.var()))
