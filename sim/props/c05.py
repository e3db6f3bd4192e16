"""C05 one legal move per tree, counters."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=90, thorough=1500)
RULE = ('a run drives a chain through steps and faults and classifies the change of each tree between consecutive states; '
        'distinct_nontrivial counts distinct (previous, next) forest pairs in which some tree changed')


def generate(r, tier, i):
    prob = {}
    if r.random() < 0.4:
        prob = dict(n=r.choice([0, 1, 3, 6, 10, 15]), minpts='set', small=True)
    elif r.random() < 0.3:
        prob = dict(d=r.choice([1, 2, 2, 3]), small=True)
    return history.generate(r, jungle=i % 8 == 3, wide=i // 20 if i % 20 == 7 else None, huge=i // 20 if i % 20 == 17 else None, modes=((5, 'jit'), (1, 'vmap'), (1, 'parts'), (1.5, 'loop')),
                            steps=(80, 300) if tier == 'quick' else (200, 1500), problem=prob)


shrink = history.shrink


def has_rule(v, t, k, ms):
    """some predictor still has a cutpoint at node k of tree t"""
    import numpy as np
    p = len(ms)
    anc = set()
    j = k >> 1
    while j:
        anc.add(int(v.var[t, j]))
        j >>= 1
    if np.any(ms > 0):
        free = (ms > 0).sum() - sum(1 for a in anc if ms[a] > 0)
        if free > 0:
            return True
        from .. import model
        for a in anc:
            l, r = model.node_range(v.var[t], v.split[t], k, a, ms)
            if r > l:
                return True
    return False


def run(sc, rec):
    import numpy as np
    from .. import model

    def on_step(prev, new, where):
        a, b = model.View(prev), model.View(new)
        try:
            moves = model.moves_between(a, b)
        except Violation as v:
            raise Violation(v.kind, f'{where}: {v.detail}')
        grew = sum(m[0] == 'grow' for m in moves)
        pruned = sum(m[0] == 'prune' for m in moves)
        gp, ga, pp, pa = (int(new[k]) for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'))
        tag = f'{where}: proposed grow {gp} prune {pp}, accepted grow {ga} prune {pa}'
        if ga != grew or pa != pruned:
            raise Violation('accept-counters', f'{tag}; actually grew {grew}, pruned {pruned}')
        if ga > gp or pa > pp:
            raise Violation('more-accepted-than-proposed', tag)
        ms = new['max_split'].astype(np.int64)
        g_loose = a.growable.any(axis=1)
        P = a.dec.any(axis=1)
        # leaves with enough points but no predictor left to split on may or
        # may not be considered as possible grow proposals
        g_strict = g_loose.copy()
        tight = (ms == 0).any() or len(ms) < a.H.bit_length() or True
        if tight:
            for t in np.flatnonzero(g_loose):
                ks = np.flatnonzero(a.growable[t])
                g_strict[t] = any(has_rule(a, t, int(k), ms) for k in ks)
        # with zero prior odds a leaf cannot be chosen
        pnt = new['p_nonterminal']
        if (pnt[:-1] == 0).any():
            H = a.H
            dep = np.array([0] + [int(k).bit_length() - 1 for k in range(1, H)])
            pos = a.growable & (pnt[dep] > 0)
            g_strict &= pos.any(axis=1)
        n_any_lo, n_any_hi = (g_strict | P).sum(), (g_loose | P).sum()
        tag += f'; trees that can grow {g_strict.sum()}-{g_loose.sum()}, prune {P.sum()}, any {n_any_lo}-{n_any_hi}'
        if not n_any_lo <= gp + pp <= n_any_hi:
            raise Violation('proposal-total', tag)
        if gp < (g_strict & ~P).sum() or gp > g_loose.sum():
            raise Violation('grow-proposals', tag)
        if pp < (P & ~g_loose).sum() or pp > P.sum():
            raise Violation('prune-proposals', tag)
        rec.count('grow', grew)
        rec.count('prune', pruned)
        rec.count('only_grow', (g_strict & ~P).sum())
        rec.count('only_prune', (P & ~g_loose).sum())
        rec.count('neither', (~P & ~g_loose).sum())
        rec.count('exhausted_leaf_trees', (g_strict != g_loose).sum())
        if grew or pruned:
            rec.seen(prev['split_trees'].tobytes(), new['split_trees'].tobytes(), prev['var_trees'].tobytes())
        rec.log(new['split_trees'].tobytes(), gp, ga, pp, pa)

    history.drive(sc, rec, lambda s: None, on_step)
