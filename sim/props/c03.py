"""C03 leaf_indices and affluence flags agree with the trees."""

from .. import history
from ..core import Violation

RUNS = dict(quick=80, thorough=1500)
RULE = ('a run drives a chain through steps and faults and recomputes the leaf of each datapoint and the number of '
        'points of each leaf; distinct_nontrivial counts distinct forests with at least one decision node')


def generate(r, tier, i):
    prob = dict(minpts='set') if r.random() < 0.6 else {}
    prob.update(history.crowd(r, i))
    return history.generate(r, jungle=i % 8 == 3, wide=i // 20 if i % 20 == 7 else None, huge=i // 20 if i % 20 == 17 else None, steps=(80, 300) if tier == 'quick' else (200, 1500), problem=prob)


shrink = history.shrink


def run(sc, rec):
    import numpy as np
    from .. import model

    def check(s, where):
        v = model.View(s)
        li = s['leaf_indices'].astype(np.int64)
        if li.shape != v.idx.shape:
            raise Violation('leaf-indices-shape', f'{where}: {li.shape}')
        bad = li != v.idx
        if bad.any():
            t, i = np.argwhere(bad)[0]
            raise Violation('leaf-indices', f'{where}: tree {t} datapoint {i}: recorded {li[t, i]}, actual {v.idx[t, i]}')
        aff = s['affluence_trees']
        m = s['min_points_per_leaf']
        if (aff is None) != (m is None):
            raise Violation('affluence-presence', f'{where}: min_points_per_leaf {m}, affluence_trees {None if aff is None else aff.shape}')
        if aff is not None:
            lv = v.leaves[:, :v.H].copy()
            expect = v.cnt[:, :v.H] >= 2 * int(m)
            bad = lv & (aff != expect)
            if bad.any():
                t, k = np.argwhere(bad)[0]
                raise Violation('affluence', f'{where}: tree {t} leaf {k}: {v.cnt[t, k]} points, min {m}, flag {aff[t, k]}')
            rec.count('affluence_flags', lv.sum())
        if v.dec.any():
            rec.seen(s['split_trees'].tobytes(), s['var_trees'].tobytes())
        rec.log(s['leaf_indices'].tobytes())

    history.drive(sc, rec, lambda s: check(s, 'init'), lambda a, b, w: check(b, w))
