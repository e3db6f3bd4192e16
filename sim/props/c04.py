"""C04 minimum number of points per leaf."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=80, thorough=1500)
RULE = ('a run drives a chain with a minimum leaf size through steps and faults (or a whole fit with the default of 5); '
        'distinct_nontrivial counts distinct forests with at least one decision node whose leaves were counted, plus '
        'histories of too small datasets checked to stay bare roots')


def generate(r, tier, i):
    prob = dict(minpts='set', deep=config.pick(r, (3, 'flat'), (2, 'sure'), (1, 'random'), (1, 'default')))
    if i % 8 == 6:
        # whole fits of small data with the default minimum
        prob.update(n=r.choice([5, 9, 10, 11, 12, 20, 40, 60, 90, 99, 100, 130]), d=r.choice([3, 4, 6]), p=r.choice([1, 2, 5]), ntree=20, deep='flat')
        sc = history.generate(r, modes=((1, 'gbart'),), problem=prob)
        return dict(sc, init={}, kw=dict(sc['kw'], ndpost=40, nskip=20, ntree=20, numcut=r.choice([10, 100]), base=0.99, power=r.choice([0.0, 0.5])))
    prob.update(history.crowd(r, i))
    sc = history.generate(r, jungle=i % 8 == 3, wide=i // 20 if i % 20 == 7 else None, huge=i // 20 if i % 20 == 17 else None, modes=((5, "jit"), (1, "vmap"), (1, "parts"), (1, "loop"), (2, "gbart")),
                          steps=(80, 300) if tier == 'quick' else (200, 1500), problem=prob)
    if sc['mode'] == 'gbart':
        sc['init'] = r.choice([{}, {}, dict(min_points_per_leaf=1), dict(min_points_per_leaf=2), dict(min_points_per_leaf=9)])
    return sc


shrink = history.shrink


def run(sc, rec):
    import numpy as np
    from .. import model
    if sc['mode'] == 'gbart':
        m = sc['init'].get('min_points_per_leaf', 5)
    else:
        m = sc['problem']['minpts']
        if m is None:
            from ..core import Skip
            raise Skip('no minimum')

    def check(s, where):
        v = model.View(s)
        n = s['X'].shape[1]
        nonroot = v.dec.any(axis=1)
        bad = v.leaves & (v.cnt < m) & nonroot[:, None]
        if bad.any():
            t, k = np.argwhere(bad)[0]
            raise Violation('undersized-leaf', f'{where}: tree {t} leaf {k} has {v.cnt[t, k]} points, minimum {m}')
        if n < 2 * m:
            if nonroot.any():
                raise Violation('tree-on-small-data', f'{where}: {n} points, minimum {m}')
            rec.seen('bare', n, m, s['X'].tobytes())
            rec.count('states_with_too_few_data')
        if nonroot.any():
            rec.seen(s['split_trees'].tobytes(), s['var_trees'].tobytes())
            rec.count('leaves_at_minimum', (v.leaves & (v.cnt == m) & nonroot[:, None]).sum())
        rec.log(s['split_trees'].tobytes())

    def on_trace(trace, static):
        for i in range(len(trace['leaf_trees'])):
            check(dict(static, **{k: x[i] for k, x in trace.items()}), f'sample {i}')
        rec.count('trace_samples', len(trace['leaf_trees']))

    history.drive(sc, rec, lambda s: None, lambda a, b, w: check(b, w), on_trace)
