"""C02 valid trees."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=80, thorough=1500)
RULE = ('a run drives a chain of a random problem (bias to few cutpoints, integer type boundaries, deep trees) through '
        'steps and faults; distinct_nontrivial counts distinct forests with at least one decision node whose every node was validated')


def generate(r, tier, i):
    prob = {}
    if r.random() < 0.5:
        prob['cuts'] = config.pick(r, (3, 'few'), (2, 'u8max'), (2, 'u16'), (1, 'zeros'), (1, 'mixed'))
        prob['deep'] = config.pick(r, (3, 'flat'), (2, 'sure'), (1, 'random'))
    return history.generate(r, jungle=i % 8 == 3, wide=i // 20 if i % 20 == 7 else None, huge=i // 20 if i % 20 == 17 else None, steps=(80, 300) if tier == 'quick' else (200, 1500), problem=prob, adversarial=0.6)


shrink = history.shrink


def run(sc, rec):
    import numpy as np
    from .. import model, sut
    base = {}

    def on_start(s):
        base.update(s)
        model.check_structure(s, 'init')
        if s['split_trees'].any() and not sc['problem'].get('plant'):
            raise Violation('initial-not-root', 'init: trees are not bare roots')

    def on_step(prev, new, where):
        nodes = model.check_structure(new, where)
        if base:
            model.check_dtypes({k: new[k] for k in sut.DYNAMIC}, base, where)
        if nodes:
            rec.seen(new['split_trees'].tobytes(), new['var_trees'].tobytes())
            rec.count('nodes_validated', nodes)
        rec.log(new['split_trees'].tobytes(), new['var_trees'].tobytes())

    def on_trace(trace, static):
        model.check_structure(dict(static, **trace), 'trace')
        for k, v in trace.items():
            if base and v.dtype != base[k].dtype:
                raise Violation('dtype-shape', f'trace {k}: {v.dtype}, state {base[k].dtype}')
        if trace['leaf_trees'].shape[1:] != static['leaf_trees'].shape:
            raise Violation('trace-shape', str(trace['leaf_trees'].shape))
        rec.count('trace_samples', len(trace['leaf_trees']))

    history.drive(sc, rec, on_start, on_step, on_trace)
    rec.sample = dict(nodes=rec.counts.get('nodes_validated', 0))
