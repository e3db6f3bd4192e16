"""C01 residual conservation."""

from .. import history
from ..core import Violation

RUNS = dict(quick=80, thorough=1500)
RULE = ('a run drives a chain of a random problem through steps, sigma shocks, response changes, crashes '
        'and branches under plain or faulty entropy; distinct_nontrivial counts distinct states (tree structures '
        'digest) with at least one decision node in which the residuals were compared with the forest')
ASSUMPTIONS = ['roundoff bound: 2 x unit roundoff x sum of the magnitudes of all float32 additions of the step']


def generate(r, tier, i):
    return history.generate(r, jungle=i % 8 == 3, wide=i // 20 if i % 20 == 7 else None, huge=i // 20 if i % 20 == 17 else None, steps=(80, 300) if tier == 'quick' else (200, 1500))


shrink = history.shrink


def run(sc, rec):
    import numpy as np
    from .. import model
    acc = {}

    def err(v):
        s = v.s
        return s['resid'].astype(np.float64) - (s['y'].astype(np.float64) - v.values.sum(axis=0))

    def compare(e, tol, where, kind):
        bad = ~(np.abs(e) <= tol)
        if bad.any():
            j = int(np.argmax(np.where(np.isfinite(e), np.abs(e) / tol, np.inf)))
            raise Violation(kind, f'{where}: datapoint {j}: residual is off by {e[j]} (roundoff bound {tol[j] if np.ndim(tol) else tol})')

    def on_start(s):
        v = model.View(s)
        compare(err(v), 1e-30 + 1e-7 * (np.abs(s['y']).max(initial=0) + np.abs(v.values).sum(axis=0).max(initial=0)), 'init', 'initial-resid')

    def on_step(prev, new, where):
        b = model.View(new)
        if prev is None:
            # only the final state of a whole fit is visible: linear bound
            S = np.abs(new['y']).max(initial=0) + np.abs(b.values).sum(axis=0).max(initial=0) + np.abs(new['resid']).max(initial=0)
            compare(err(b), np.full(new['resid'].shape, 4e-7 * S * (rec.steps * b.ntree + 10) + 1e-30), where, 'resid-drift')
        else:
            a = model.View(prev)
            ea, eb = err(a), err(b)
            # partial residuals along the sequential update bound the roundoff
            d = a.values - b.values
            R = a.s['resid'].astype(np.float64) + np.cumsum(d, axis=0)
            mag = np.abs(R).sum(axis=0) + np.abs(d).sum(axis=0) + np.abs(a.values).sum(axis=0) + np.abs(b.values).sum(axis=0) + np.abs(a.s['resid'])
            tol = 1.3e-7 * mag + 1e-35
            compare(eb - ea, tol, where, 'resid-step')
        if b.dec.any():
            rec.seen(new['split_trees'].tobytes(), new['var_trees'].tobytes())
        rec.log(new['resid'].tobytes(), new['split_trees'].tobytes())

    history.drive(sc, rec, on_start, on_step)
    rec.sample = dict(steps=rec.steps)
