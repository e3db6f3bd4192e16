"""C19 changing units changes results only by the units."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=45, thorough=700)
RULE = ('a run executes the same fit, with the same entropy, in several systems of units of response and predictors; with unit changes exact in binary floating '
        'point the whole chain must be bit for bit the same, with others equal up to roundoff amplified by the chain (confirmed on several seeds). '
        'distinct_nontrivial counts distinct (change of units, chain of forests) with at least one decision node')
ASSUMPTIONS = ['units such that no quantity overflows or underflows', 'non-exact unit changes: violated only if the majority of several entropy streams disagree']


def generate(r, tier, i):
    n = r.choice([2, 3, 4, 8, 16, 32, 32, 64, 5, 20, 40, 100])
    c = config.gen_problem(r, small=True, tame=True, n=n, p=r.choice([1, 2, 3, 4, 12]), d=r.choice([2, 3, 4, 5, 6]), ntree=r.choice([1, 2, 5, 12]), save_ratios=False)
    kw = dict(ntree=c['ntree'], maxdepth=c['d'], numcut=r.choice([1, 2, 7, 50, 255, 256]), usequants=r.random() < 0.5, ndpost=r.choice([3, 6, 10]), nskip=r.choice([0, 2]),
              keepevery=r.choice([1, 2]), k=r.choice([1.0, 2.0, 3.0]), sigdf=r.choice([1, 3, 10]), sigquant=r.choice([0.5, 0.9]))
    given = r.choice([None, None, None, 'sigest', 'lamda', 'offset'])
    changes = []
    for _ in range(6):
        what = r.choice(['y2', 'y2', 'yshift', 'y2shift', 'x2', 'x2', 'x2each', 'xy2', 'yany', 'xany', 'xint'])
        changes.append([what, r.choice([-40, -28, -20, -7, -3, -1, 1, 2, 5, 11, 20, 28, 40] if what == 'y2' else [-34, -31, -28, -20, -7, -3, -1, 1, 2, 5, 11, 20, 28, 31]), round(r.uniform(-2, 2), 3), r.choice([-300, -5, 1, 8, 1000]), r.randrange(2 ** 31)])
    return dict(problem=c, kw=kw, given=given, changes=changes, intx=r.random() < 0.2, entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    if len(sc['changes']) > 1:
        for ch in sc['changes']:
            yield dict(sc, changes=[ch])
    if sc['given']:
        yield dict(sc, given=None)
    for k, v in dict(ndpost=1, nskip=0, keepevery=1, k=2.0, usequants=False, numcut=7, maxdepth=2, ntree=1, sigdf=3, sigquant=0.9).items():
        if sc['kw'][k] != v:
            yield dict(sc, kw=dict(sc['kw'], **{k: v}))
    for q in config.shrink_problem(sc['problem']):
        if q['n'] >= 2:
            yield dict(sc, problem=q)


def run(sc, rec):
    import numpy as np
    from .. import sut
    c, kw = sc['problem'], dict(sc['kw'])
    X, y = history.gbart_data(c)
    p, n = X.shape
    g = np.random.Generator(np.random.PCG64(c['data_seed'] + 11))
    # a response on a coarse dyadic grid makes shifts exact
    y = np.round(y / (np.abs(y).max() + 1e-30) * 200).astype(np.float32) / 8
    if np.ptp(y) == 0:
        y[0] += 1
    # X well within range
    if sc['intx']:
        X = np.round(X / (np.abs(X).max() + 1e-30) * 100).astype(np.int32)
        xt = g.integers(-100, 100, (p, 6)).astype(np.int32)
    else:
        xt = (g.normal(size=(p, 6)) * (1 + X.std())).astype(np.float32)
        xt[:, :2] = X[:, :2]
    pow2n = n & (n - 1) == 0
    given = {}
    if sc['given'] == 'sigest':
        given = dict(sigest=np.float32(1.5))
    elif sc['given'] == 'lamda':
        given = dict(lamda=np.float32(0.75))
    elif sc['given'] == 'offset':
        given = dict(offset=np.float32(2.0))

    def fit(X, y, xt, given, key):
        m = sut.fit(X, y, x_test=xt, seed=key, printevery=10 ** 6, **kw, **given)
        tr = sut.find_trace(m)
        out = {a: None if getattr(m, a) is None else np.array(getattr(m, a), np.float64) for a in ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_test')}
        out.update({k: np.array(tr[k]) for k in ('leaf_trees', 'var_trees', 'split_trees', 'sigma2', 'grow_acc_count', 'prune_acc_count')})
        return out

    def transform(ch):
        """(X, y, xt, given, a, b, exact)"""
        what, e, f, s, seed = ch
        a, b, exact = 1.0, 0.0, True
        Xn, xn = X, xt
        gg = np.random.Generator(np.random.PCG64(seed))
        if what in ('y2', 'y2shift', 'xy2'):
            a = 2.0 ** e
        if what in ('yshift', 'y2shift'):
            b = s * a
            # the mean of the response enters through the offset and, if the noise
            # is estimated by regression, also with a given offset
            exact = pow2n or sc['given'] == 'offset' and n <= p
        if what == 'yany':
            a, b, exact = float(np.exp(f)), float(s) / 7, False
        if what in ('x2', 'xy2'):
            # lapack rescales matrices out of 2^-39..2^39 inexactly
            m = np.log2(max(np.abs(X).max(), np.abs(xt).max(), 1e-9)), np.log2(np.ptp(X, axis=1).max() + 1e-9)
            e = int(max(min(e, 34 - m[0]), -34 - m[1]))
            fx = 2.0 ** e if not sc['intx'] else 2.0 ** (abs(e) % 8)
            Xn, xn = (X * fx).astype(X.dtype), (xt * fx).astype(X.dtype)
        if what == 'x2each':
            fx = 2.0 ** gg.integers(0 if sc['intx'] else -6, 7, (p, 1))
            Xn, xn = (X * fx).astype(X.dtype), (xt * fx).astype(X.dtype)
            exact = sc['given'] in ('sigest', 'lamda')
        if what == 'xint' and sc['intx']:
            fx = int(gg.integers(2, 9))
            Xn, xn = X * fx, xt * fx
            exact = sc['given'] in ('sigest', 'lamda') and kw['usequants']
        if what == 'xany':
            if sc['intx']:
                return None
            fx = np.float32(np.exp(f))
            Xn, xn = X * fx, xt * fx
            exact = False
        if not exact and Xn is not X and sc['given'] not in ('sigest', 'lamda') and n > p:
            # the noise is estimated by regression: with (nearly) collinear
            # predictors its numerical rank may change by roundoff
            sv = np.linalg.svd((X.T - X.mean(axis=1)).astype(np.float64), compute_uv=False)
            if what == 'x2each' or np.any(sv < 1e-3 * sv.max(initial=0)) or np.any(np.ptp(X, axis=1) < 1e-2 * np.abs(X).max(axis=1)):
                return None
        if not exact and Xn is not X and not kw['usequants']:
            # values at a cutpoint may move to the next bin by roundoff
            lo, hi = X.min(axis=1).astype(np.float64), X.max(axis=1).astype(np.float64)
            cuts = np.linspace(lo, hi, kw['numcut'] + 2, axis=1)[:, 1:-1]
            for Z in (X, xt):
                gap = np.abs(Z.astype(np.float64)[:, :, None] - cuts[:, None, :]).min(axis=(1, 2), initial=np.inf)
                if np.any(gap < 1e-5 * np.maximum(np.abs(lo), np.abs(hi))):
                    return None
        gv = dict(given)
        if 'sigest' in gv:
            gv['sigest'] = np.float32(gv['sigest'] * a)
        if 'lamda' in gv:
            gv['lamda'] = np.float32(gv['lamda'] * a * a)
        if 'offset' in gv:
            gv['offset'] = np.float32(gv['offset'] * a + b)
        yn = (y.astype(np.float64) * a + b).astype(np.float32)
        return Xn, yn, xn, gv, a, b, exact

    def compare(base, got, a, b, exact):
        errs = []
        rt = 1e-6 if exact else 2e-4
        big = abs(b) + a * (np.abs(base['yhat_train']).max(initial=0) + np.abs(base['offset']) + np.abs(y).max())
        want = dict(offset=base['offset'] * a + b, scale=base['scale'] * a, sigma=base['sigma'] * a, first_sigma=base['first_sigma'] * a,
                    yhat_train=base['yhat_train'] * a + b, yhat_test=base['yhat_test'] * a + b,
                    lamda=base['lamda'] * a * a, sigest=None if base['sigest'] is None else base['sigest'] * a)
        for k in ('leaf_trees', 'var_trees', 'split_trees', 'sigma2', 'grow_acc_count', 'prune_acc_count'):
            if got[k].shape != base[k].shape or got[k].dtype != base[k].dtype:
                errs.append(f'{k} {got[k].dtype}{got[k].shape}')
            elif exact and got[k].tobytes() != base[k].tobytes():
                errs.append(f'{k}: {int((got[k] != base[k]).sum())} of {got[k].size} values of the chain differ')
            elif not exact and k in ('var_trees', 'split_trees') and not np.array_equal(got[k], base[k]):
                errs.append(f'{k}: {int((got[k] != base[k]).sum())} of {got[k].size} values of the chain differ')
        for k, w in want.items():
            v = got[k]
            if (w is None) != (v is None):
                errs.append(f'{k} is {v}')
            elif w is not None:
                tol = 8 * 6e-8 * big if exact else 3e-3 * big
                if k in ('scale', 'sigma', 'first_sigma', 'lamda', 'sigest'):
                    # no additive part
                    tol = 0
                if k == 'offset':
                    tol = 4e-6 * big
                r = rt * (1 if k not in ('sigma', 'first_sigma') or exact else 10)
                if k in ('lamda', 'sigest') and not exact:
                    # residual variance of a possibly nearly exact regression
                    tol = (1e-5 * a * np.abs(y).max()) ** (2 if k == 'lamda' else 1)
                    r = 3e-3
                if v.shape != w.shape or not np.all(np.abs(v - w) <= tol + r * np.abs(w)):
                    errs.append(f'{k}: {v.ravel()[:3]} instead of {w.ravel()[:3]}')
        return errs

    ent = sc['entropy']
    key = sut.make_key(ent)
    base = fit(X, y, xt, given, key)
    bases = {0: base}
    nontrivial = bool(base['split_trees'].any())
    rec.step(kw['nskip'] + kw['ndpost'] * kw['keepevery'])
    for ch in sc['changes']:
        tf = transform(ch)
        if tf is None:
            continue
        Xn, yn, xn, gv, a, b, exact = tf
        rec.count(f'change:{ch[0]}')
        rec.count('exact' if exact else 'approximate')
        if not exact and not sc['given'] and base['sigest'] is not None and float(base['sigest']) < 1e-3 * np.abs(y).max():
            # interpolating regression: sigest is pure roundoff
            rec.count('sigest is roundoff')
            continue
        got = fit(Xn, yn, xn, gv, key)
        rec.step(kw['nskip'] + kw['ndpost'] * kw['keepevery'])
        errs = compare(base, got, a, b, exact)
        if errs and exact and b:
            # exact only if the offset is subtracted before anything else
            errs = compare(base, got, a, b, False)
            exact = False
        if errs and not exact:
            # roundoff may make a difference in a chain, not in most
            votes = [errs]
            for j in (1, 2, 3, 4):
                kj = sut.make_key(dict(ent, seed=(ent['seed'] + j) % 2 ** 31))
                if j not in bases:
                    bases[j] = fit(X, y, xt, given, kj)
                votes.append(compare(bases[j], fit(Xn, yn, xn, gv, kj), a, b, False))
            rec.count('reseeded')
            if sum(map(bool, votes)) < 4:
                errs = []
        if errs:
            raise Violation('units', f'change {ch} ({"exact" if exact else "approximate"}; y -> {a} y + {b}), n={n}, given={sc["given"]}: {errs[:4]}')
        if nontrivial:
            rec.seen(*ch[:2], base['split_trees'].tobytes())
        rec.log(got['leaf_trees'].tobytes(), got['yhat_train'].tobytes())
