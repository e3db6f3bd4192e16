"""C21 degenerate but valid problems."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=80, thorough=900)
TIMEOUT = 300
RULE = ('a run fits a degenerate problem (sizes 0, 1, 2, more predictors than datapoints, constant, duplicated, collinear, extreme predictors, interpolated response, cutpoint counts at integer type '
        'boundaries, shallowest trees, empty schedules) with plain or faulty entropy and predicts at empty, extreme and ordinary points; everything must be finite and of the documented shape and type. '
        'distinct_nontrivial counts distinct (degeneracies, settings) combinations')
STUB = 'mcmcstep.step is a stub in the runs with stub=true (about a third)'
ASSUMPTIONS = ['data of magnitude between 1e-6 and 1e6, so that no square overflows or underflows in float32', 'means over no samples are not defined']

XKINDS = ('normal', 'constant', 'duplicate', 'collinear', 'binary', 'integers', 'lump', 'tiny', 'huge', 'offset', 'bool', 'one_distinct', 'sorted')
YKINDS = ('normal', 'linear', 'binary', 'outlier', 'int', 'stepfun', 'near_constant', 'big', 'small', 'exact', 'interpolated', 'interpolated')


def generate(r, tier, i):
    n = r.choice([0, 0, 1, 1, 2, 2, 2, 3, 4, 5, 9, 10, 11, 20, 255, 256, 257])
    p = r.choice([1, 1, 2, 3, 5, 12, 255, 256, 257])
    if p > 100 and n > 100:
        p = 2
    numcut = r.choice([1, 1, 2, 3, 100, 254, 255, 256, 257] + ([65535, 65536] if p < 4 else []))
    given = r.choice([{}, {}, {}, dict(sigest=0.5), dict(lamda=0.1), dict(offset=1.5), dict(sigest=2, offset=-3), dict(offset=0)])
    xk = r.choice(XKINDS)
    yk = r.choice(YKINDS)
    if yk == 'interpolated':
        n = r.choice([2, 3, 4, 6, 8])
        p = r.randrange(1, n)
        given = {}
    return dict(
        n=n, p=p, xkind=xk, ykind=yk, frame=r.random() < 0.25 and xk != 'bool', given=given, numcut=numcut, usequants=r.random() < 0.5,
        maxdepth=r.choice([1, 1, 2, 2, 3, 6, 9]), ntree=r.choice([1, 1, 2, 5, 20, 200]), ndpost=r.choice([0, 0, 1, 2, 5]), nskip=r.choice([0, 0, 1, 4]), keepevery=r.choice([1, 1, 2, 5]),
        printevery=r.choice([1, 2, 10 ** 6]), k=r.choice([0.5, 2, 2, 10.0]), sigdf=r.choice([1, 3, 3, 50]), sigquant=r.choice([0.05, 0.5, 0.9, 0.99]),
        base=r.choice([0.1, 0.95, 0.999]), power=r.choice([0, 0.5, 2, 6]), test=r.choice([None, 0, 0, 1, 4]),
        initkw=r.choice([{}, {}, {}, dict(min_points_per_leaf=None), dict(min_points_per_leaf=1), dict(resid_batch_size=1), dict(count_batch_size=1, resid_batch_size=3), dict(save_ratios=True)]),
        seed=r.choice([0, 1, 2 ** 31 - 1]), entropy=config.gen_entropy(r, 0.5), data_seed=r.randrange(2 ** 31), stub=r.random() < 0.35,
    )


def shrink(sc):
    for k, vs in dict(n=(0, 1, 2, 3, 10), p=(1, 2), ntree=(1,), maxdepth=(1, 2, 3), ndpost=(0, 1), nskip=(0, 1), keepevery=(1,), numcut=(1, 10), usequants=(False,), frame=(False,),
                      xkind=('normal',), ykind=('normal',), given=({},), initkw=({},), test=(None, 1), k=(2,), sigdf=(3,), sigquant=(0.9,), base=(0.95,), power=(2,), stub=(True, False), printevery=(1,)).items():
        for v in vs:
            if sc[k] != v and not (isinstance(v, int) and not isinstance(v, bool) and isinstance(sc[k], int) and v > sc[k]):
                yield dict(sc, **{k: v})
    if sc['entropy']['kind'] != 'threefry':
        yield dict(sc, entropy=dict(kind='threefry', seed=sc['entropy']['seed']))


def zero_residuals(X, y, np):
    import jax.numpy as jnp
    X, y = jnp.asarray(X, jnp.float32), jnp.asarray(y, jnp.float32)
    z = y - y.mean()
    u, s, _ = jnp.linalg.svd(X.T - X.mean(axis=1), full_matrices=False)
    return not (z - u @ jnp.where(s > 1e-5 * s.max(initial=0), u.T @ z, 0)).any()


def make(sc, np):
    g = np.random.Generator(np.random.PCG64(sc['data_seed']))
    n, p = sc['n'], sc['p']
    X = g.normal(size=(p, n))
    k = sc['xkind']
    if k == 'constant':
        X[g.random(p) < 0.7] = 1.5
        X[0] = -2
    elif k == 'duplicate':
        X[:] = X[0]
    elif k == 'collinear':
        X = g.normal(size=(p, 1)) @ X[:1] + g.normal(size=(p, 1))
    elif k == 'binary':
        X = (X > 0).astype(float)
    elif k == 'integers':
        X = g.integers(-3, 4, (p, n)).astype(np.int64)
    elif k == 'lump':
        X[:, :max(1, n - 1)] = 0.25
    elif k == 'tiny':
        X *= 1e-6
    elif k == 'huge':
        X *= 1e6
    elif k == 'offset':
        X = X * 1e-2 + 1e4
    elif k == 'bool':
        X = X > 0
    elif k == 'one_distinct':
        X[:] = 0
        X[:, :1] = 1
    elif k == 'sorted':
        X = np.sort(X, axis=1)
    y = g.normal(size=n)
    k = sc['ykind']
    x = X[0].astype(float)
    if k == 'linear':
        y = 2 * x + 1
    elif k == 'binary':
        y = (y > 0).astype(float)
    elif k == 'outlier' and n:
        y[-1] = 1e5
    elif k == 'int':
        y = g.integers(0, 5, n)
    elif k == 'stepfun':
        y = (x > np.median(x) if n else x) * 1.
    elif k == 'near_constant':
        y = 1 + 1e-5 * y
    elif k == 'big':
        y *= 1e6
    elif k == 'small':
        y *= 1e-6
    elif k == 'exact' and n:
        # a linear function with exactly representable residuals
        X = np.array(X, float)
        X[0] = np.arange(n)
        y = np.arange(n) * 0.5
    elif k == 'interpolated' and 2 <= n <= 20 and p < 12:
        # few small integers: the linear regression may leave residuals exactly zero
        for _ in range(150):
            X = g.integers(-2, 3, (p, n)) * 2. ** g.integers(-10, 10)
            y = g.integers(-2, 3, p) @ X + g.integers(-3, 3)
            if np.ptp(y) and zero_residuals(X, y, np):
                break
    y = np.array(y)
    y = y.astype(np.float32) if y.dtype.kind == 'f' else y.astype(np.int32)
    if n >= 2 and np.ptp(y) == 0:
        y[0] += 1
    if X.dtype == float:
        X = X.astype(np.float32)
    return X, y, g


def run(sc, rec):
    import contextlib
    import io
    import warnings
    import numpy as np
    from .. import sut
    jnp = sut.jnp
    X, y, g = make(sc, np)
    n, p, m = sc['n'], sc['p'], sc['test']
    xt = None
    if m is not None:
        xt = np.concatenate([X[:, :1], g.choice([-1e6, 0, 1e6], (p, 1)), g.normal(size=(p, 4))], axis=1)
        if n == 0:
            xt = g.normal(size=(p, 6))
        xt = xt[:, :m]
        xt = (xt > 0) if X.dtype == bool else xt.astype(X.dtype)
    fx, fy, ft = X, y, xt
    if sc['frame']:
        import pandas as pd
        cols = [f'x{j}' for j in range(p)]
        df = lambda a: None if a is None else pd.DataFrame(np.asarray(a).T, columns=cols)
        fx, fy, ft = df(X), pd.Series(y, name='y'), df(xt)
    plain = sc['entropy']['kind'] == 'threefry'
    seed = sc['seed'] if plain else sut.make_key(sc['entropy'], rec)
    kw = {k: sc[k] for k in ('maxdepth', 'ntree', 'numcut', 'usequants', 'ndpost', 'nskip', 'keepevery', 'printevery', 'k', 'sigdf', 'sigquant', 'base', 'power')}
    desc = f'n={n} p={p} {sc["xkind"]}/{sc["ykind"]} given={sc["given"]} {kw}'
    for what in (f'n:{n}', f'x:{sc["xkind"]}', f'y:{sc["ykind"]}', f'numcut:{sc["numcut"]}', f'maxdepth:{sc["maxdepth"]}', f'ndpost:{sc["ndpost"]}', f'test:{m}'):
        rec.count(what)
    rec.fault('degenerate data')
    snap = [np.array(a) for a in (X, y)]
    with sut.stub_step(sc['stub'], forest=True):
        try:
            model = sut.fit(fx, fy, x_test=ft, seed=seed, initkw=sc['initkw'], **kw, **sc['given'])
        except Exception as e:
            from ..core import sut_exception
            if sut_exception(e):
                raise Violation('fit-fails', f'{desc}: {type(e).__name__}: {str(e)[:300]}')
            raise
        # more requests, including empty
        extra = {}
        for name, k in (('empty', 0), ('one', 1), ('all', n)):
            q = X[:, :k]
            extra[name] = model.predict(df(q) if sc['frame'] else q)
    rec.step(sc['nskip'] + sc['ndpost'] * sc['keepevery'])

    def check(name, v, shape, finite=True, positive=False, kind='f', dtype='float32'):
        v = np.asarray(v)
        if v.shape != shape:
            raise Violation('shape', f'{desc}: {name} has shape {v.shape} instead of {shape}')
        if dtype and v.dtype != dtype:
            raise Violation('type', f'{desc}: {name} has type {v.dtype} instead of {dtype}')
        if finite and not np.all(np.isfinite(v)):
            raise Violation('not-finite', f'{desc}: {name} has {int((~np.isfinite(v)).sum())} of {v.size} values not finite, e.g. {v[~np.isfinite(v)][0]}')
        if positive and not np.all(v > 0):
            raise Violation('not-positive', f'{desc}: {name} is {v.ravel()[:3]}')
        return v

    nd = sc['ndpost']
    off = check('offset', model.offset, (), dtype=None)
    scale = check('scale', model.scale, (), dtype=None, positive=True)
    check('lamda', model.lamda, (), dtype=None)
    if float(model.lamda) < 0:
        raise Violation('negative', f'{desc}: lamda={model.lamda}')
    if 'lamda' in sc['given']:
        if not np.isclose(float(model.lamda), sc['given']['lamda']) or model.sigest is not None:
            raise Violation('given', f'{desc}: lamda={model.lamda} sigest={model.sigest}')
    else:
        sg = float(check('sigest', model.sigest, (), dtype=None))
        want = sc['given'].get('sigest', 1 if n < 2 else None)
        if want is not None and not np.isclose(sg, want):
            raise Violation('fallback', f'{desc}: sigest={sg} instead of {want}')
        if sg < 0:
            raise Violation('negative', f'{desc}: sigest={sg}')
    big = np.abs(y.astype(np.float64)).max(initial=0)
    want = sc['given'].get('offset', 0 if n == 0 else y.astype(np.float64).mean())
    if abs(float(off) - want) > 1e-5 * (big + abs(want)):
        raise Violation('fallback', f'{desc}: offset={off} instead of {want}')
    want = 1 if n < 2 else np.ptp(y.astype(np.float64)) / (2 * sc['k'])
    if abs(float(scale) - want) > 1e-5 * want + 1e-6 * big:
        raise Violation('fallback', f'{desc}: scale={scale} instead of {want}')
    check('sigma', model.sigma, (nd,), positive=not sc['stub'])
    check('first_sigma', model.first_sigma, (sc['nskip'],), positive=not sc['stub'])
    yt = check('yhat_train', model.yhat_train, (nd, n))
    check('yhat_train_mean', model.yhat_train_mean, (n,), finite=nd > 0)
    if m is not None:
        check('yhat_test', model.yhat_test, (nd, m))
        check('yhat_test_mean', model.yhat_test_mean, (m,), finite=nd > 0)
    check('empty request', extra['empty'], (nd, 0))
    check('single request', extra['one'], (nd, min(1, n)))
    if not np.array_equal(check('training request', extra['all'], (nd, n)), yt):
        raise Violation('predict', f'{desc}: predictions at the training points differ from yhat_train')
    tr, st = sut.find_trace(model), sut.find_state(model)
    T, size = sc['ntree'], 2 ** sc['maxdepth']
    for name, t, lead in (('trace', tr, (nd, T)), ('state', st, (T,))):
        check(f'{name} leaf_trees', t['leaf_trees'], lead + (size,))
        for k in ('var_trees', 'split_trees'):
            a = np.asarray(t[k])
            if a.shape != lead + (size // 2,) or a.dtype.kind != 'u':
                raise Violation('shape', f'{desc}: {name} {k} {a.dtype}{a.shape}')
    check('resid', st['resid'], (n,))
    check('sigma2', st['sigma2'], ())
    for a, b in zip(snap, (X, y)):
        if not np.array_equal(a, b):
            raise Violation('input-modified', desc)
    if model.sigest is not None and float(model.sigest) == 0:
        rec.count('sigest is zero')
    rec.seen(*[sc[k] for k in ('n', 'p', 'xkind', 'ykind', 'numcut', 'usequants', 'maxdepth', 'ndpost', 'nskip', 'keepevery', 'frame')], sorted(sc['given']))
    rec.log(yt.tobytes(), np.asarray(model.sigma).tobytes())
