"""C14 predictions are those of the recorded forests."""

import pickle

from .. import config, history
from ..core import Violation

RUNS = dict(quick=48, thorough=900)
RULE = ('a run fits a model and executes a session of prediction requests (any order, repeated, refused, after loss of compilation caches or '
        'restore from a pickle), each compared with a float64 evaluation of the recorded trees; distinct_nontrivial counts distinct (recorded '
        'forest, request) pairs with at least one decision node and one point')
STUB = 'in the runs with stub=true the fitted forests are random ones produced by a stub of mcmcstep.step (the predictions concern recorded forests only)'
ASSUMPTIONS = ['roundoff bound: (ntree + 8) float32 ulps of the summed leaf magnitudes']

OPS = ('train', 'train_mean', 'train_request', 'subset', 'permuted', 'single', 'duplicated', 'empty', 'fresh', 'boundary', 'wide',
       'float64', 'bad', 'pickle', 'like_train', 'many', 'clear_caches', 'copy_frame', 'buffer', 'scribble')


def generate(r, tier, i):
    stub = r.random() < 0.75
    p = r.choice([1, 2, 3, 5, 12])
    d, ntree = r.choice([1, 2, 3, 4, 5, 6]), r.choice([1, 2, 7, 30, 200]) if stub else r.choice([1, 3, 15])
    if stub and i % 4 == 1:
        # type boundaries of node, predictor and tree indices
        d, ntree = r.choice([8, 9, 9, 10]), r.choice([1, 2, 5])
    elif stub and i % 4 == 2:
        p, ntree, d = r.choice([255, 256, 257, 258]), r.choice([1, 3, 255, 256, 257]), r.choice([2, 3, 5])
    c = config.gen_problem(r, small=True, tame=True, n=r.choice([0, 1, 2, 5, 12, 30, 60]), p=p, d=d, ntree=ntree, save_ratios=False)
    kw = dict(ntree=c['ntree'], maxdepth=c['d'], numcut=r.choice([1, 2, 5, 50, 254, 255, 256, 300]), usequants=r.random() < 0.5,
              ndpost=r.choice([0, 1, 2, 5, 11]), nskip=r.choice([0, 0, 3]), keepevery=r.choice([1, 1, 2]), k=r.choice([0.5, 2.0, 5.0]))
    if r.random() < 0.3:
        kw['offset'] = r.choice([-3.0, 0.0, 100.0])
    ops = [r.choice(OPS) for _ in range(r.randint(6, 10))]
    return dict(problem=c, stub=stub, kw=kw, frame=r.random() < 0.4, x_test=r.random() < 0.5, ops=ops, op_seed=r.randrange(2 ** 31),
                columns=r.choice(['str', 'int', 'odd']), entropy=dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31)))


def shrink(sc):
    ops = sc['ops']
    if len(ops) > 1:
        for i in range(len(ops)):
            yield dict(sc, ops=[ops[i]])
        yield dict(sc, ops=ops[:len(ops) // 2])
        yield dict(sc, ops=ops[len(ops) // 2:])
        for i in range(len(ops)):
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
    if sc['x_test']:
        yield dict(sc, x_test=False)
    if sc['frame']:
        yield dict(sc, frame=False)
    for k, v in dict(ndpost=1, nskip=0, keepevery=1, k=2.0, usequants=False, numcut=5, maxdepth=2, ntree=1).items():
        if sc['kw'][k] != v:
            yield dict(sc, kw=dict(sc['kw'], **{k: v}))
    for q in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=q)


class Frames:
    """arrays (p, n) <-> data frames"""

    def __init__(self, sc, p):
        import pandas as pd
        self.pd = pd
        self.on = sc['frame']
        self.columns = dict(str=[f'x{j}' for j in range(p)], int=list(range(p)), odd=[f'col {p - j}' for j in range(p)])[sc['columns']]

    def frame(self, X, columns=None, index=None):
        df = self.pd.DataFrame(X.T, columns=self.columns if columns is None else columns)
        if index is not None:
            df.index = index
        return df

    def make(self, X, index=None):
        return self.frame(X, index=index) if self.on else X


def reference(m, X, splits, trace, sut, np):
    """float64 predictions and magnitude of the summed leaves"""
    from .. import model
    b = np.stack([np.searchsorted(s, x, side='left') for s, x in zip(splits, X)]) if X.shape[1] else np.zeros(X.shape, np.int64)
    leaf, var, spl = (np.array(trace[k]) for k in ('leaf_trees', 'var_trees', 'split_trees'))
    idx = model.route(b, var, spl)
    v = np.take_along_axis(leaf.astype(np.float64), idx, axis=-1)
    return v.sum(axis=1), np.abs(v).sum(axis=1)


def get_splits(m, X, kw, sut, np):
    s = getattr(m, '_splits', None)
    if s is None:
        f = sut.prepcovars.quantilized_splits_from_matrix if kw['usequants'] else sut.prepcovars.uniform_splits_from_matrix
        s = f(sut.jnp.asarray(X), kw['numcut'] + 1)[0]
    return np.array(s)


def run(sc, rec):
    import numpy as np
    from .. import sut
    jax = sut.jax
    c, kw = sc['problem'], sc['kw']
    rec.count('stub' if sc['stub'] else 'real')
    X, y = history.gbart_data(c)
    p, n = X.shape
    g = np.random.Generator(np.random.PCG64(sc['op_seed']))
    F = Frames(sc, p)
    xt = X[:, g.permutation(n)[:max(1, n // 2)]] if n else g.normal(size=(p, 3)).astype(np.float32)
    index = g.permutation(n) + 5
    yarg = F.pd.Series(y, index=index, name='resp') if sc['frame'] else y
    key = sut.make_key(sc['entropy'])
    own = F.make(X.copy(), index)
    with sut.stub_step(sc['stub'], forest=True):
        m = sut.fit(own, yarg, x_test=F.make(xt) if sc['x_test'] else None, seed=key, printevery=10 ** 6, **kw)
        if sc['frame'] and g.random() < 0.5:
            # same content as arrays
            m2 = sut.fit(X, y, x_test=xt if sc['x_test'] else None, seed=key, printevery=10 ** 6, **kw)
            for a in ('sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest', 'yhat_train') + (('yhat_test',) if sc['x_test'] else ()):
                u, v = getattr(m, a), getattr(m2, a)
                if (u is None) != (v is None) or (u is not None and not sut.same_bits(u, v)):
                    raise Violation('frame-vs-array', f'attribute {a}: {np.array(u)!r:.200} vs {np.array(v)!r:.200}')
            rec.count('frame_vs_array')
    trace = {k: np.array(v) for k, v in sut.find_trace(m).items() if k in ('leaf_trees', 'var_trees', 'split_trees')}
    splits = get_splits(m, X, kw, sut, np)
    offset, scale = float(m.offset), float(m.scale)
    ident = (trace['leaf_trees'].tobytes(), trace['split_trees'].tobytes(), trace['var_trees'].tobytes())
    nontrivial = bool((trace['split_trees'] != 0).any())
    eps = np.finfo(np.float32).eps
    rec.step(kw['ndpost'])

    def verify(got, Xr, what):
        if getattr(got, 'shape', None) != (kw['ndpost'], Xr.shape[1]) or got.dtype != np.float32:
            raise Violation('prediction-shape', f'{what}: {got.dtype}{got.shape}, expected float32 {(kw["ndpost"], Xr.shape[1])}')
        a = np.array(got)
        ref, mag = reference(m, Xr, splits, trace, sut, np)
        want = offset + scale * ref
        tol = eps * ((c['ntree'] + 8) * scale * mag + 4 * abs(offset) + 4 * abs(want)) + 1e-30
        bad = ~(np.abs(a - want) <= tol)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation('prediction-value', f'{what}: sample {i}, point {j} (x={Xr[:, j]}): {a[i, j]!r}, recorded forest gives {want[i, j]!r}')
        if nontrivial and a.size:
            rec.seen(*ident, Xr.tobytes())
        rec.count('predictions', a.size)
        rec.log(a.tobytes())
        return a

    def close(a, b, Xr, what):
        _, mag = reference(m, Xr, splits, trace, sut, np)
        tol = 2 * eps * ((c['ntree'] + 8) * scale * mag + 4 * abs(offset)) + 1e-30
        if not np.all(np.abs(a - b) <= tol):
            raise Violation('prediction-depends-on-request', what)

    def vars_snapshot():
        return sut.snapshot({k: v for k, v in vars(m).items() if isinstance(v, (jax.Array, dict, float, int)) and k not in ('yhat_train', 'yhat_train_mean', '_x_train_fmt')})

    base = verify(m.predict(F.make(X)), X, 'training points')
    if sc['x_test']:
        a = verify(m.yhat_test, xt, 'yhat_test')
        if not sut.same_bits(a, m.predict(F.make(xt))):
            raise Violation('prediction-repeat', 'yhat_test differs from predict(x_test)')
        if kw['ndpost'] and not np.allclose(m.yhat_test_mean, a.mean(axis=0), rtol=1e-5, atol=1e-5 * (np.abs(a).max(initial=0) + 1e-30)):
            raise Violation('prediction-mean', 'yhat_test_mean')
    memo = {}

    def request(Xr, what):
        Xr = np.ascontiguousarray(Xr)
        arg = F.make(Xr, None if g.random() < 0.5 else g.permutation(Xr.shape[1]))
        keep = Xr.copy()
        a = verify(m.predict(arg), Xr, what)
        if not np.array_equal(keep, Xr) or (sc['frame'] and not np.array_equal(arg.to_numpy().T, keep)):
            raise Violation('input-modified', what)
        ident = (Xr.dtype.name, Xr.shape, Xr.tobytes())
        if ident in memo and memo[ident] != a.tobytes():
            raise Violation('prediction-repeat', f'{what}: repeated request gives other values')
        memo[ident] = a.tobytes()
        return a

    for pos, op in enumerate(sc['ops']):
        rec.count(f'op:{op}')
        what = f'request {pos} ({op})'
        if op == 'train':
            a = m.yhat_train
            if not sut.same_bits(a, base):
                raise Violation('train-prediction', f'{what}: yhat_train is not predict(x_train)')
            if not sut.same_bits(a, m.yhat_train):
                raise Violation('prediction-repeat', what)
        elif op == 'train_mean':
            if kw['ndpost']:
                a = np.array(m.yhat_train_mean)
                if a.shape != (n,) or not np.allclose(a, base.mean(axis=0), rtol=1e-5, atol=1e-5 * (np.abs(base).max(initial=0) + 1e-30)):
                    raise Violation('prediction-mean', f'{what}: {a.shape}')
        elif op == 'train_request':
            if not sut.same_bits(m.predict(F.make(X)), base):
                raise Violation('prediction-repeat', what)
        elif op in ('subset', 'permuted', 'single', 'duplicated') and n:
            ids = dict(subset=g.permutation(n)[:max(1, n // 3)], permuted=g.permutation(n), single=g.integers(0, n, 1),
                       duplicated=g.integers(0, n, n + 3))[op]
            a = request(X[:, ids], what)
            close(a, base[:, ids], X[:, ids], what)
        elif op == 'empty':
            request(X[:, :0], what)
        elif op == 'fresh':
            request((g.normal(size=(p, g.integers(1, 9))) * 3 * (1 + (X.std() if n else 0))).astype(np.float32), what)
        elif op == 'like_train':
            # another array of the size of the training one, before and after a request for it
            if g.random() < 0.5:
                m.predict(F.make(X))
            request((X + g.normal(size=X.shape)).astype(np.float32), what)
            request(X[:, ::-1], what)
        elif op == 'many':
            # many points, in one request and in parts
            cap = max(1, int(4e6 / max(1, kw['ndpost'] * (c['ntree'] + 1) * max(1, kw['maxdepth']))))
            q = int(min(cap, g.choice([100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2049, 5001])))
            Z = (g.normal(size=(p, q)) * 2 * (1 + (X.std() if n else 0))).astype(np.float32)
            a = request(Z, what)
            i = int(g.integers(0, q + 1))
            close(np.concatenate([request(Z[:, :i], what), request(Z[:, i:], what)], axis=1), a, Z, what + ' in two parts')
        elif op == 'float64':
            request(g.normal(size=(p, 4)).astype(np.float32).astype(np.float64), what)
        elif op == 'boundary':
            # cutpoints and their neighbours
            k = 8
            cut = np.stack([g.choice(s, k) for s in splits]).astype(np.float32) if splits.shape[1] else np.zeros((p, k), np.float32)
            cut = np.where(np.abs(cut) < 1e37, cut, 0).astype(np.float32)
            mv = g.integers(-1, 2, cut.shape)
            q = np.where(mv < 0, np.nextafter(cut, np.float32(-np.inf)), np.where(mv > 0, np.nextafter(cut, np.float32(np.inf)), cut))
            tiny = np.finfo(np.float32).tiny
            q = np.where(np.abs(q) < tiny, 0, q)  # XLA flushes subnormals
            request(q.astype(np.float32), what)
        elif op == 'wide':
            request(g.choice(np.array([-1e30, -1e5, 0, 1e5, 1e30], np.float32), size=(p, 5)), what)
        elif op == 'bad':
            before = vars_snapshot()
            Xb = X if n else g.normal(size=(p, 3)).astype(np.float32)
            bads = []
            cols = F.columns
            if sc['frame']:
                bads.append(('array for a model of data frames', Xb))
                bads.append(('missing column', F.frame(Xb[:-1], cols[:-1])))
                bads.append(('renamed column', F.frame(Xb, cols[:-1] + ['other'])))
                bads.append(('additional column', F.frame(np.concatenate([Xb, Xb[:1]]), cols + ['other'])))
                if p > 1:
                    bads.append(('reordered columns', F.frame(Xb[::-1], cols[::-1])))
            else:
                bads.append(('data frame for a model of arrays', F.frame(Xb)))
                bads.append(('missing predictor', Xb[:-1]))
                bads.append(('additional predictor', np.concatenate([Xb, Xb[:1]])))
                if p > 1:
                    bads.append(('one dimensional array', Xb[:, 0]))
            for name, arg in bads:
                try:
                    out = m.predict(arg)
                except Exception:
                    rec.fault(f'mismatching request: {name}')
                else:
                    raise Violation('bad-request-accepted', f'{what}: {name}: returned shape {np.shape(out)}')
            d = sut.diff_snap(before, vars_snapshot())
            if d:
                raise Violation('bad-request-side-effect', f'{what}: {d[:4]}')
        elif op == 'buffer':
            # the caller reuses the same object for another request
            arg = F.make(g.normal(size=(p, 5)).astype(np.float32) * 2)
            for _ in range(2):
                new = (g.normal(size=(p, 5)) * 2 * (1 + (X.std() if n else 0))).astype(np.float32)
                if sc['frame']:
                    for j in range(p):
                        arg.isetitem(j, new[j])
                else:
                    arg[:] = new
                verify(m.predict(arg), new, what)
            rec.fault('request object modified and used again')
        elif op == 'scribble':
            # the caller overwrites the arrays used for training
            jax.block_until_ready(sut.find_state(m))
            if sc['frame']:
                for j in range(p):
                    own.isetitem(j, np.full(n, 7, np.float32))
            else:
                own[:] = 7
            verify(m.yhat_train, X, what)
            # the same object as in the training, now with other content
            verify(m.predict(own), np.full((p, n), 7, np.float32), what)
            rec.fault('training data overwritten by the caller')
        elif op == 'pickle':
            m = pickle.loads(pickle.dumps(m))
            rec.fault('crash and restore from serialized model')
        elif op == 'clear_caches':
            jax.clear_caches()
            rec.fault('loss of compilation caches')
        elif op == 'copy_frame' and sc['frame']:
            # same content in another frame: other index, other storage order
            df = F.pd.DataFrame({k: np.array(x) for k, x in zip(F.columns, X)}, index=np.arange(n)[::-1]) if n else F.frame(X)
            if not sut.same_bits(m.predict(df), base):
                raise Violation('prediction-repeat', what)
    if not sut.same_bits(m.yhat_train, base):
        raise Violation('train-prediction', 'yhat_train at the end of the session')
    rec.sample = dict(points=n, forest_nodes=int((trace['split_trees'] != 0).sum()))
