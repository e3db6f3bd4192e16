"""C08 noise variance is a posterior draw."""

from .. import config, history
from ..core import Violation

RUNS = dict(quick=55, thorough=1000)
RULE = ('chains: histories of many chains; fan: many entropy streams from one reached state; gbart: reported sigma of whole fits. '
        'Each sigma2 is mapped to a uniform by the exact conditional law given the residuals of the new state. '
        'distinct_nontrivial counts distinct (prior, n, forest) contexts from which draws were tested')
ASSUMPTIONS = ['tests at 1e-10 significance each']


def generate(r, tier, i):
    kind = config.pick(r, (3, 'chains'), (2, 'fan'), (2, 'gbart'))
    c = config.gen_problem(r, n=r.choice([0, 1, 2, 3, 5, 10, 31, 60, 200, 1000]), small=True, tame=True)
    c['d'] = min(c['d'], 6)
    c['pnt'] = c['pnt'][:c['d'] - 1]
    c['ntree'] = min(c['ntree'], 20)
    ent = dict(kind=r.choice(['threefry', 'hash']), seed=r.randrange(2 ** 31))
    if kind == 'gbart':
        sc = history.generate_gbart(r, c)
        sc['entropy'] = ent
        sc['kind'] = kind
        sc['yaffine'] = [r.choice([1.0, 0.01, 100.0]), r.choice([0.0, 5.0, -300.0])]
        return sc
    return dict(kind=kind, mode='vmap', problem=c, lanes=40 if tier == 'quick' else 100, steps=r.choice([60, 120]),
                warm=r.choice([0, 1, 10, 40]), keys=6000, entropy=ent, events=[])


def shrink(sc):
    if sc['kind'] == 'gbart':
        yield from history.shrink(sc)
        return
    for c in config.shrink_problem(sc['problem']):
        yield dict(sc, problem=c)
    for k in (0, 1):
        if k < sc['warm']:
            yield dict(sc, warm=k)


def pit(sigma2, resid, alpha, beta):
    """standard normal scores of draws; resid (..., n)"""
    import numpy as np
    from scipy import special
    n = resid.shape[-1]
    a = float(alpha) + n / 2
    b = float(beta) + (resid.astype(np.float64) ** 2).sum(axis=-1) / 2
    s2 = sigma2.astype(np.float64)
    if not np.all(np.isfinite(s2)) or np.any(s2 <= 0):
        raise Violation('sigma2-not-positive', f'{s2[~(np.isfinite(s2) & (s2 > 0))][:3]}')
    x = b / s2
    u, v = special.gammainc(a, x), special.gammaincc(a, x)
    return np.where(u < 0.5, special.ndtri(u), -special.ndtri(v))


def run(sc, rec):
    rec.count(f'kind:{sc["kind"]}')
    if sc['kind'] == 'gbart':
        return run_gbart(sc, rec)
    import numpy as np
    from .. import stats, sut
    jax, jnp, random = sut.jax, sut.jnp, sut.random
    c = sc['problem']
    state = sut.make_state(c)
    key = sut.make_key(sc['entropy'], rec)
    alpha, beta = float(state['sigma2_alpha']), float(state['sigma2_beta'])
    if not (np.isclose(alpha, c['alpha'], rtol=1e-6) and np.isclose(beta, c['beta'] * c['yscale'] ** 2, rtol=1e-6)):
        raise Violation('prior-parameters', f'{alpha} {beta}')
    text = f'n={c["n"]} alpha={alpha} beta={beta}'
    if sc['kind'] == 'chains':
        L = sc['lanes']
        state = jax.tree_util.tree_map(lambda x: jnp.stack([x] * L), state)
        step = jax.jit(jax.vmap(sut.mcmcstep.step))
        zs, last = [], None
        for i in range(sc['steps']):
            state = step(state, random.split(random.fold_in(key, i), L))
            rec.step(L)
            s2, r = np.array(state['sigma2']), np.array(state['resid'])
            zs.append(pit(s2, r, alpha, beta))
            rec.log(s2.tobytes())
        z = np.array(zs)
        stats.normal_suite(z, 'sigma-draws', text)
        stats.uncorrelated(z[1:], z[:-1], 'sigma-dependence', f'{text}: consecutive steps')
        stats.uncorrelated(z[:, 1:], z[:, :-1], 'sigma-dependence', f'{text}: neighbouring chains')
        sp = np.array(state['split_trees'])
        for l in range(L):
            rec.seen(c['n'], alpha, beta, sp[l].tobytes())
    else:
        step = jax.jit(sut.mcmcstep.step)
        for i in range(sc['warm']):
            state = step(state, random.fold_in(key, i))
        def one(s, k):
            s = sut.mcmcstep.step(s, k)
            return s['sigma2'], s['resid'], s['leaf_trees'][0, 1]
        fan = jax.jit(jax.vmap(one, in_axes=(None, 0)))
        s2, r, l = map(np.array, fan(state, random.split(random.fold_in(key, 10 ** 6), sc['keys'])))
        rec.step(sc['keys'])
        z = pit(s2, r, alpha, beta)
        stats.normal_suite(z, 'sigma-draws', text)
        # independent of the tree update of the same step
        if c['n'] == 0:
            stats.uncorrelated(z, (l - l.mean()) / max(l.std(), 1e-30), 'sigma-dependence', f'{text}: leaf of the same step')
        sig = jax.jit(jax.vmap(lambda s, k: sut.mcmcstep.sample_sigma(s, k)['sigma2'], in_axes=(None, 0)))
        s2 = np.array(sig(state, random.split(random.fold_in(key, 10 ** 6 + 1), 10 * sc['keys'])))
        z = pit(s2, np.array(state['resid']), alpha, beta)
        stats.normal_suite(z, 'sigma-draws', text + ' (sample_sigma)')
        rec.seen(c['n'], alpha, beta, np.array(state['split_trees']).tobytes())
        rec.log(s2.tobytes())
    rec.count('draws', z.size)
    rec.sample = dict(draws=int(z.size), mean=float(z.mean()), var=float(z.var()))


def run_gbart(sc, rec):
    import numpy as np
    from .. import sut
    c, kw = sc['problem'], dict(sc['kw'])
    X, y = history.gbart_data(c)
    y = y * np.float32(sc['yaffine'][0]) + np.float32(sc['yaffine'][1])
    if y.size >= 2 and np.ptp(y) == 0:
        y[0] += abs(y[0]) * 0.1 + 1
    with sut.capture_run() as cap:
        m = sut.fit(X, y, seed=sut.make_key(sc['entropy'], rec), printevery=10 ** 6,
                    initkw=dict(sc['init'], resid_batch_size=c['rbs'], count_batch_size=c['cbs']), **kw)
    sigma, first = np.array(m.sigma), np.array(m.first_sigma)
    if sigma.shape != (kw['ndpost'],) or first.shape != (kw['nskip'],):
        raise Violation('sigma-shape', f'{sigma.shape} {first.shape}')
    for v in (sigma, first):
        if not (np.all(np.isfinite(v)) and np.all(v > 0)):
            raise Violation('sigma-not-positive', str(v))
    scale = float(m.scale)
    st = sut.find_state(m)
    if kw['ndpost']:
        e = scale * np.sqrt(float(st['sigma2']))
        if not np.isclose(sigma[-1], e, rtol=1e-4):
            raise Violation('sigma-final', f'last sigma {sigma[-1]}, final state {e}')
    # the units: scale is half the range over k
    if y.size >= 2:
        e = (y.max() - y.min()) / (2 * kw['k'])
        if not np.isclose(scale, e, rtol=1e-5):
            raise Violation('scale', f'{scale} vs {e}')
    if cap.out is None:
        rec.count('capture_missed')
        return
    _, burn, main = cap.out
    for got, tr, name in ((sigma, main, 'sigma'), (first, burn, 'first_sigma')):
        e = scale * np.sqrt(np.array(tr['sigma2'], np.float64))
        if not np.allclose(got, e, rtol=1e-4):
            raise Violation('sigma-units', f'{name}: {got[:4]} expected {e[:4]}')
    # each iteration of the chain again, with all its states
    states = {}
    def record(i, sigma2, resid):
        states[int(i)] = (float(sigma2), np.array(resid))
    def callback(*, bart, i_total, **kw):
        sut.jax.debug.callback(record, i_total, bart['sigma2'], bart['resid'])
    n_burn, n_save, n_skip, key = cap.args[0], cap.args[1], cap.args[2], cap.args[-1]
    out = sut.mcmcloop.run_mcmc(cap.init, n_burn, n_save, n_skip, callback, key)
    sut.jax.block_until_ready(out)
    sut.jax.effects_barrier()
    n = kw['nskip'] + kw['ndpost'] * kw['keepevery']
    rec.step(n)
    z = [pit(np.array(states[i][0]), states[i][1], cap.init['sigma2_alpha'], cap.init['sigma2_beta']) for i in range(n)]
    from .. import stats
    stats.normal_suite(np.array(z), 'sigma-draws', f'iterations of gbart, n={c["n"]}', minimum=20)
    idx = [kw['nskip'] + (j + 1) * kw['keepevery'] - 1 for j in range(kw['ndpost'])]
    for got, ids, name in ((sigma, idx, 'sigma'), (first, range(kw['nskip']), 'first_sigma')):
        e = np.array([scale * states[i][0] ** .5 for i in ids])
        # the first iterations suffice to tell which iteration is reported (no chaos yet)
        k = min(len(e), 3) if name == 'first_sigma' or kw['nskip'] == 0 else 0
        if not np.allclose(got[:k], e[:k], rtol=1e-3):
            rec.count('first_iterations_differ')
            if np.sum(~np.isclose(got, e, rtol=1e-3)) > 0.8 * len(e) and n > 4:
                raise Violation('sigma-iteration', f'{name}: {got[:5]} expected {e[:5]}')
    rec.seen(c['n'], float(cap.init['sigma2_alpha']), float(cap.init['sigma2_beta']), np.array(main['split_trees']).tobytes())
    rec.count('fits')
    rec.log(sigma.tobytes(), first.tobytes())
