"""Everything that touches jax and bartz; imported only inside workers."""

import copy
import functools
import io
import pickle

import jax
import numpy as np
from jax import numpy as jnp
from jax import random

from . import core, instrument

instrument.control_locks()

import bartz
from bartz import BART, debug, grove, jaxext, mcmcloop, mcmcstep, prepcovars

# --------------------------------------------------------------- entropy seam

from jax.extend.random import define_prng_impl


def _mix(x):
    """finalizer of murmur3"""
    x = x ^ (x >> 16)
    x = x * jnp.uint32(0x85ebca6b)
    x = x ^ (x >> 13)
    x = x * jnp.uint32(0xc2b2ae35)
    return x ^ (x >> 16)


def _words(key, shape, salt):
    size = int(np.prod(shape)) if shape else 1
    i = jnp.arange(size, dtype=jnp.uint32)
    a = _mix(i * jnp.uint32(0x9e3779b1) + key[0] + jnp.uint32(salt))
    b = _mix(a ^ (key[1] + jnp.uint32(0x7f4a7c15)) + i)
    return (_mix(b + key[0] * jnp.uint32(0x2545f491))).reshape(shape)


_impls = {}


def make_impl(ones=0.0, zeros=0.0, sticky=0.0):
    """
    A random number generator under the control of the simulator. Besides
    plain words it emits saturated (all ones), null, or repeated words with the
    given probabilities: each of these is a legal outcome of a true random
    source, merely one that ordinary runs never meet.
    """
    ident = (ones, zeros, sticky)
    if ident in _impls:
        return _impls[ident]

    def seed(s):
        s = jnp.asarray(s)
        s = s.astype(jnp.uint32)
        return jnp.stack([_mix(s + jnp.uint32(0x1234567)), _mix(s ^ jnp.uint32(0xdeadbeef))])

    def fold_in(key, data):
        w = _mix(jnp.asarray(data).astype(jnp.uint32) + jnp.uint32(0x51ed270b))
        return jnp.stack([_mix(key[0] ^ w), _mix(key[1] + w)])

    def split(key, shape):
        return _words(key, tuple(shape) + (2,), 0x1000193)

    def random_bits(key, bit_width, shape):
        nw = max(1, bit_width // 32)
        wshape = tuple(shape) + ((nw,) if nw > 1 else ())
        w = _words(key, wshape, 0x811c9dc5)
        if ones or zeros or sticky:
            u = _words(key, wshape, 0x3ade68b1)
            lim = lambda q: jnp.uint32(min(2 ** 32 - 1, int(q * 2 ** 32)))
            if sticky:
                first = jnp.broadcast_to(_mix(key[0] ^ key[1]), wshape)
                w = jnp.where(u < lim(ones + zeros + sticky), first, w)
            if zeros:
                w = jnp.where(u < lim(ones + zeros), jnp.uint32(0), w)
            if ones:
                w = jnp.where(u < lim(ones), jnp.uint32(0xffffffff), w)
        if nw > 1:
            w = w.astype(jnp.uint64)
            return (w[..., 0] << 32) | w[..., 1]
        dt = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32}[bit_width]
        return (w >> (32 - bit_width)).astype(dt) if bit_width < 32 else w

    impl = define_prng_impl(
        key_shape=(2,), seed=seed, split=split, random_bits=random_bits, fold_in=fold_in,
        name=f'sim_{ones}_{zeros}_{sticky}', tag=f'sim{len(_impls)}',
    )
    _impls[ident] = impl
    return impl


def make_key(ent, rec=None):
    if ent['kind'] == 'threefry':
        return random.key(ent['seed'])
    if ent['kind'] == 'hash':
        return random.key(ent['seed'], impl=make_impl())
    if rec is not None:
        for k in ('ones', 'zeros', 'sticky'):
            if ent[k]:
                rec.fault(f'entropy:{k} (streams)')
    return random.key(ent['seed'], impl=make_impl(ent['ones'], ent['zeros'], ent['sticky']))


# ------------------------------------------------------------------- problems

def make_data(c):
    """numpy arrays from a configuration"""
    g = np.random.Generator(np.random.PCG64(c['data_seed']))
    n, p = c['n'], c['p']
    cuts = c['cuts']
    if cuts == 'few':
        ms, dt = g.integers(1, 4, p), np.uint8
    elif cuts == 'mid':
        ms, dt = g.integers(5, 100, p), np.uint8
    elif cuts == 'u8max':
        ms, dt = g.integers(253, 256, p), np.uint8
    elif cuts == 'u16':
        ms, dt = g.choice([255, 256, 257, 1000, 65534, 65535], p), np.uint16
    elif cuts == 'u32':
        ms, dt = g.choice([65536, 65537, 2 ** 20], p), np.uint32
    elif cuts == 'zeros':
        ms, dt = g.integers(0, 4, p), np.uint8
        if not ms.any():
            ms[g.integers(p)] = 3
    elif cuts == 'many':
        ms, dt = g.integers(20, 60, p), np.uint8
    else:
        ms, dt = g.choice([1, 2, 3, 10, 100, 254, 255], p), np.uint8
    ms = ms.astype(dt)
    X = np.empty((p, n), dt)
    for j in range(p):
        kind = c['xkind']
        if kind == 'mixed':
            kind = g.choice(['uniform', 'extremes', 'lumpy', 'constant'])
        m = int(ms[j])
        if kind == 'uniform':
            x = g.integers(0, m + 1, n)
        elif kind == 'extremes':
            x = g.choice([0, m], n)
        elif kind == 'lumpy':
            x = g.choice(g.integers(0, m + 1, 2), n)
        else:
            x = np.full(n, g.integers(0, m + 1))
        X[j] = x
    if c['ykind'] == 'normal':
        y = g.normal(size=n)
    elif c['ykind'] == 'constant':
        y = np.full(n, g.normal())
    elif c['ykind'] == 'outlier':
        y = g.normal(size=n)
        if n:
            y[g.integers(n)] = 50
    else:
        y = 0.1 * g.normal(size=n)
        for _ in range(6):
            j = g.integers(p)
            y = y + g.normal() * (X[j] >= g.integers(0, int(ms[j]) + 1))
    y = (y * c['yscale']).astype(np.float32)
    if c.get('small_float') == 'float16':
        y = np.clip(y, -500, 500)
    return X, y, ms


def make_state(c, data=None, **kw):
    X, y, ms = data if data is not None else make_data(c)
    # documented defaults are left to the library
    args = dict(
        X=jnp.array(X), y=jnp.array(y), max_split=jnp.array(ms), num_trees=c['ntree'],
        p_nonterminal=np.array(c['pnt'], np.float32),
        sigma2_alpha=c['alpha'], sigma2_beta=c['beta'] * c['yscale'] ** 2,
        min_points_per_leaf=c['minpts'], resid_batch_size=c['rbs'], count_batch_size=c['cbs'],
        save_ratios=c['ratios'],
    )
    if c.get('small_float', 'float32') != 'float32':
        args['small_float'] = c['small_float']
    args.update(kw)
    state = mcmcstep.init(**args)
    if c.get('plant'):
        state = plant_forest(state, **c['plant'])
    return state


def plant_forest(state, seed, grow):
    """
    Replaces the bare roots of an initial state with random trees, filling in
    all the documented fields that depend on them. Any state made this way
    could be reached by the chain; it gets at once to forests which would
    require a long or lucky history. Node k at depth d is split with
    probability grow[d] if some cutpoint is left and the leaves stay large enough.
    """
    from . import model
    g = np.random.Generator(np.random.PCG64(seed))
    s = to_np(state)
    X, ms = s['X'].astype(np.int64), s['max_split'].astype(np.int64)
    p, n = X.shape
    T, H = s['split_trees'].shape
    minp = 0 if s['min_points_per_leaf'] is None else int(s['min_points_per_leaf'])
    var, spl = np.zeros((T, H), np.int64), np.zeros((T, H), np.int64)
    idx = np.ones((T, n), np.int64)
    favourite = g.integers(0, p, 2) if p else []
    for t in range(T):
        stack = [1]
        while stack:
            k = stack.pop()
            if k >= H or g.random() >= grow[min(model.depth_of(k), len(grow) - 1)]:
                continue
            # insist on few predictors, to use up their cutpoints; or on the last
            u = g.random()
            tries = [int(g.choice(favourite)) if u < 0.4 else p - 1 if u < 0.5 else int(g.integers(p))] + [int(g.integers(p)) for _ in range(3)]
            for j in tries:
                l, r = model.node_range(var[t], spl[t], k, j, ms)
                if r <= l:
                    continue
                c = int(g.integers(l, r))
                here = idx[t] == k
                right = here & (X[j] >= c)
                nr, nl = int(right.sum()), int(here.sum() - right.sum())
                if min(nl, nr) < minp:
                    continue
                var[t, k], spl[t, k] = j, c
                idx[t] = np.where(here, 2 * k + right, idx[t])
                stack += [2 * k, 2 * k + 1]
                break
    dt = s['leaf_trees'].dtype
    leaf = (g.normal(size=(T, 2 * H)) / np.sqrt(T)).astype(dt)
    leaf = np.where(model.leaf_mask(spl), leaf, 0).astype(dt)
    values = model.forest_values(leaf, idx)
    new = dict(
        leaf_trees=leaf, var_trees=var.astype(s['var_trees'].dtype), split_trees=spl.astype(s['split_trees'].dtype),
        leaf_indices=idx.astype(s['leaf_indices'].dtype), resid=(s['y'].astype(np.float64) - values.sum(axis=0)).astype(s['resid'].dtype),
    )
    if s['affluence_trees'] is not None:
        new['affluence_trees'] = model.counts(idx, 2 * H)[:, :H] >= 2 * minp
        new['affluence_trees'][:, 0] = False
    return dict(state, **{k: jnp.asarray(v) for k, v in new.items()})


STATE_FIELDS = (
    'leaf_trees var_trees split_trees resid sigma2 grow_prop_count prune_prop_count grow_acc_count '
    'prune_acc_count p_nonterminal sigma2_alpha sigma2_beta max_split y X leaf_indices '
    'min_points_per_leaf affluence_trees'
).split()


def to_np(state):
    """documented part of a state as numpy arrays (copies)"""
    out = {}
    for k in STATE_FIELDS:
        if k not in state:
            raise core.Violation('missing-field', f'state has no field {k!r}')
        v = state[k]
        out[k] = None if v is None else np.array(v)
    if 'ratios' in state:
        out['ratios'] = {k: np.array(v) for k, v in state['ratios'].items()}
    return out


DYNAMIC = ('leaf_trees', 'var_trees', 'split_trees', 'resid', 'sigma2', 'grow_prop_count', 'prune_prop_count',
           'grow_acc_count', 'prune_acc_count', 'leaf_indices', 'affluence_trees')


def dynamic_np(state, static):
    """as to_np, but reuses the constant fields of `static`"""
    out = dict(static)
    for k in DYNAMIC:
        if k not in state:
            raise core.Violation('missing-field', f'state has no field {k!r}')
        v = state[k]
        out[k] = None if v is None else np.array(v)
    if 'ratios' in state:
        out['ratios'] = {k: np.array(v) for k, v in state['ratios'].items()}
    return out


def leaves_with_path(tree):
    return [(jax.tree_util.keystr(k), v) for k, v in jax.tree_util.tree_leaves_with_path(tree)]


def snapshot(tree):
    """bytes of every array of a pytree; None and LeafDict contents by repr"""
    out = {}
    for k, v in leaves_with_path(tree):
        if hasattr(v, 'dtype') and jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key):
            v = random.key_data(v)
        a = np.asarray(v)
        out[k] = (a.dtype.name, a.shape, a.tobytes())
    out['treedef'] = str(jax.tree_util.tree_structure(tree))
    return out


def diff_snap(a, b, ignore=()):
    keys = set(a) | set(b)
    return sorted(k for k in keys if a.get(k) != b.get(k) and k not in ignore)


# --------------------------------------------------------------------- gbart

class Captured:
    """Arguments and outputs of the run_mcmc call made by gbart."""
    init = out = args = None


class capture_run:
    """
    Seam: gbart reaches the MCMC loop through the module attribute
    `bartz.mcmcloop.run_mcmc`.
    """

    def __enter__(self):
        self.orig = mcmcloop.run_mcmc
        self.cap = cap = Captured()

        def wrapper(bart, *args, **kw):
            cap.init, cap.args, cap.kw = bart, args, kw
            cap.out = self.orig(bart, *args, **kw)
            return cap.out

        mcmcloop.run_mcmc = wrapper
        return cap

    def __exit__(self, *exc):
        mcmcloop.run_mcmc = self.orig


def find_trace(model):
    """main trace of a gbart object, wherever it is kept"""
    if isinstance(getattr(model, '_main_trace', None), dict):
        return model._main_trace
    for v in vars(model).values():
        if isinstance(v, dict) and 'leaf_trees' in v and 'resid' not in v:
            return v
    raise RuntimeError('harness: cannot locate the main trace')


def find_state(model):
    if isinstance(getattr(model, '_mcmc_state', None), dict):
        return model._mcmc_state
    for v in vars(model).values():
        if isinstance(v, dict) and 'resid' in v:
            return v
    raise RuntimeError('harness: cannot locate the final state')


def model_contents(model):
    """what a fitted model holds: public attributes, recorded forests and counters, final state"""
    out = {}
    for k, v in vars(model).items():
        if not k.startswith('_') and isinstance(v, (jax.Array, np.ndarray, int, float)):
            out.update({f'{k}{q}': w for q, w in snapshot(v).items()})
    for name, find in (('trace', find_trace), ('state', find_state)):
        try:
            v = find(model)
        except RuntimeError:
            continue
        out.update({f'{name}{q}': w for q, w in snapshot(v).items() if q != 'treedef'})
    return out


def fit(*args, **kw):
    """gbart with its progress report discarded"""
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        m = BART.gbart(*args, **kw)
        jax.block_until_ready([v for v in vars(m).values() if isinstance(v, (jax.Array, dict))])
    return m


def no_callback(**kw):
    pass


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


# ------------------------------------------------------------------ stub step

class stub_step:
    """
    Replaces mcmcstep.step with a cheap deterministic function of (state, key)
    that changes every dynamic field, so that the loop around it can be
    simulated at thousands of configurations. Used where the property is about
    the loop, never where it is about the step.
    """

    def __init__(self, on=True, forest=False):
        self.on = on
        self.forest = forest
        self.traced = 0
        stub_step.last = self

    @classmethod
    def effective(cls):
        """False if the library does not reach the step through the seam"""
        return cls.last.on and cls.last.traced > 0

    def __enter__(self):
        self.orig = mcmcstep.step
        if self.on:
            mcmcstep.step = self.stub
        return self

    def __exit__(self, *exc):
        mcmcstep.step = self.orig

    def stub(self, bart, key):
        self.traced += 1
        bits = random.bits(key, (8,), jnp.uint32)
        ntree = bart['leaf_trees'].shape[0]
        small = (bits[0] >> 20).astype(bart['leaf_trees'].dtype) / 64
        out = dict(bart)
        out['leaf_trees'] = bart['leaf_trees'] * 0.5 + small
        ms = bart['max_split']
        p = bart['X'].shape[0]
        H = bart['split_trees'].shape[-1]
        idx = jnp.arange(H)
        # a stump or a bare root on a bucketed predictor
        var = (bits[1] % p).astype(bart['var_trees'].dtype)
        spl = jnp.where(ms[var] > 0, bits[2] % jnp.maximum(1, ms[var]) + 1, 0).astype(bart['split_trees'].dtype)
        at_root = (idx == 1) & ((jnp.arange(ntree)[:, None] + bits[3].astype(jnp.int32)) % 2 == 0)
        out['var_trees'] = jnp.where(at_root, var, 0).astype(bart['var_trees'].dtype)
        out['split_trees'] = jnp.where(at_root, spl, 0).astype(bart['split_trees'].dtype)
        if self.forest:
            self.random_forest(out, ms, p, key)
        out['resid'] = bart['resid'] * 0.5 + small.astype(bart['resid'].dtype)
        out['sigma2'] = (bart['sigma2'] * 0.25 + 1 + (bits[4] >> 22).astype(bart['sigma2'].dtype) / 16)
        gp = (bits[5] % (ntree + 1)).astype(jnp.int32)
        pp = ntree - gp
        out['grow_prop_count'] = gp.astype(bart['grow_prop_count'].dtype)
        out['prune_prop_count'] = pp.astype(bart['prune_prop_count'].dtype)
        out['grow_acc_count'] = (bits[6].astype(jnp.int32) & 0xffff) % (gp + 1)
        out['prune_acc_count'] = (bits[7].astype(jnp.int32) & 0xffff) % (pp + 1)
        for k in ('grow_acc_count', 'prune_acc_count'):
            out[k] = out[k].astype(bart[k].dtype)
        if 'ratios' in bart:
            out['ratios'] = {k: jnp.full_like(v, small) for k, v in bart['ratios'].items()}
        return out


def _random_forest(self, out, ms, p, key):
    """random heaps with random rules; only routing matters to the checks using it"""
    ntree, size = out['leaf_trees'].shape
    half = out['split_trees'].shape[-1]
    k1, k2, k3, k4 = random.split(random.fold_in(key, 7), 4)
    b1, b3 = random.bits(k1, (ntree, half), jnp.uint32), random.bits(k3, (ntree, half), jnp.uint32)
    # often the last predictor, trees from sparse to complete
    var = jnp.where(b1 >> 29 == 0, p - 1, b1 % p).astype(out['var_trees'].dtype)
    m = ms[var].astype(jnp.uint32)
    spl = random.bits(k2, (ntree, half), jnp.uint32) % jnp.maximum(1, m) + 1
    dense = 5 + (b3[:, :1] >> 16) % 4
    on = (b3 % 8 < dense) & (m > 0)
    on = on.at[:, 0].set(False)
    lo = 2
    while lo < half:
        on = on.at[:, lo:2 * lo].set(on[:, lo:2 * lo] & jnp.repeat(on[:, lo // 2:lo], 2, axis=1))
        lo *= 2
    out['var_trees'] = jnp.where(on, var, 0).astype(out['var_trees'].dtype)
    out['split_trees'] = jnp.where(on, spl, 0).astype(out['split_trees'].dtype)
    leaf = random.bits(k4, (ntree, size), jnp.uint32).astype(jnp.int32) / 2. ** 31 / float(ntree) ** .5
    out['leaf_trees'] = leaf.at[:, 0].set(0).astype(out['leaf_trees'].dtype)


stub_step.random_forest = _random_forest


def run_loop(state, b, s, k, key, callback=None):
    """run_mcmc, waiting for completion of results and callbacks"""
    out = mcmcloop.run_mcmc(state, b, s, k, callback or no_callback, key)
    out = jax.block_until_ready(out)
    jax.effects_barrier()
    return out
