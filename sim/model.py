"""Reference model of the forest and of the sampler, numpy float64."""

import numpy as np

from .core import Violation


def route(X, var, split):
    """
    Leaf index of each datapoint in each tree. X (p, n); var, split (..., H).
    Left iff x < split. Returns (..., n) int64.
    """
    X = np.asarray(X)
    n = X.shape[1]
    H = split.shape[-1]
    lead = split.shape[:-1]
    s = split.reshape(-1, H).astype(np.int64)
    v = var.reshape(-1, H).astype(np.int64)
    T = s.shape[0]
    idx = np.ones((T, n), np.int64)
    rows = np.arange(T)[:, None]
    cols = np.arange(n)[None, :]
    X64 = X.astype(np.int64)
    pmax = max(0, X.shape[0] - 1)
    k = 1
    while k < H:
        ii = np.minimum(idx, H - 1)
        sp = s[rows, ii]
        active = (idx < H) & (sp != 0)
        if not active.any():
            break
        x = X64[np.minimum(v[rows, ii], pmax), cols]
        idx = np.where(active, 2 * idx + (x >= sp), idx)
        k *= 2
    return idx.reshape(*lead, n)


def decision_mask(split):
    """decision nodes reachable from the root (..., H)"""
    H = split.shape[-1]
    m = split != 0
    m[..., 0] = False
    w = 2
    while w < H:
        m[..., w:2 * w] &= np.repeat(m[..., w // 2:w], 2, axis=-1)
        w *= 2
    return m


def leaf_mask(split, dec=None):
    """actual leaves, bottom level included (..., 2H)"""
    if dec is None:
        dec = decision_mask(split)
    H = split.shape[-1]
    out = np.zeros(split.shape[:-1] + (2 * H,), bool)
    out[..., 1] = True
    out[..., 2:] = np.repeat(dec[..., 1:], 2, axis=-1)
    out[..., :H] &= ~dec
    return out


def prunable_mask(dec):
    """decision nodes with two leaf children (..., H)"""
    H = dec.shape[-1]
    out = dec.copy()
    if H > 2:
        h = H // 2
        k = np.arange(h)
        out[..., :h] &= ~(dec[..., 2 * k] | dec[..., 2 * k + 1])
    out[..., 0] = False
    return out


def counts(idx, size):
    """datapoints in each node; idx (T, n) -> (T, size)"""
    T = idx.shape[0]
    out = np.zeros((T, size), np.int64)
    for t in range(T):
        out[t] = np.bincount(idx[t], minlength=size)[:size]
    return out


def node_range(var, split, node, j, max_split):
    """cutpoints [l, r) left open for predictor j at a node of one tree"""
    l, r = 1, int(max_split[j]) + 1
    k = node
    while k > 1:
        side, k = k & 1, k >> 1
        if int(var[k]) == j:
            s = int(split[k])
            if side:
                l = max(l, s + 1)
            else:
                r = min(r, s)
    return l, r


def available_rules(var, split, node, max_split):
    """{predictor: (l, r)} with r > l at a node"""
    out = {}
    for j in range(len(max_split)):
        l, r = node_range(var, split, node, j, max_split)
        if r > l:
            out[j] = (l, r)
    return out


def forest_values(leaf, idx):
    """values of each tree at each datapoint, float64 (T, n)"""
    T = leaf.shape[0]
    return leaf.astype(np.float64)[np.arange(T)[:, None], idx]


def depth_of(node):
    return int(node).bit_length() - 1


# ------------------------------------------------------------ state invariants

def check_structure(s, where):
    """C02 on arrays with any leading axes"""
    leaf, var, split = s['leaf_trees'], s['var_trees'], s['split_trees']
    ms = s['max_split'].astype(np.int64)
    p = ms.size
    H = split.shape[-1]
    if leaf.shape != split.shape[:-1] + (2 * H,) or var.shape != split.shape:
        raise Violation('tree-shapes', f'{where}: {leaf.shape} {var.shape} {split.shape}')
    if not np.all(np.isfinite(leaf.astype(np.float64))):
        raise Violation('leaf-not-finite', f'{where}: {np.argwhere(~np.isfinite(leaf))[:3].tolist()}')
    if np.any(split[..., 0] != 0) or np.any(var[..., 0] != 0):
        raise Violation('unused-slot', f'{where}: nonzero unused slot')
    nz = split != 0
    k = np.arange(H)
    if H > 2:
        stray = nz[..., 2:] & ~nz[..., k[2:] >> 1]
        if stray.any():
            raise Violation('stray-node', f'{where}: decision node below a leaf at {np.argwhere(stray)[:3].tolist()} (index - 2)')
    if H < 2:
        return 0
    v, c = var.astype(np.int64), split.astype(np.int64)
    if np.any(nz & (v >= p)):
        raise Violation('bad-variable', f'{where}: predictor out of range')
    vv = np.minimum(v, p - 1)
    over = nz & ((c < 1) | (c > ms[vv]))
    if over.any():
        i = tuple(np.argwhere(over)[0])
        raise Violation('cutpoint-range', f'{where}: node {i} var {v[i]} split {c[i]} max_split {ms[vv[i]]}')
    anc, side = k >> 1, k & 1
    while np.any(anc > 0):
        ok = anc > 0
        a = np.where(ok, anc, 0)
        same = nz & ok & (v[..., a] == v) & nz[..., a]
        bad = same & np.where(side.astype(bool), c <= c[..., a], c >= c[..., a])
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            j = i[:-1] + (int(a[i[-1]]),)
            raise Violation('dead-branch', f'{where}: node {i} (var {v[i]}, split {c[i]}) contradicts ancestor {j} (split {c[j]})')
        side, anc = anc & 1, anc >> 1
    return int(nz.sum())


def check_dtypes(s, s0, where):
    for k, a in s.items():
        b = s0.get(k)
        if isinstance(a, dict):
            continue
        if (a is None) != (b is None):
            raise Violation('field-presence', f'{where}: {k} appeared or disappeared')
        if a is not None and (a.dtype != b.dtype or a.shape != b.shape):
            raise Violation('dtype-shape', f'{where}: {k} {b.dtype}{b.shape} -> {a.dtype}{a.shape}')


class View:
    """Derived quantities of a state, computed once."""

    def __init__(self, s):
        self.s = s
        self.var, self.split, self.leaf = s['var_trees'], s['split_trees'], s['leaf_trees']
        self.H = self.split.shape[-1]
        self.ntree = self.split.shape[0]

    def __getattr__(self, name):
        f = getattr(View, '_' + name)
        v = f(self)
        self.__dict__[name] = v
        return v

    def _dec(self):
        return decision_mask(self.split)

    def _leaves(self):
        return leaf_mask(self.split, self.dec)

    def _prunable(self):
        return prunable_mask(self.dec)

    def _idx(self):
        return route(self.s['X'], self.var, self.split)

    def _cnt(self):
        return counts(self.idx, 2 * self.H)

    def _values(self):
        return forest_values(self.leaf, self.idx)

    def _growable(self):
        """leaves not on the bottom level holding enough points (T, H)"""
        g = self.leaves[:, :self.H].copy()
        m = self.s['min_points_per_leaf']
        if m is not None:
            g &= self.cnt[:, :self.H] >= 2 * int(m)
        g[:, 0] = False
        return g


def moves_between(a, b):
    """
    Classify the change of each tree between two views. Returns list of
    (kind, node) with kind in 'same', 'grow', 'prune'; raises if it is none.
    """
    out = [('same', 0)] * a.ntree
    da, db = a.dec, b.dec
    both = da & db
    diff = both & ((a.var != b.var) | (a.split != b.split))
    if diff.any():
        t, k = np.argwhere(diff)[0]
        raise Violation('rule-changed', f'tree {t} node {k}: ({a.var[t, k]}, {a.split[t, k]}) -> ({b.var[t, k]}, {b.split[t, k]})')
    changed = da != db
    for t in np.flatnonzero(changed.any(axis=1)):
        ks = np.flatnonzero(changed[t])
        if len(ks) != 1:
            raise Violation('many-nodes-changed', f'tree {t}: nodes {ks.tolist()}')
        k = int(ks[0])
        if db[t, k]:
            if not a.leaves[t, k]:
                raise Violation('grow-not-leaf', f'tree {t} node {k}')
            out[t] = ('grow', k)
        else:
            if not a.prunable[t, k]:
                raise Violation('prune-not-leaf-parent', f'tree {t} node {k}')
            out[t] = ('prune', k)
    return out
