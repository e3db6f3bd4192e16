"""Reference Metropolis-Hastings kernel of one tree (float64)."""

import numpy as np

from . import model


def log_lk(sl, nl, sr, nr, sigma2, ntree):
    """log marginal likelihood ratio of splitting a leaf in two"""
    sm = 1.0 / ntree
    st, nt = sl + sr, nl + nr
    vl, vr, vt = sigma2 + nl * sm, sigma2 + nr * sm, sigma2 + nt * sm
    return 0.5 * np.log(sigma2 * vt / (vl * vr)) + sm / (2 * sigma2) * (sl * sl / vl + sr * sr / vr - st * st / vt)


class TreeKernel:
    """All the moves possible from one tree of a state."""

    def __init__(self, view, t, rules_limit=None):
        s = view.s
        self.view, self.t = view, t
        self.ntree = view.ntree
        self.sigma2 = float(s['sigma2'])
        pn = s['p_nonterminal'].astype(np.float64)
        self.pn = pn
        H = view.H
        self.minp = None if s['min_points_per_leaf'] is None else int(s['min_points_per_leaf'])
        ms = s['max_split'].astype(np.int64)
        X = s['X'].astype(np.int64)
        var, split = view.var[t], view.split[t]
        idx = view.idx[t]
        grow_leaves = np.flatnonzero(view.growable[t])
        prunable = np.flatnonzero(view.prunable[t])
        weight = np.array([pn[model.depth_of(k)] for k in grow_leaves])
        self.G = len(grow_leaves)
        self.P = len(prunable)
        self.has_rules = True
        self.p_grow = 0.0 if not self.G else (0.5 if self.P else 1.0)
        self.p_prune = 0.0 if not self.P else (0.5 if self.G else 1.0)
        root = not view.dec[t, 1] if H > 1 else True
        wsum = weight.sum()
        moves = []  # (kind, node, var, split, proposal prob, log trans prior, left mask, right mask)
        nprun = self.P
        for k, w in zip(grow_leaves.tolist(), weight):
            members = idx == k
            rules = model.available_rules(var, split, k, ms)
            if not rules:
                self.has_rules = False
                continue
            dep = model.depth_of(k)
            # prunable nodes after growing: k itself, minus the parent if it was one
            par = k >> 1
            np_new = nprun + 1 - (1 if par and view.prunable[t, par] else 0)
            prior = pn[dep] * (1 - pn[dep + 1]) ** 2 / (1 - pn[dep]) if pn[dep] < 1 else np.inf
            pg = 1.0 if root else 0.5
            base = prior / np_new / (pg * (w / wsum)) if wsum > 0 and w > 0 else np.nan
            for j, (l, r) in rules.items():
                x = X[j]
                for c in range(l, r):
                    right = members & (x >= c)
                    left = members & (x < c)
                    nl, nr = int(left.sum()), int(right.sum())
                    others = self.G >= 2
                    kids = k < H // 2
                    if self.minp is not None:
                        kids = kids and (nl >= 2 * self.minp or nr >= 2 * self.minp)
                    pp = 0.5 if (others or kids) else 1.0
                    ok = self.minp is None or (nl >= self.minp and nr >= self.minp)
                    q = self.p_grow * (w / wsum if wsum > 0 else 0) / len(rules) / (r - l)
                    moves.append(('grow', k, j, c, q, np.log(base * pp), left, right, ok))
        for k in prunable.tolist():
            left, right = idx == 2 * k, idx == 2 * k + 1
            dep = model.depth_of(k)
            # the tree after pruning
            growable = set(grow_leaves.tolist()) - {2 * k, 2 * k + 1} | {k}
            w2 = {g: pn[model.depth_of(g)] for g in growable}
            ws2 = sum(w2.values())
            pg = 1.0 if k == 1 else 0.5
            prior = pn[dep] * (1 - pn[dep + 1]) ** 2 / (1 - pn[dep]) if pn[dep] < 1 else np.inf
            pp = 0.5 if self.G else 1.0
            with np.errstate(all='ignore'):
                tp = np.log(np.float64(prior) / nprun / (pg * (w2[k] / ws2)) * pp)
            moves.append(('prune', k, -1, -1, self.p_prune / self.P, tp, left, right, True))
        self.moves = moves
        n = X.shape[1]
        M = len(moves)
        self.kind = np.array([m[0] == 'grow' for m in moves], bool)
        self.node = np.array([m[1] for m in moves], int)
        self.mvar = np.array([m[2] for m in moves], int)
        self.mspl = np.array([m[3] for m in moves], int)
        self.q = np.array([m[4] for m in moves], float)
        self.tp = np.array([m[5] for m in moves], float)
        self.L = np.array([m[6] for m in moves], float).reshape(M, n)
        self.R = np.array([m[7] for m in moves], float).reshape(M, n)
        self.ok = np.array([m[8] for m in moves], bool)

    def lk(self, R):
        """R (..., n) partial residuals -> (..., M) log likelihood ratios"""
        sl = R @ self.L.T
        sr = R @ self.R.T
        return log_lk(sl, self.L.sum(1), sr, self.R.sum(1), self.sigma2, self.ntree)

    def probs(self, R):
        """probability of each move being made, (..., M)"""
        lr = self.tp + self.lk(R)
        lr = np.where(self.kind, lr, -lr)
        return np.where(self.ok, self.q * np.exp(np.minimum(0, lr)), 0.0)


def partial_residuals(a_values, b_values, y):
    """
    Residuals seen by each tree in the sequential update: old values a, new
    values b, (..., T, n) -> (..., T, n)
    """
    y = np.asarray(y, np.float64)
    total_old = a_values.sum(axis=-2, keepdims=True)
    done_old = np.cumsum(a_values, axis=-2) - a_values
    done_new = np.cumsum(b_values, axis=-2) - b_values
    return y - (total_old - done_old + done_new - a_values)
