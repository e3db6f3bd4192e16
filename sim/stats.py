"""Tests with very small false alarm probability."""

import math

import numpy as np
from scipy import special, stats

from .core import Violation

LIMIT = 1e-10


def reject(p, kind, text):
    if not p >= LIMIT:  # nan included
        raise Violation(kind, f'{text}, p = {p:.3g}')


def bernstein(obs, expect, var):
    """bound on P(|obs - expect| >= observed deviation), sums of [0,1] terms"""
    x = abs(obs - expect) - 1e-4 * expect - 0.05
    if x <= 0:
        return 1.0
    return min(1.0, 2 * math.exp(-x * x / (2 * (var + x / 3))))


def normal_suite(z, kind, text, minimum=50):
    """z should be iid standard normal"""
    z = np.asarray(z, float).ravel()
    n = z.size
    if n < minimum:
        return 0
    if not np.all(np.isfinite(z)):
        raise Violation(kind + '-nonfinite', f'{text}: {np.sum(~np.isfinite(z))} of {n} draws give a non-finite standardised value')
    m = z.mean() * math.sqrt(n)
    reject(2 * special.ndtr(-abs(m)), kind + '-mean', f'{text}: mean of {n} standardised draws is {z.mean():.4f}')
    q = float(np.sum(z * z))
    reject(2 * min(stats.chi2.sf(q, n), stats.chi2.cdf(q, n)), kind + '-variance', f'{text}: mean square of {n} standardised draws is {q / n:.4f}')
    if n >= 200:
        ks = stats.kstest(z, 'norm', method='asymp')
        reject(ks.pvalue, kind + '-shape', f'{text}: KS distance {ks.statistic:.4f} over {n} draws')
    # tails
    for t in (2.5, 3.0, 3.5, 4.0, 4.5):
        p = special.ndtr(-t)
        hi, lo = int(np.sum(z > t)), int(np.sum(z < -t))
        for side, k, q in (('above', hi, p), ('below', lo, p), ('beyond', hi + lo, 2 * p)):
            reject(2 * min(stats.binom.sf(k - 1, n, q), stats.binom.cdf(k, n, q)), kind + '-tails',
                   f'{text}: {k} of {n} standardised draws {side} {t} standard deviations, expected {n * q:.1f}')
    # skewness and kurtosis: Hermite polynomials
    if n >= 20000:
        for name, h, v, limit in (('skewness', z ** 3 - 3 * z, 6, 8), ('kurtosis', z ** 4 - 6 * z * z + 3, 24, 12)):
            t = float(h.sum()) / math.sqrt(v * n)
            if not abs(t) < limit:
                raise Violation(kind + '-shape', f'{text}: {name} of {n} standardised draws: {h.mean():.4f}, {t:.1f} standard errors from zero')
    return n


def uncorrelated(a, b, kind, text, minimum=300):
    """a, b independent standard normals (or b bounded and predictable)"""
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if a.size < minimum:
        return
    s2 = float(np.sum(b * b))
    if s2 <= 0 or np.max(b * b) > 0.05 * s2:
        return
    # conditionally on b, sum a*b is normal with variance sum b^2
    t = float(np.sum(a * b)) / math.sqrt(s2)
    reject(2 * special.ndtr(-abs(t)), kind, f'{text}: correlation {np.sum(a * b) / s2:.4f} over {a.size} pairs')
