"""Distribution tests whose limits a correct sample exceeds with probability below 1e-9."""
import math

import numpy as np
from scipy.special import ndtr
from scipy.stats import binom

from harness.core import check


def normal_cdf(x):
    return ndtr(x)


def ks(values, cdf, what, p=1e-10, grain=0.):
    """Kolmogorov distance, with the bound of Dvoretzky, Kiefer, Wolfowitz and Massart (valid for every n)."""
    v = np.sort(np.asarray(values, dtype=float))
    n = len(v)
    f = np.asarray(cdf(v), dtype=float)
    steps = np.arange(n + 1) / n
    d = max(np.max(steps[1:] - f), np.max(f - steps[:-1]))
    limit = math.sqrt(math.log(2. / p) / (2. * n)) + grain
    check(d <= limit, '%s: distribution function off by %.3f (limit %.3f, %d values)', what, d, limit, n)
    return d


def tails(u, what, p=1e-11, grain=0.):
    """Values that are uniform in [0, 1]: how many are near both ends, which the Kolmogorov distance hardly sees."""
    u = np.asarray(u, dtype=float)
    n = len(u)
    for f in (0.001, 0.003, 0.01, 0.02, 0.05, 0.1, 0.3):
        for side, k in (('lowest', np.sum(u < f)), ('highest', np.sum(u > 1. - f))):
            few, many = binom.cdf(k, n, max(f - grain, 1e-12)), binom.sf(k - 1, n, min(f + grain, 1.))
            check(few > p and many > p, '%s: %d of %d values are in the %s %g %%', what, k, n, side, 100 * f)
        k = np.sum((u < f) | (u > 1. - f))
        check(binom.cdf(k, n, max(2. * (f - grain), 1e-12)) > p and binom.sf(k - 1, n, min(2. * (f + grain), 1.)) > p,
              '%s: %d of %d values are in the outer %g %% at both ends', what, k, n, 100 * f)


def distinct(a, what):
    """Rows of independent normal values (any scale): no row repeats the values of another one."""
    z = [np.sort(v / np.sqrt(np.mean(v**2))) for v in a if np.any(v)]
    if len(z) > 1 and len(z[0]) > 3:
        for i in range(len(z)):
            for j in range(i):
                check(np.abs(z[i] - z[j]).max() > 1e-9 and np.abs(z[i] + z[j][::-1]).max() > 1e-9,
                      '%s: the same values in two coordinates', what)


def uncorrelated(a, what, p=1e-10):
    """Rows of independent, bounded or normal values."""
    z = (a - a.mean(axis=1)[:, None]) / a.std(axis=1)[:, None]
    c = z @ z.T / a.shape[1]
    limit = math.sqrt(2. * math.log(2. * len(a)**2 / p) / a.shape[1])
    off = np.abs(c - np.diag(np.diag(c))).max()
    check(off <= limit, '%s: correlation %.3f (limit %.3f)', what, off, limit)
