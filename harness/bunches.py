"""Requests for bunches, common to C16 to C18."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

BETA = st.one_of(st.sampled_from([1., 0.5, 10., 2.]), st.floats(-2., 2.).map(lambda e: 10.**e))
ALPHA = st.one_of(st.sampled_from([0., 1., -1., 0.5, -2.]), st.floats(-4., 4.))
EMIT = st.one_of(st.sampled_from([1e-6, 1e-5, 2e-6, 1e-9]), st.floats(-15., -2.).map(lambda e: 10.**e),
                 st.floats(-22., 1.).map(lambda e: 10.**e))
SPREAD = st.sampled_from([0., 1., 1e-3, 0.05, 2.])


@functools.lru_cache(maxsize=None)
def twiss(beta=BETA, alpha=ALPHA, emit=EMIT):
    return st.fixed_dictionaries(dict(emitx=emit, emity=emit, betax=beta, alphax=alpha, betay=beta, alphay=alpha))


def normal(p, betax, alphax, betay, alphay):
    """Coordinates in which the linear motion is a rotation."""
    sx, sy = math.sqrt(betax), math.sqrt(betay)
    x, y = p[:, 0] / sx, p[:, 2] / sy
    return x, sx * p[:, 1] + alphax * x, y, sy * p[:, 3] + alphay * y


def chi2_range(n, p=1e-10):
    from scipy.stats import chi2
    return chi2.ppf(p, n) / n, chi2.isf(p, n) / n


def spread(values, sigma, what):
    """Normal deviates about 0: their mean square and their distribution."""
    from harness import statistics
    from harness.core import check
    values = np.asarray(values, dtype=float)
    if sigma == 0.:
        check(np.all(values == 0.), '%s is not 0', what)
        return
    lo, hi = chi2_range(len(values))
    got = np.mean(values**2) / sigma**2
    check(lo <= got <= hi, '%s: mean square is %.3f times the requested one (limits %.3f to %.3f)', what, got, lo, hi)
    statistics.ks(values / sigma, statistics.normal_cdf, what)
    statistics.tails(statistics.normal_cdf(values / sigma), what)
