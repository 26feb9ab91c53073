"""C21: decoherence of an offset beam against the amplitude integral, and the pool of processes."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check

ID = 'C21'
RULE = ('Centroids for tune shifts of 1 to 8 orders (any sign, also 0) against Gauss-Legendre quadrature of the '
        'waterbag integral Z * int_0^1 cos(2 pi n (nu0 - mu_0 u - mu_1 u^2 - ...)) du; lists over all turns for 1 to 5 '
        'processes. Non-trivial: turn 1 or later with a tune shift that is not 0.')


@functools.lru_cache(maxsize=None)
def nodes():
    x, w = np.polynomial.legendre.leggauss(400)
    return 0.5 * (x + 1.), 0.5 * w


def reference(n, z, nu0, mu):
    u, w = nodes()
    shift = sum(m * u**(k + 1) for k, m in enumerate(mu))
    return z * float(np.sum(w * np.cos(2. * math.pi * n * (nu0 - shift))))


COEFFICIENT = st.one_of(st.sampled_from([1e-3, -1e-3, 1e-2, -2e-2, 1e-4, 0.05]),
                        st.floats(-0.05, 0.05).map(lambda v: round(v, 8)))


def beams(turns):
    return st.fixed_dictionaries(dict(
        N=turns, Z=st.one_of(st.sampled_from([1., 0.5, -2., 0., 3.3]), st.floats(-5., 5.).map(lambda v: round(v, 6))),
        nu0=st.one_of(st.sampled_from([0., 0.25, 0.31, 5.23, -0.1]), st.floats(0., 1.).map(lambda v: round(v, 6))),
        mu=st.one_of(st.lists(COEFFICIENT, min_size=1, max_size=4), st.lists(COEFFICIENT, min_size=5, max_size=8)), kind=st.sampled_from(['list', 'tuple', 'array'])))


def make(case):
    from rsbeams.rsphysics.decoherence import CentroidPosition
    kind = dict(list=list, tuple=tuple, array=np.array)[case['kind']]
    return CentroidPosition(case['N'], case['Z'], case['nu0'], kind(case['mu']))


def single_cases():
    return st.builds(lambda b, n, own: dict(b, turn=n, own=own), beams(st.integers(0, 120)),
                     st.one_of(st.integers(0, 120), st.sampled_from([0, 1, 2])), st.booleans())


def single(case, scratch):
    c = make(case)
    mu, z = case['mu'], case['Z']
    n = case['N'] if case['own'] else case['turn']
    args = () if case['own'] else (n,)
    want = reference(n, z, case['nu0'], mu) if n else z
    total = 2. * math.pi * n * (abs(case['nu0']) + sum(map(abs, mu)))
    close(c.integrate_any_order(*args), want, (1e-7 + 1e-13 * total) * abs(z), 'any order', case)
    if len(mu) == 1:
        close(c.integrate_first_order(*args), want, first_tolerance(n, mu, total) * abs(z), 'first order', case)
    if len(mu) == 2:
        close(c.integrate_second_order(*args), want, second_tolerance(n, mu, total) * abs(z), 'second order', case)
    if n < 10**4:
        check(abs(want) <= abs(z) * (1. + 1e-9), 'reference')


def first_tolerance(n, mu, total):
    if not mu[0] or not n:
        return 1e-7
    return 1e-12 * (1. + total) + 1e-14 / abs(2. * math.pi * n * mu[0])


def second_tolerance(n, mu, total):
    """The closed form is a difference of Fresnel functions with large arguments if mu_1 is small."""
    if not mu[1] or not n:
        return 1e-7
    phase = total + math.pi * mu[0]**2 * n / (2. * abs(mu[1]))
    argument = math.sqrt(n) * (abs(mu[0]) + 2. * abs(mu[1])) / math.sqrt(abs(mu[1]))
    return (1e-11 + 1e-14 * phase * (1. + argument)) * (1. + 1. / math.sqrt(4. * abs(mu[1]) * n))


def close(a, b, tol, what, case):
    check(np.shape(a) == () and abs(float(a) - b) <= tol, '%s: %r instead of %r (%r)', what, a, b, case)


def late_cases():
    """Many turns, with tune shifts for which the integral still has few oscillations"""
    def scaled(b, n, cycles):
        biggest = sum(map(abs, b['mu'])) or 1.
        return dict(b, mu=[round(m * cycles / n / biggest, 12) for m in b['mu']], turn=n, own=False)
    return st.builds(scaled, beams(st.integers(0, 5)), st.one_of(st.integers(100, 5000), st.sampled_from([512, 1000, 10**5])),
                     st.sampled_from([0.3, 2., 10., 40.]))


def long_cases():
    return st.builds(lambda b, p: dict(b, p=p, mu=[m * 0.05 for m in b['mu'][:2]]),
                     beams(st.one_of(st.integers(100, 1500), st.sampled_from([512, 600, 1024]))), st.integers(1, 8))


def pool_cases():
    return st.builds(lambda b, p: dict(b, p=p), beams(st.integers(0, 25)), st.one_of(st.integers(1, 5), st.none()))


def pooled(case, scratch):
    c = make(case)
    got = c.calculate_centroids() if case['p'] is None else c.calculate_centroids(case['p'])
    check(len(got) == case['N'], '%d centroids for %d turns', len(got), case['N'])
    mu, z = case['mu'], case['Z']
    order = min(len(mu), 3)
    for n, v in enumerate(got):
        want = reference(n, z, case['nu0'], mu) if n else z
        total = 2. * math.pi * n * (abs(case['nu0']) + sum(map(abs, mu)))
        tol = {1: first_tolerance, 2: second_tolerance, 3: lambda *a: 1e-7}[order](n, mu, total)
        close(v, want, tol * abs(z), 'turn %d' % n, case)
        f = {1: c.integrate_first_order, 2: c.integrate_second_order, 3: c.integrate_any_order}[order]
        check(v == f(n), 'turn %d: %r in the list, %r alone', n, v, f(n))
    check(c.mu is not None and list(c.mu) == list(mu) and c.N == case['N'], 'settings changed')


def nontrivial(case):
    return any(case['mu']) and (case.get('turn', 1) > 0 or case.get('own', False)) and case['N'] > 0


SUBS = [Sub('single', single_cases, single, 700, nontrivial=nontrivial, label=lambda c: '%d orders' % len(c['mu'])),
        Sub('late', late_cases, single, 200, nontrivial=lambda c: any(c['mu']), label=lambda c: '%d orders' % len(c['mu'])),
        Sub('long-pool', long_cases, pooled, 3, thorough=100, label=lambda c: '%s processes' % c['p']),
        Sub('pool', pool_cases, pooled, 60, nontrivial=lambda c: c['N'] > 1 and any(c['mu']),
            label=lambda c: '%s processes' % c['p'])]
