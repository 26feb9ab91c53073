"""C14: 6D distributions and their match to Twiss parameters."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

from harness import beams, statistics
from harness.core import Sub, check, refuses

ID = 'C14'
RULE = ('Uniform and Gaussian 6D distributions of 12 to 80 particles with generated seeds, cut-offs and Twiss '
        'parameters (any sign of alpha including 0, gamma equal to beta, beta from 1e-3 to 1e3), judged by moments '
        'computed here; histories of offsets, factors and refused calls. Non-trivial: a plane with alpha that is not '
        '0, or a history of 2 or more steps.')


@functools.lru_cache(maxsize=None)
def distributions():
    return st.fixed_dictionaries(dict(
        n=st.integers(12, 80), seed=st.integers(0, 2**31), type=st.sampled_from(['uniform', 'gaussian']),
        fac=st.one_of(st.sampled_from([1., 4., 9., 0.25, 100.]), st.floats(0.25, 20.))))


@functools.lru_cache(maxsize=None)
def twiss():
    special = st.sampled_from([[0., 1.], [1., math.sqrt(2.)], [-1., math.sqrt(2.)], [0., 2.], [0., 0.5],
                               [-2., math.sqrt(5.)], [-0.5, 1e-2], [0.5, 1e-2], [-3., 40.], [3., 40.]])
    free = st.tuples(st.one_of(st.sampled_from([0., 0.5, -0.5, 1., -1., 2.5, -2.5]), st.floats(-5., 5.)),
                     st.one_of(st.sampled_from([0.1, 1., 10., 3.]), st.floats(0.05, 20.),
                               st.floats(-3., 3.).map(lambda e: 10.**e))).map(list)
    emit = st.one_of(st.sampled_from([1e-6, 1., 1e-9, 2e-4]), st.floats(-20., 4.).map(lambda e: 10.**e))
    return st.tuples(st.one_of(special, free, free), emit).map(lambda t: t[0] + [t[1]])


def moments(a):
    mean = a.mean(axis=1)
    d = a - mean[:, None]
    return mean, d @ d.T / a.shape[1]


def standard(a, what):
    mean, cov = moments(a)
    check(np.all(np.abs(mean) < 1e-9), '%s: averages %r', what, mean)
    check(np.all(np.abs(cov - np.eye(6)) < 1e-9), '%s: covariance %r', what, cov)


def accuracy(alpha, beta):
    """Rounding of the rotation and of the two stretching factors: relative for beta and emittance, absolute for
    alpha."""
    gamma = (1. + alpha * alpha) / beta
    span = beta + gamma
    root = math.hypot(gamma - beta, 2. * alpha)
    sin2 = 0. if root == 0. else (alpha / root) * (2. * alpha / (root + abs(gamma - beta)))
    ds = 8. * beams.EPS / max(math.sqrt(sin2), math.sqrt(8. * beams.EPS)) if alpha else 0.
    rel = 100. * beams.EPS * span * span + 1e-9
    return rel, rel * (1. + abs(alpha)) + 4. * span * ds


def matched(cov, requested, reported, what):
    for plane, (alpha, beta, emit) in enumerate(requested):
        i = 2 * plane
        s11, s12, s22 = cov[i, i], cov[i, i + 1], cov[i + 1, i + 1]
        e = math.sqrt(max(s11 * s22 - s12 * s12, 0.))
        rel, abs_a = accuracy(alpha, beta)
        rel_e = rel + 100. * beams.EPS * (1. + alpha * alpha)
        for source, (a, b, em) in (('data', (-s12 / e if e else math.nan, s11 / e if e else math.nan, e)),
                                   ('reported', reported[plane])):
            check(abs(em - emit) <= rel_e * emit, '%s %s: emittance %d is %r instead of %r', what, source, plane, em,
                  emit)
            check(abs(b - beta) <= 2 * rel_e * beta, '%s %s: beta %d is %r instead of %r', what, source, plane, b,
                  beta)
            check(abs(a - alpha) <= abs_a, '%s %s: alpha %d is %r instead of %r', what, source, plane, a, alpha)
    sig = np.sqrt(np.diag(cov))
    for i in range(6):
        for j in range(6):
            if i // 2 != j // 2:
                check(abs(cov[i, j]) <= 1e-7 * sig[i] * sig[j], '%s: planes %d and %d are correlated: %r', what, i, j,
                      cov[i, j])


def values(t):
    alpha, beta, emit = t.get_alpha_rms(), t.get_beta_rms(), t.get_emit_rms()
    gamma = t.get_gamma_rms()
    check(abs(beta * gamma - alpha * alpha - 1.) <= 1e-12 * (1. + alpha * alpha), 'gamma %r of %r', gamma,
          (alpha, beta))
    return alpha, beta, emit


def cases():
    return st.builds(lambda d, t, b: dict(d, twiss=t, beam=b), distributions(),
                     st.lists(twiss(), min_size=3, max_size=3), st.booleans())


def match(case, scratch):
    from rsbeams.rsptcls import RsDistrib6D, RsPtclBeam6D, RsTwiss2D
    names = ('twiss_x', 'twiss_y', 'twiss_z')
    np.random.seed(case['seed'])
    if case['beam']:
        beam = RsPtclBeam6D.RsPtclBeam6D(case['n'], 1e8, 1e-9, 510998.95, case['type'], case['fac'],
                                         *[v for t in case['twiss'] for v in t])
        dist = beam.get_distrib6d()
        for name, t in zip(names, case['twiss']):
            check(list(values(beam.get_twiss2d_by_name(name))) == t, 'requested Twiss parameters %s', name)
        beam.calc_twiss6d()
        got = {n: beam.get_twiss2d_by_name(n) for n in names}
    else:
        dist = RsDistrib6D.RsDistrib6D(case['n'], case['type'], case['fac'])
        standard(dist.get_phase_space_6d().get_array_6d(), 'new distribution')
        check(np.all(np.abs(np.asarray(dist.calc_averages_6d())) < 1e-9), 'averages %r', dist.calc_averages_6d())
        check(np.all(np.abs(np.asarray(dist.calc_rms_values_6d()) - 1.) < 1e-9), 'rms %r', dist.calc_rms_values_6d())
        dist.make_twiss_dist_6d({n: RsTwiss2D.RsTwiss2D(*t) for n, t in zip(names, case['twiss'])}, 1e8)
        got = {}
        dist.calc_twiss6d(got)
    check(dist.get_distrib_type() == case['type'] and dist.get_max_rms_fac() == case['fac'], 'settings')
    a = np.array(dist.get_phase_space_6d().get_array_6d())
    check(a.shape == (6, case['n']) and dist.get_phase_space_6d().get_num_ptcls() == case['n'], 'shape %r', a.shape)
    mean, cov = moments(a)
    matched(cov, case['twiss'], [values(got[n]) for n in names], 'matched beam')
    check(np.all(np.abs(mean) <= 1e-7 * np.sqrt(np.diag(cov))), 'averages %r of the matched beam', mean)


def shape(case, scratch):
    """The raw distributions, before they are cleaned."""
    from rsbeams.rsptcls import RsDistrib6D
    np.random.seed(case['seed'])
    dist = RsDistrib6D.RsDistrib6D(case['n'], case['type'], case['fac'])
    if case['type'] == 'gaussian':
        dist.make_gauss_distrib()
    else:
        dist.make_unif_distrib()
    a = np.array(dist.get_phase_space_6d().get_array_6d())
    if case['type'] == 'gaussian':
        check(np.all(a * a < case['fac']), 'particles beyond the cut-off: %r', np.abs(a).max())
        bound = math.sqrt(case['fac'])
        lo, hi = statistics.normal_cdf(-bound), statistics.normal_cdf(bound)
        for i in range(6):
            statistics.ks(a[i], lambda x: (statistics.normal_cdf(x) - lo) / (hi - lo), 'component %d' % i)
    else:
        for rows in ((0, 2, 4), (1, 3, 5)):
            r2 = (a[list(rows)]**2).sum(axis=0)
            check(np.all(r2 < 1.), 'particles outside the unit ball')
            statistics.ks(r2**1.5, lambda x: x, 'volume inside each particle')
        for i in range(6):
            statistics.ks(a[i], lambda x: 0.5 + 0.75 * x - 0.25 * x**3, 'component %d' % i)
    if case['type'] == 'gaussian':
        statistics.uncorrelated(a, 'raw distribution')
    dist.clean_phase_space_6d()
    standard(dist.get_phase_space_6d().get_array_6d(), 'cleaned distribution')


def shape_cases():
    return st.builds(lambda d, n: dict(d, n=n), distributions(), st.integers(200, 600))


def histories():
    op = st.one_of(st.tuples(st.just('offset'), st.sampled_from([0., 1., -2.5, 1e-3, 1e3]), st.integers(0, 5)),
                   st.tuples(st.just('factor'), st.sampled_from([0., 1., -1., 2., 1e-3, 0.3]), st.integers(0, 5)),
                   st.tuples(st.sampled_from(['offset', 'factor']), st.just(2.), st.sampled_from([-1, 6, -6, 7, 100])))
    return st.builds(lambda d, o, l: dict(d, n=d['n'] // 4 + 8, ops=[list(x) for x in o], look=l), distributions(),
                     st.lists(op, min_size=1, max_size=8), st.booleans())


def history(case, scratch):
    from rsbeams.rsptcls import RsDistrib6D
    np.random.seed(case['seed'])
    dist = RsDistrib6D.RsDistrib6D(case['n'], case['type'], case['fac'])
    model = np.array(dist.get_phase_space_6d().get_array_6d())
    for what, value, index in case['ops']:
        f = dist.offset_component if what == 'offset' else dist.multiply_component
        if 0 <= index <= 5:
            f(value, index)
            model[index] = model[index] + value if what == 'offset' else model[index] * value
        else:
            check(refuses(f, value, index), '%s of component %d is accepted', what, index)
        got = np.array(dist.get_phase_space_6d().get_array_6d())
        check(got.shape == model.shape and np.array_equal(got, model), '%s %r of component %d gives %r instead of %r',
              what, value, index, got, model)
        if case['look']:
            statistics_of(dist, model)
    statistics_of(dist, model)


def statistics_of(dist, model):
    mean, cov = moments(model)
    big = np.abs(model).max(axis=1)
    check(np.all(np.abs(np.asarray(dist.calc_averages_6d()) - mean) <= 1e-13 * big), 'averages')
    check(np.all(np.abs(np.asarray(dist.calc_rms_values_6d())**2 - np.diag(cov)) <= 1e-11 * big**2), 'rms values')


def invalid(case, scratch):
    from rsbeams.rsptcls import RsDistrib6D
    n, kind, fac = case
    good = n > 0 and kind in ('uniform', 'gaussian') and fac > 0.
    if not good:
        check(refuses(RsDistrib6D.RsDistrib6D, n, kind, fac), '%r is accepted', case)


def invalid_cases():
    return st.tuples(st.sampled_from([12, 20, 0, -1, -20]),
                     st.sampled_from(['uniform', 'gaussian', 'Gaussian', 'KV', '', 'gauss', 'UNIFORM']),
                     st.sampled_from([1., 4., 0., -1., -4.])).map(list)


SUBS = [Sub('match', cases, match, 220, nontrivial=lambda c: any(t[0] for t in c['twiss']), label=lambda c: c['type']),
        Sub('match-many', lambda: st.builds(lambda c, n: dict(c, n=n), cases(), st.integers(300, 3000)), match, 3,
            thorough=100, nontrivial=lambda c: any(t[0] for t in c['twiss']), label=lambda c: c['type']),
        Sub('shape', shape_cases, shape, 25, label=lambda c: c['type']),
        Sub('history', histories, history, 120, nontrivial=lambda c: len(c['ops']) > 1),
        Sub('invalid', invalid_cases, invalid, 60)]
ASSUMPTIONS = ['Statistical comparisons use limits that a correct sample of a fixed seed exceeds with probability below '
               '1e-9.', 'The cut-off of a Gaussian distribution applies to the square of each raw coordinate before '
               'the beam is centred, rotated and normalised.']
