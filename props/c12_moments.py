"""C12: beam statistics against exact rational moments."""
import numpy as np
from hypothesis import strategies as st

from harness import beams
from harness.core import Sub, check

ID = 'C12'
RULE = ('6 x N arrays (N from 1 to 40; scales 1e-9 to 1e6, offsets up to 1e6 spreads, constant rows, outliers, C, '
        'Fortran and strided layouts) compared with moments computed in rational arithmetic. Non-trivial: at least 2 '
        'particles and a row that is not constant.')


def same(a, copy, what):
    check(a.shape == copy.shape and a.tobytes() == copy.tobytes(), '%s changed the array', what)


def definitions(case, scratch):
    from rsbeams.rsstats import stats6d
    a = beams.array(case['beam'])
    copy = a.copy()
    avg, cov = beams.moments(a)
    t_avg, t_cov = beams.moment_tolerance(a, avg, cov)
    var, t_var = np.diag(cov), np.diag(t_cov)

    got = {}
    for name in ('avg', 'variance', 'rms', 'min', 'max', 'correlations'):
        f = getattr(stats6d, 'calc_%s6d' % name)
        got[name] = np.array(f(a))
        same(a, copy, f.__name__)
        check(got[name].shape == ((6, 6) if name == 'correlations' else (6,)), 'shape %r of %s', got[name].shape, name)
        check(np.all(np.isfinite(got[name])), '%s %r', name, got[name])
    near(got['avg'], avg, t_avg, 'averages')
    near(got['variance'], var, t_var, 'variances')
    check(np.all(got['variance'] >= 0.), 'negative variance %r', got['variance'])
    near(got['rms']**2, var, t_var + 4 * beams.EPS * var, 'squares of rms values')
    check(np.all(got['rms'] >= 0.), 'negative rms %r', got['rms'])
    check(np.array_equal(got['min'], copy.min(axis=1)), 'minima %r', got['min'])
    check(np.array_equal(got['max'], copy.max(axis=1)), 'maxima %r', got['max'])
    near(got['correlations'], cov, t_cov, 'correlations')
    near(np.diag(got['correlations']), got['variance'], 2 * t_var, 'diagonal of the correlations')
    near(got['correlations'], got['correlations'].T, 2 * t_cov, 'transposed correlations')

    # another order of the particles, other units
    order = np.random.RandomState(case['perm']).permutation(a.shape[1])
    p = np.ascontiguousarray(copy[:, order])
    near(stats6d.calc_avg6d(p), avg, t_avg, 'averages of reordered particles')
    near(stats6d.calc_correlations6d(p), cov, t_cov, 'correlations of reordered particles')
    factor = 2.**case['power']
    near(stats6d.calc_correlations6d(copy * factor), cov * factor**2, t_cov * factor**2, 'scaled correlations')
    near(stats6d.calc_rms6d(copy * -factor)**2, var * factor**2, (t_var + 4 * beams.EPS * var) * factor**2,
         'rms values of the mirrored and scaled beam')


def near(a, b, tol, what):
    check(np.all(np.abs(np.asarray(a) - b) <= tol), '%s %r instead of %r', what, a, b)


def cases():
    return st.builds(lambda b, p, k: dict(beam=b, perm=p, power=k), beams.arrays(spread=False), st.integers(0, 1000),
                     st.sampled_from([-3, 1, 4, -20, 30]))


def in_place(case, scratch):
    from rsbeams.rsstats import stats6d
    a = beams.array(case['beam'])
    copy = a.copy()
    base = a.base.copy() if a.base is not None else None
    avg, cov = beams.moments(a)
    t_avg, t_cov = beams.moment_tolerance(a, avg, cov)
    if case['what'] == 'avg':
        stats6d.sub_avg6d(a)
        near(a, copy - avg[:, None], (t_avg + beams.EPS * np.max(np.abs(copy), axis=1))[:, None], 'centred beam')
        new, cov2 = beams.moments(a)
        near(new, 0., 2 * t_avg, 'averages after centring')
        near(cov2, cov, 4 * t_cov, 'covariance after centring')
    else:
        var = np.diag(cov)
        good = np.diag(t_cov) < 1e-3 * var
        if not np.all(var > 0.):
            return
        stats6d.normalize_rms6d(a)
        new, cov2 = beams.moments(a)
        want = copy / np.sqrt(var)[:, None]
        tol = (np.diag(t_cov) / var + 8 * beams.EPS)[:, None]
        near(a[good], want[good], (tol * np.abs(want))[good], 'normalised beam')
        near(np.diag(cov2)[good], 1., (2 * tol[:, 0] + np.diag(t_cov) / var)[good], 'variances after normalising')
    if base is not None and case['beam']['layout'] == 'slice':
        outside = np.ones(base.shape, bool)
        outside[1:7, 1::2] = False
        check(np.array_equal(a.base[outside], base[outside]), 'other data than the beam was changed')


def in_place_cases():
    return st.builds(lambda b, w: dict(beam=b, what=w), st.one_of(beams.arrays(2), beams.arrays(spread=False)),
                     st.sampled_from(['avg', 'rms']))


def many(function):
    """Beams of more particles, of sizes around round numbers too"""
    size = st.one_of(st.integers(41, 600), st.sampled_from([100, 101, 256, 1000, 1024, 1025]), st.integers(1000, 12000))
    beam = st.builds(lambda b, n: dict(b, n=n), beams.arrays(41, 42), size)
    return lambda: st.builds(lambda c, b: dict(c, beam=b), function(), beam)


def nontrivial(case):
    a = beams.array(case['beam'])
    return a.shape[1] > 1 and bool(np.any(a.max(axis=1) > a.min(axis=1)))


def label(case):
    return case['beam'].get('kind', 'explicit')


SUBS = [Sub('definitions', cases, definitions, 250, nontrivial=nontrivial, label=label),
        Sub('many', many(cases), definitions, 6, thorough=250, nontrivial=nontrivial, label=label),
        Sub('many-in-place', many(in_place_cases), in_place, 20, nontrivial=nontrivial, label=lambda c: c['what']),
        Sub('in-place', in_place_cases, in_place, 300, nontrivial=nontrivial, label=lambda c: c['what'])]
