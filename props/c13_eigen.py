"""C13: Jacobi eigensolver, removal of correlations, significant figures."""
import decimal
import math
import random

import numpy as np
from hypothesis import strategies as st

from harness import beams
from harness.core import Sub, check

ID = 'C13'
RULE = ('Symmetric 6 x 6 matrices (dense, diagonal, block, repeated or zero eigenvalues, graded scales, indefinite) '
        'checked by residual, orthogonality and LAPACK eigenvalues; correlated beams before and after rotation; '
        'numbers rounded in decimal arithmetic. Non-trivial: matrix with at least 3 non-zero off-diagonal elements, '
        'beam of at least 7 particles, number that needs rounding.')


def matrices():
    seeded = st.builds(lambda kind, s, scale: dict(kind=kind, s=s, scale=scale),
                       st.sampled_from(['dense', 'dense', 'covariance', 'graded', 'repeated', 'rank', 'planes',
                                        'integers', 'sparse', 'near', 'diagonal', 'zero', 'ones']),
                       st.integers(0, 2**24), st.sampled_from([1., 1., 1e-6, 1e-12, 1e8, 3.]))
    value = st.sampled_from([0., 0., 1., -1., 2., 0.5, 1e-3, 1e3])
    explicit = st.builds(lambda v, s: dict(kind='values', values=v, scale=s),
                         st.lists(value, min_size=21, max_size=21), st.sampled_from([1., 1e-6, 1e6]))
    return st.one_of(seeded, seeded, explicit)


def matrix(spec):
    kind = spec['kind']
    if kind == 'values':
        m = np.zeros((6, 6))
        m[np.triu_indices(6)] = spec['values']
        m = m + np.triu(m, 1).T
        return m * spec['scale']
    r = random.Random(spec['s'])
    g = np.array([[r.gauss(0, 1) for _ in range(6)] for _ in range(6)])
    q = np.linalg.qr(g)[0]
    if kind == 'dense':
        m = g
    elif kind == 'covariance':
        m = g @ g.T
    elif kind == 'graded':
        d = np.array([10.**r.randint(-6, 6) for _ in range(6)])
        m = (g @ g.T) * np.outer(d, d)
    elif kind == 'repeated':
        m = q @ np.diag([r.choice([1., 2., -1.]) for _ in range(6)]) @ q.T
    elif kind == 'rank':
        k = r.randint(1, 5)
        m = g[:, :k] @ g[:, :k].T
    elif kind == 'planes':
        m = np.zeros((6, 6))
        for i in (0, 2, 4):
            m[i:i + 2, i:i + 2] = g[i:i + 2, i:i + 2]
    elif kind == 'integers':
        m = np.array([[float(r.randint(-3, 3)) for _ in range(6)] for _ in range(6)])
    elif kind == 'sparse':
        m = np.diag([r.gauss(0, 1) for _ in range(6)])
        i, j = r.sample(range(6), 2)
        m[i, j] = m[j, i] = r.gauss(0, 1)
    elif kind == 'near':
        m = np.diag([1., 1., 1., 2., 2., 3.]) + 1e-9 * g
    elif kind == 'diagonal':
        m = np.diag([r.gauss(0, 1) for _ in range(6)])
    elif kind == 'ones':
        m = np.ones((6, 6))
    else:
        m = np.zeros((6, 6))
    m = np.triu(m)
    m = m + np.triu(m, 1).T
    return m * spec['scale']


def eigen(case, scratch):
    from rsbeams.rsstats.stats6d import jacobi_eigen_solver6d
    m = matrix(case)
    vals, vecs = jacobi_eigen_solver6d(m.copy())
    vals, vecs = np.array(vals), np.array(vecs)
    check(vals.shape == (6,) and vecs.shape == (6, 6), 'shapes %r %r', vals.shape, vecs.shape)
    norm = np.linalg.norm(m)
    tol = 1e-13 * norm
    check(np.all(np.abs(vecs.T @ vecs - np.eye(6)) <= 1e-13), 'eigenvectors are not orthonormal: %r', vecs.T @ vecs)
    check(np.all(np.abs(m @ vecs - vecs * vals) <= tol), 'eigenvalues %r do not match the eigenvectors', vals)
    want = np.linalg.eigvalsh(m)
    check(np.all(np.abs(np.sort(vals) - want) <= tol), 'eigenvalues %r instead of %r', np.sort(vals), want)


def beams_with_correlations():
    return st.builds(lambda b, c: dict(beam=b, common=c), beams.arrays(2, 40, offset=50.),
                     st.sampled_from([None, 1., 1e-3, 1e-12, 1e9]))


def large_beams():
    return st.builds(lambda c, n: dict(c, beam=dict(c['beam'], n=n)), beams_with_correlations(),
                     st.one_of(st.integers(41, 2000), st.integers(4000, 8000)))


def decorrelate(case, scratch):
    from rsbeams.rsstats import stats6d
    spec = dict(case['beam'])
    if case['common']:
        spec['rows'] = [[case['common'], o] for _, o in spec['rows']]
    a = beams.array(spec)
    before = a.copy()
    stats6d.rm_correlations6d(a)
    check(a.shape == before.shape and np.all(np.isfinite(a)), 'shape %r', a.shape)
    n = a.shape[1]
    avg, cov = beams.moments(before)
    big = np.linalg.norm(np.max(np.abs(before), axis=1))
    sig = math.sqrt(np.trace(cov))
    step = 40 * (n + 4) * beams.EPS
    tol = step * (sig * sig + sig * big) + (step * big)**2
    new_avg, new = beams.moments(a)
    off = new - np.diag(np.diag(new))
    check(np.all(np.abs(off) <= tol), 'remaining correlations %r (tolerance %r)', off, tol)
    check(np.all(np.abs(np.sort(np.diag(new)) - np.linalg.eigvalsh(cov)) <= tol), 'variances %r instead of %r',
          np.sort(np.diag(new)), np.linalg.eigvalsh(cov))
    # distances and angles between the particles (of the first and last ones, of large beams)
    few = np.r_[0:n] if n <= 60 else np.r_[0:30, n - 30:n]
    gram = before[:, few].T @ before[:, few]
    check(np.all(np.abs(a[:, few].T @ a[:, few] - gram) <= 1e-12 * big**2), 'the beam was not rotated')
    check(np.all(np.abs((a * a).sum(axis=0) - (before * before).sum(axis=0)) <= 1e-12 * big**2),
          'the length of a particle vector changed')


def significant(case, scratch):
    from rsbeams.rsstats.stats6d import specify_significant_figures
    v, n = case['v'], case['n']
    got = specify_significant_figures(v, n)
    if v == 0.:
        check(got == 0, '0 is rounded to %r', got)
        return
    d = decimal.Decimal(v)
    unit = decimal.Decimal(10)**(d.adjusted() - n + 1)
    slack = abs(d) * decimal.Decimal(4e-15)
    g = decimal.Decimal(float(got))
    check(abs(g - d) <= unit / 2 + slack, '%r to %d figures is %r', v, n, got)
    check(abs(g / unit - (g / unit).to_integral_value()) * unit <= slack, '%r to %d figures is %r', v, n, got)


def numbers():
    digits = st.integers(1, 15)
    plain = st.sampled_from([0., 1., -1., 9.5, 99.95, 0.1, 1e5, 999999., 1e-5, 123456.789, 0.00099995, -0.05, 3.0])
    scaled = st.builds(lambda m, e, s: s * m * 10.**e, st.floats(1., 10.), st.integers(-250, 250),
                       st.sampled_from([1., -1.]))
    ints = st.integers(-10**6, 10**6).map(float)
    return st.builds(lambda v, n: dict(v=v, n=n), st.one_of(plain, scaled, ints), digits)


def dense(case):
    m = matrix(case)
    return np.count_nonzero(np.triu(m, 1)) >= 3


SUBS = [Sub('eigen', matrices, eigen, 800, nontrivial=dense, label=lambda c: c['kind']),
        Sub('decorrelate', beams_with_correlations, decorrelate, 300, nontrivial=lambda c: c['beam']['n'] >= 7,
            label=lambda c: c['beam']['kind']),
        Sub('decorrelate-many', large_beams, decorrelate, 5, thorough=150, label=lambda c: c['beam']['kind']),
        Sub('figures', numbers, significant, 1000, nontrivial=lambda c: float('%.*g' % (c['n'], c['v'])) != c['v'])]
