"""Generated 6 x N arrays (plain JSON) and exact moments."""
import functools
import random
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

EPS = 2.**-52


@functools.lru_cache(maxsize=16)
def arrays(min_n=1, max_n=40, offset=1e6, spread=True):
    """Rows with their own scale, offset and mixing.  `spread` rows vary; others may be constant."""
    scale = st.sampled_from([1., 1., 1e-3, 1e-9, 1e6, 0.3] + ([] if spread else [0.]))
    off = st.sampled_from([0., 0., 1., -3.5, 100., offset])
    row = st.tuples(scale, off).map(list)
    seeded = st.builds(
        lambda n, s, rows, kind, mix, layout: dict(n=n, s=s, rows=rows, kind=kind, mix=mix, layout=layout),
        st.integers(min_n, max_n), st.integers(0, 2**24), st.lists(row, min_size=6, max_size=6),
        st.sampled_from(['gauss', 'uniform', 'integers', 'outlier', 'two']), st.sampled_from([0., 0., 0.5, 0.99]),
        st.sampled_from(['C', 'F', 'slice', 'C']))
    if spread:
        return seeded
    value = st.one_of(st.sampled_from([0., 1., -1., 0.1, 1e-5, 3e7]), st.floats(-1e3, 1e3).map(lambda v: v if abs(v) > 1e-60 else 0.))
    n = st.integers(min_n, 5)
    explicit = n.flatmap(lambda k: st.builds(
        lambda v, layout: dict(values=v, layout=layout),
        st.lists(st.lists(value, min_size=k, max_size=k), min_size=6, max_size=6), st.sampled_from(['C', 'F'])))
    return st.one_of(explicit, seeded, seeded)


def array(spec):
    if 'values' in spec:
        a = np.array(spec['values'], dtype=float)
    else:
        r = random.Random(spec['s'])
        n, kind = spec['n'], spec['kind']
        rows = []
        for i in range(6):
            if kind == 'integers':
                rows.append([float(r.randint(-20, 20)) for _ in range(n)])
            elif kind == 'uniform':
                rows.append([r.uniform(-1., 1.) for _ in range(n)])
            elif kind == 'two':
                rows.append([r.choice([-1., 1.]) for _ in range(n)])
            else:
                rows.append([r.gauss(0., 1.) for _ in range(n)])
        if kind == 'outlier':
            for row in rows:
                row[r.randrange(n)] = r.choice([-50., 50.])
        a = np.array(rows)
        mix = spec['mix']
        if mix:
            a = a + mix * np.roll(a, 1, axis=0) - 0.3 * mix * np.roll(a, 3, axis=0)
        for i, (scale, off) in enumerate(spec['rows']):
            a[i] = (a[i] + off) * scale if scale else off
    if spec['layout'] == 'F':
        return np.asfortranarray(a)
    if spec['layout'] == 'slice':
        wide = np.full((8, 2 * a.shape[1] + 1), 7.)
        wide[1:7, 1::2] = a
        return wide[1:7, 1::2]
    return a


def moments(a):
    """Exact averages and covariance of the doubles in `a`, rounded once."""
    n = a.shape[1]
    if n > 60:
        # 64 bits of mantissa, in two passes
        a = a.astype(np.longdouble)
        avg = a.mean(axis=1)
        dev = a - avg[:, None]
        rest = dev.mean(axis=1)
        cov = (dev[:, None, :] * dev[None, :, :]).mean(axis=2) - np.outer(rest, rest)
        return (avg + rest).astype(float), cov.astype(float)
    rows = [[Fraction(float(v)) for v in row] for row in a]
    avg = [sum(r) / n for r in rows]
    dev = [[v - m for v in r] for r, m in zip(rows, avg)]
    cov = [[float(sum(x * y for x, y in zip(dev[i], dev[j])) / n) if j >= i else 0. for j in range(6)]
           for i in range(6)]
    cov = np.array(cov)
    cov = np.triu(cov) + np.triu(cov, 1).T
    return np.array([float(m) for m in avg]), cov


def moment_tolerance(a, avg, cov, k=20.):
    """Absolute rounding errors of any stable evaluation: of averages and of the covariance."""
    n = a.shape[1]
    big = np.max(np.abs(a), axis=1)
    sig = np.sqrt(np.diag(cov))
    t_avg = k * (n + 4) * EPS * big
    step = (n + 4) * EPS
    t_cov = k * step * (np.outer(sig, sig) + np.outer(big, sig) + np.outer(sig, big)) + \
        np.outer(k * step * big, k * step * big)
    return t_avg, t_cov
