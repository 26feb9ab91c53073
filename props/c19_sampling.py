"""C19: distribution functions on a grid and samples drawn from them."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import statistics
from harness.core import Sub, check, refuses

ID = 'C19'
RULE = ('Smooth positive densities with 0 to 2 parameters on generated intervals and grids of 10 to 3000 points; '
        'distribution functions are compared with exact sums, samples with the distribution function at the grid '
        'points (Dvoretzky-Kiefer-Wolfowitz bound, or the discrepancy of the Halton sequence). Non-trivial: a density '
        'that is not constant.')

DENSITIES = ['constant', 'rising', 'falling', 'wave', 'bell', 'power', 'two']


def density(spec):
    """f(x, *args) on [a, b], positive; works for arrays only as a user's function would."""
    a, width, scale = spec['a'], spec['width'], spec['scale']

    def f(x, k=1., m=0.5):
        u = (np.asarray(x) - a) / width
        name = spec['density']
        if name == 'constant':
            v = np.ones_like(u) * (1. + 0 * m)
        elif name == 'rising':
            v = 0.2 + u * k
        elif name == 'falling':
            v = np.exp(-k * u)
        elif name == 'wave':
            v = 1.3 + np.cos(2. * np.pi * k * u)
        elif name == 'bell':
            v = np.exp(-0.5 * ((u - m) / 0.3)**2)
        elif name == 'power':
            v = 0.1 + np.abs(u)**(1. + k)
        else:
            v = 0.3 + np.exp(-0.5 * ((u - 0.3) / 0.2)**2) + m * np.exp(-0.5 * ((u - 0.7) / 0.2)**2)
        return scale * v
    return f


def specs(wn):
    args = st.one_of(st.none(), st.tuples(st.sampled_from([0.5, 1., 2., 0.])).map(list), st.just([]),
                     st.tuples(st.sampled_from([0.5, 1., 2., 0.]), st.sampled_from([0.3, 0.5, 0.8, 0.])).map(list),
                     st.sampled_from([0.5, 2., 0.]))
    return st.fixed_dictionaries(dict(
        density=st.sampled_from(DENSITIES), args=args, scale=st.sampled_from([1., 1e-9, 1e12, 3., 1. / 3.]),
        a=st.one_of(st.sampled_from([0., -1., 5., -1e-3, 1e3]), st.floats(-10., 10.).map(lambda v: round(v, 6))),
        width=st.sampled_from([1., 2., 1e-3, 100., 0.7]), wn=wn))


def called(case, function):
    args = case['args']
    return function if args is None else lambda x: function(x, *(args if isinstance(args, list) else [args]))


def as_given(args):
    return tuple(args) if isinstance(args, list) else args


def cdf_cases():
    weights = st.lists(st.one_of(st.sampled_from([0., 1., 0., 2., 1e-9, 1e9]), st.floats(0., 10.).map(
        lambda v: round(v, 9))), min_size=1, max_size=30).filter(lambda w: sum(w) > 0.)
    table = st.builds(lambda w, k, order: dict(weights=w, factor=k, start=order), weights,
                      st.sampled_from([2., 1e-6, 3., 1e12]), st.sampled_from([0., -5.]))
    return st.one_of(table, specs(st.one_of(st.integers(1, 50), st.integers(51, 2000))))


def grid_cdf(case, scratch):
    from rsbeams.rsstats.sample import cdf_on_grid
    if 'weights' in case:
        w = np.array(case['weights'])
        grid = case['start'] + np.arange(len(w)) * 0.5
        lookup = {float(g): v for g, v in zip(grid, w)}

        def f(x, factor=1.):
            return np.array([lookup[float(v)] for v in x]) * factor
        got = cdf_on_grid(f, grid)
        scaled = cdf_on_grid(f, grid, args=(case['factor'],))
        check(np.all(np.abs(np.asarray(scaled) - got) <= 1e-13), 'factor %r changes the distribution function',
              case['factor'])
    else:
        grid = np.linspace(case['a'], case['a'] + case['width'], case['wn'])
        f = density(case)
        w = called(case, f)(grid)
        got = cdf_on_grid(f, grid, args=as_given(case['args']))
        other = cdf_on_grid(density(dict(case, scale=7e-5)), grid, args=as_given(case['args']))
        check(np.all(np.abs(np.asarray(other) - got) <= 1e-13 * len(w)), 'the scale changes the distribution function')
    before = grid.copy()
    got = np.asarray(got)
    check(np.array_equal(grid, before), 'the grid was changed')
    check(got.shape == w.shape, 'shape %r', got.shape)
    want = exact(w)
    check(np.all(np.abs(got - want) <= 1e-14 * (4 + len(w))), 'distribution function %r instead of %r', got, want)
    check(np.all(np.diff(got) >= 0.), 'the distribution function falls')
    check(abs(got[-1] - 1.) <= 1e-14 * (4 + len(w)), 'the distribution function ends at %r', got[-1])


def exact(w):
    total = math.fsum(w)
    out, s, c = [], 0., 0.
    for v in w:
        y = v - c          # compensated sum
        t = s + y
        c = (t - s) - y
        s = t
        out.append(s / total)
    return np.array(out)


def sample_cases():
    return st.builds(lambda s, m, i, n, seed, back: dict(s, method=m, invert=i, n=n, seed=seed, back=back),
                     specs(st.one_of(st.integers(10, 40), st.sampled_from([100, 1000, 3000]))),
                     st.sampled_from(['random', 'halton']), st.sampled_from(['numeric', 'interpolate']),
                     st.one_of(st.integers(1, 50), st.sampled_from([1000, 4096, 20000])), st.integers(0, 2**31),
                     st.sampled_from([False] * 5 + [True]))


def samples(case, scratch):
    from rsbeams.rsstats.sample import sample
    f = density(case)
    a, b, wn, n = case['a'], case['a'] + case['width'], case['wn'], case['n']
    if case['invert'] == 'interpolate' and case['density'] in ('wave', 'two', 'bell'):
        wn = max(wn, 60)         # a cubic through fewer points does not follow these densities
    kw = dict(args=as_given(case['args']), wn=wn, method=case['method'], invert=case['invert'])
    np.random.seed(case['seed'])
    if case['back']:
        a, b = b, a          # from the upper to the lower bound
    got = sample(n, f, a, b, **kw)
    check(isinstance(got, np.ndarray) and got.shape == (n,), 'result %r', type(got))
    check(np.all((got >= min(a, b)) & (got <= max(a, b))), 'samples between %r and %r of [%r, %r]', got.min(), got.max(), a, b)
    grid = np.linspace(a, b, wn)
    cdf = exact(called(case, f)(grid))
    # the distribution function of the samples at the grid points
    slack = 1e-9 * case['width']
    sign = -1. if case['back'] else 1.
    empirical = np.searchsorted(np.sort(sign * got), sign * grid + slack, side='right') / n
    if case['method'] == 'halton':
        limit = (math.log2(n) + 2.) / n + 1e-9
    else:
        limit = math.sqrt(math.log(2e10) / (2. * n))
    off = np.abs(empirical - cdf)
    # the first grid point takes everything below the first value of the distribution function
    check(np.all(off <= limit), 'distribution function of %d samples is off by %.4f (limit %.4f) at grid point %d of '
          '%d', n, off.max(), limit, int(off.argmax()), wn)
    if case['invert'] == 'numeric':
        nearest = grid[np.abs(grid[None, :] - got[:200, None]).argmin(axis=1)]
        check(np.all(np.abs(nearest - got[:200]) <= slack), 'samples are not on the grid')
    elif case['method'] == 'halton':
        # between grid points the samples fill the cells evenly
        check(len(np.unique(got)) >= n - n // wn - 2 - int(n * cdf[0]) - int(math.log2(n) + 2), 'samples repeat')
    elif case['method'] == 'random':
        below = int(n * cdf[0] + 7. * math.sqrt(n) + 7)
        check(len(np.unique(got)) >= n - below, 'random samples repeat: %d different of %d', len(np.unique(got)), n)
    if case['method'] == 'random' and n >= 1000:
        # in random order
        order = np.arange(n) / n - 0.5
        level = np.interp(sign * got, sign * grid, cdf) - 0.5
        off = abs(np.mean(order * level)) * 12.
        check(off <= 7. / math.sqrt(n), 'samples depend on their place in the array (correlation %.3f)', off)
        off = abs(np.mean(level[1:] * level[:-1])) * 12. - (12. * cdf[0]**2 + 2. / wn)
        check(off <= 7. / math.sqrt(n), 'successive samples have correlation %.3f', off)
    np.random.seed(case['seed'] ^ 12345)
    again = sample(n, f, a, b, **kw)
    if case['method'] == 'halton':
        check(np.array_equal(got, again), 'Halton samples do not repeat')
    elif n > 20 and case['invert'] == 'interpolate':
        check(not np.array_equal(got, again), 'random samples repeat')


def default_cases():
    return st.fixed_dictionaries(dict(density=st.sampled_from(DENSITIES), scale=st.just(1.), a=st.just(0.),
                                      width=st.sampled_from([1., 4.]), n=st.sampled_from([1, 100, 3000]),
                                      args=st.none(), wn=st.just(10000)))


def defaults(case, scratch):
    """random, interpolated, 10000 points"""
    from rsbeams.rsstats.sample import sample
    f = density(case)
    got = sample(case['n'], f, 0., case['width'])
    check(got.shape == (case['n'],) and np.all((got >= 0.) & (got <= case['width'])), 'samples outside')
    grid = np.linspace(0., case['width'], case['wn'])
    cdf = exact(f(grid))
    statistics.ks(got, lambda x: np.interp(x, grid, cdf), 'samples', grain=1e-3)
    statistics.tails(np.interp(got, grid, cdf), 'samples', grain=1e-3)
    inside = (got - grid[0]) / (grid[1] - grid[0])
    statistics.ks((inside % 1.)[inside > 0.], lambda u: u, 'places between grid points', grain=0.02)


def refused(case, scratch):
    from rsbeams.rsstats.sample import sample
    method, invert = case
    if method in ('random', 'halton') and invert in ('numeric', 'interpolate'):
        return
    check(refuses(sample, 10, lambda x: 1. + x, 0., 1., method=method, invert=invert), '%r are accepted', case)


def refused_cases():
    return st.tuples(st.sampled_from(['random', 'halton', 'sobol', '', 'Random', 'normal']),
                     st.sampled_from(['numeric', 'interpolate', 'spline', '', 'Numeric'])).map(list)


def callable_only(case, scratch):
    from rsbeams.rsstats.sample import sample
    check(refuses(sample, 10, case, 0., 1.), '%r is accepted as a distribution', case)


SUBS = [Sub('grid', cdf_cases, grid_cdf, 500, nontrivial=lambda c: c.get('density') != 'constant'),
        Sub('fine-grid', lambda: specs(st.one_of(st.integers(3000, 70000), st.sampled_from([10000, 65537]))), grid_cdf, 8,
            thorough=200, nontrivial=lambda c: c['density'] != 'constant'),
        Sub('samples', sample_cases, samples, 500, nontrivial=lambda c: c['density'] != 'constant',
            label=lambda c: c['method'] + ' ' + c['invert']),
        Sub('defaults', default_cases, defaults, 40, nontrivial=lambda c: c['density'] != 'constant'),
        Sub('refused', refused_cases, refused, 60),
        Sub('not-callable', lambda: st.one_of(st.none(), st.floats(0., 1.), st.lists(st.floats(0., 1.))),
            callable_only, 30)]
ASSUMPTIONS = ['Densities are smooth and at least 3 % of their maximum, as interpolation needs a strictly increasing '
               'distribution function.',
               'Random samples may deviate from the requested distribution by what a correct sample exceeds with '
               'probability 1e-10.']
