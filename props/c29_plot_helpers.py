"""C29: helpers of the plots."""
import os
import random

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check
from harness.figures import GREEK, symbol, tokens

ID = 'C29'
RULE = ('Data sets of 1 to 60 values, or of some hundred of which a few are far from the others, and bin numbers against counting with direct comparisons; formatted symbols against '
        'a separate state machine and table of letters; beamline profiles against the boxes of their magnets. '
        'Non-trivial: two bins and two different values; a mode switch and a letter; a magnet that does not start '
        'at 0.')

KINDS = dict(KQUAD='tab:green', QUAD='tab:green', SBEND='tab:red', CSBEND='tab:red', CSRCSBEND='tab:red',
             RBEND='tab:red', SBEN='tab:red', SEXT='tab:blue', RFCW='tab:orange', RFCA='tab:orange',
             OCTU='tab:purple', KOCT='tab:purple')
OTHERS = ['DRIF', 'MARK', 'MONI', 'WATCH', 'CSRDRIFT', 'EDRIFT', 'MAXAMP', 'C', '']


@st.composite
def far(draw):
    """Many values close together and a few far away."""
    r = random.Random(draw(st.integers(0, 10**6)))
    out = [round(r.gauss(0., 1e-3), 9) for _ in range(draw(st.integers(60, 300)))]
    for v in draw(st.lists(st.sampled_from([1., -1., 5., 100., -30.]), min_size=1, max_size=3)):
        out.insert(r.randrange(len(out) + 1), v)
    return out


def many():
    """Some thousands of values of which one is far away"""
    return st.builds(lambda *a: ['many'] + list(a), st.integers(0, 10**6), st.integers(500, 6000),
                     st.sampled_from([1., -1., 300., 1e-3]))


def data_sets():
    return st.fixed_dictionaries(dict(
        values=st.one_of(st.lists(st.one_of(st.sampled_from([0., 1., 2., -1., 0.5]), st.floats(-1e3, 1e3).map(
            lambda v: round(v, 6))), min_size=1, max_size=60), far(), many()),
        scale=st.sampled_from([1., 1., 1e-12, 1e-6, 1e6]), offset=st.sampled_from([0., 0., 1., -50.]),
        bins=st.one_of(st.sampled_from([1, 2, 3, 10, 256]), st.integers(1, 40)), real_bins=st.booleans(),
        charge=st.sampled_from([1., 1e-9, -3e-10, 5, 0.])))


def arrays(case):
    values = case['values']
    if values[0] == 'many':
        r = random.Random(values[1])
        values = [round(r.gauss(0., 1e-3), 9) for _ in range(values[2])] + [values[3]]
        r.shuffle(values)
    return (np.array(values) + case['offset']) * case['scale']


def verify_bins(x, centres, counts, n, weight):
    check(len(centres) == len(counts) == n, '%d centres and %d counts for %d bins', len(centres), len(counts), n)
    lo, hi = float(x.min()), float(x.max())
    # all values alike: numpy puts them into a bin of any finite width around them
    if hi - lo <= 1e-9 * max(abs(lo), abs(hi)):
        check(abs(np.sum(counts) / weight - len(x)) <= 1e-9 * len(x), 'counts add up to %r', np.sum(counts) / weight)
        return None
    width = (hi - lo) / n
    want = lo + width * (np.arange(n) + 0.5)
    slack = 1e-9 * width + 1e-12 * max(abs(lo), abs(hi))
    check(np.all(np.abs(centres - want) <= slack), 'bin centres %r instead of %r', centres, want)
    total = np.cumsum(counts) / weight
    check(abs(total[-1] - len(x)) <= 1e-9 * len(x), 'counts add up to %r, not to %d', total[-1], len(x))
    check(np.all(np.asarray(counts) / weight >= 0.), 'negative counts')
    for i in range(n - 1):
        edge = lo + width * (i + 1)
        least, most = np.sum(x < edge - slack), np.sum(x <= edge + slack)
        check(least - 1e-6 <= total[i] <= most + 1e-6, '%r values below the end of bin %d, not %d to %d', total[i], i,
              least, most)
    return width


def run_histogram(case, scratch):
    from rsbeams.rsplot.util import get_histogram_points
    x = arrays(case)
    before = x.copy()
    centres, counts = get_histogram_points(x, float(case['bins']) if case['real_bins'] else case['bins'])
    verify_bins(x, np.asarray(centres), np.asarray(counts), case['bins'], 1.)
    check(np.array_equal(x, before), 'the data were changed')


def run_current(case, scratch):
    from rsbeams.rsplot.util import get_current_from_t
    x = arrays(case)
    before = x.copy()
    n = case['bins']
    if case['real_bins'] and n == 3:
        n = 256
        centres, current = get_current_from_t(x, case['charge'])
    else:
        centres, current = get_current_from_t(x, case['charge'], float(n) if case['real_bins'] else n)
    check(np.array_equal(x, before), 'the data were changed')
    centres, current = np.asarray(centres, dtype=float), np.asarray(current, dtype=float)
    t = x - np.sum(x) / len(x)
    check(len(centres) == len(current) == n, '%d times and %d currents for %d bins', len(centres), len(current), n)
    spread = t.max() - t.min()
    if spread <= 1e-9 * max(abs(x.max()), abs(x.min())):
        return
    width = spread / n
    if case['charge'] == 0.:
        check(np.all(current == 0.), 'current without charge')
        return
    # charge of each bin in particles
    slack = 1e-9
    check(abs(np.sum(current) * width - case['charge']) <= slack * abs(case['charge']) * n,
          'the current integrates to %r, not to %r', np.sum(current) * width, case['charge'])
    verify_bins(t, centres, current, n, case['charge'] / len(x) / width)


@st.composite
def symbols(draw):
    parts = []
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.integers(0, 6))
        if k < 2:
            parts.append('$' + draw(st.sampled_from('abn')))
        elif k < 4:
            parts.append('$' + draw(st.sampled_from('gsre')))
        parts.append(draw(st.text(alphabet=''.join(sorted(GREEK)) + 'ABjo012 .,/()+-\'', max_size=4)))
    return dict(text=''.join(parts), matplotlib=draw(st.sampled_from([None, True, False])))


def run_symbol(case, scratch):
    from rsbeams.rsplot.util import format_symbol
    text = case['text']
    got = format_symbol(text) if case['matplotlib'] is None else format_symbol(text, matplotlib=case['matplotlib'])
    want = symbol(text, case['matplotlib'] is not False)
    check(tokens(got) == tokens(want), '%r becomes %r, not %r', text, got, want)


@st.composite
def profiles(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 60)))
    return dict(types=draw(st.lists(st.one_of(st.sampled_from(sorted(KINDS)), st.sampled_from(OTHERS)), min_size=n,
                                    max_size=n)),
                lengths=draw(st.lists(st.one_of(st.sampled_from([0., 0.1, 1., 0.25, 120.]), st.floats(0., 5.).map(
                    lambda v: round(v, 6))), min_size=n, max_size=n)),
                scale=draw(st.sampled_from([None, 1., 100., 1e3, 0.5, 1e-3])),
                height=draw(st.sampled_from([None, 0.25, 1., 0.01, 3])), from_file=draw(st.integers(0, 5)) == 0)


def columns_of(case, scratch):
    s = np.cumsum(case['lengths'])
    a = np.zeros(len(s), dtype=[('s', float), ('ElementType', 'U16')])
    a['s'], a['ElementType'] = s, case['types']
    if not case['from_file']:
        return a
    from rsbeams.rsdata.SDDS import readSDDS
    path = os.path.join(scratch, 'x.sdds')
    with open(path, 'w') as f:
        f.write('SDDS1\n&column name=s, type=double &end\n&column name=ElementType, type=string &end\n'
                '&data mode=ascii &end\n%d\n' % len(s))
        for x, t in zip(s, case['types']):
            f.write('%r %s\n' % (float(x), t or '_'))
    f = readSDDS(path)
    f.read()
    return np.squeeze(f.columns).reshape(-1)


def run_profile(case, scratch):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import colors, pyplot as plt
    from rsbeams.rsplot.util import plot_profile
    a = columns_of(case, scratch)
    before = a.copy()
    fig, ax = plt.subplots()
    try:
        kwargs = {k: case[k] for k in ('scale', 'height') if case[k] is not None}
        collection = plot_profile(a, ax, **kwargs)
        check(np.array_equal(a, before), 'the columns were changed')
        scale, height = case['scale'] or 1., case['height'] or 0.25
        ends = np.cumsum(case['lengths'])
        starts = np.concatenate([[0.], ends[:-1]])
        want = [(x * scale, y * scale, colors.to_rgba(KINDS[t]))
                for x, y, t in zip(starts, ends, case['types']) if t in KINDS]
        check(any(c is collection for c in ax.collections), 'the boxes are not in the axes')
        paths = collection.get_paths()
        check(len(paths) == len(want), '%d boxes for %d magnets', len(paths), len(want))
        face = collection.get_facecolor()
        for i, (p, (x, y, color)) in enumerate(zip(paths, want)):
            v = p.vertices
            got = (v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max())
            check(np.allclose(got, (x, y, -height / 2., height / 2.), rtol=1e-9, atol=1e-9 * scale),
                  'box %d spans %r, not %r', i, got, (x, y, -height / 2., height / 2.))
            check(tuple(face[i % len(face)]) == color, 'box %d of a %s has colour %r', i,
                  [t for t in case['types'] if t in KINDS][i], tuple(face[i % len(face)]))
        # the line under the elements runs along the whole beamline
        lines = [np.asarray(l.get_xydata(), dtype=float) for l in ax.lines]
        check(any(np.allclose(l, [[0., 0.], [ends[-1] * scale, 0.]], rtol=1e-9, atol=1e-12) for l in lines if
                  l.shape == (2, 2)), 'no line from 0 to the end of the beamline: %r', lines)
        check(all(np.all(l[:, 1] == 0.) and l[:, 0].min() >= -1e-12 and
                  l[:, 0].max() <= ends[-1] * scale * (1 + 1e-9) + 1e-12 for l in lines), 'lines outside: %r', lines)
    finally:
        plt.close(fig)


def varied(case):
    return case['bins'] > 1 and len(set(case['values'])) > 1


SUBS = [
    Sub('histogram', data_sets, run_histogram, 300, nontrivial=varied),
    Sub('current', data_sets, run_current, 300, nontrivial=varied),
    Sub('symbols', symbols, run_symbol, 500,
        nontrivial=lambda c: '$' in c['text'] and any(x.isalpha() for x in c['text'].replace('$', ''))),
    Sub('profile', profiles, run_profile, 70, nontrivial=lambda c: any(
        t in KINDS and sum(c['lengths'][:i]) > 0. for i, t in enumerate(c['types'])),
        label=lambda c: 'from a file' if c['from_file'] else 'array'),
]
