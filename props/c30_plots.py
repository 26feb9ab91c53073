"""C30: what the plots show."""
import os
import random

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, refuses
from harness.figures import figures, symbol, tokens

ID = 'C30'
RULE = ('Particle files of 1 to 3 pages plotted with drawn pages, bins, charges, quantities and limits; the images, '
        'lines, scatter points, labels and limits of the figures are compared with histograms of the values that were '
        'written. Non-trivial: a page other than the first of several, or an argument that is not the default.')

COLUMNS = ['x', 'xp', 'y', 'yp', 't', 'p']


def particles(seed, n):
    r = random.Random(seed)
    size = [10. ** r.randint(-6, -2) for _ in range(4)]
    t0, p0 = r.choice([0., 1e-9, 3.3e-7]), r.choice([10., 200., 5e3])
    out = np.zeros((n, 6))
    far = r.choice([1., 1., 30., 500.]) if n > 100 else 1.
    for k, row in enumerate(out):
        if k == 1:
            # one particle far away from the others
            size, t0, p0 = [s * far for s in size], t0 + (far - 1.) * 1e-12, p0 * (1. + (far - 1.) * 1e-3)
        elif k == 2:
            size, t0, p0 = [s / far for s in size], t0 - (far - 1.) * 1e-12, p0 / (1. + (far - 1.) * 1e-3)
        row[:4] = [r.gauss(0.1 * s, s) for s in size]
        row[4], row[5] = t0 + r.gauss(0., 1e-12), p0 * (1. + r.gauss(0., 1e-3))
    return out


def write_beam(path, pages, charges):
    """charges: a value per page, or None for no such parameter."""
    with open(path, 'w') as f:
        f.write('SDDS1\n')
        f.write('&parameter name=Step, type=long &end\n')
        if charges:
            f.write('&parameter name=Charge, units=C, type=double &end\n')
        for c in COLUMNS:
            f.write('&column name=%s, type=double &end\n' % c)
        f.write('&data mode=ascii &end\n')
        for i, page in enumerate(pages):
            f.write('%d\n' % (i + 1))
            if charges:
                f.write('%r\n' % charges[i])
            f.write('%d\n' % len(page))
            for row in page:
                f.write(' '.join(repr(float(v)) for v in row) + '\n')


def read(path):
    from rsbeams.rsdata.SDDS import readSDDS
    f = readSDDS(path)
    f.read()
    return f


@st.composite
def beams(draw):
    sizes = draw(st.lists(st.one_of(*[st.integers(3, 40)] * 5, st.integers(100, 1500)), min_size=1, max_size=3))
    if draw(st.booleans()):
        sizes = [sizes[0]] * len(sizes)
    return dict(sizes=sizes, seed=draw(st.integers(0, 10**6)), page=draw(st.integers(0, len(sizes) - 1)),
                default_page=draw(st.integers(0, 3)) == 0,
                bins=draw(st.sampled_from([None, None, 1, 2, 5, 16, 50])),
                stored=draw(st.sampled_from([None, 0., 1e-9, 3.2e-10, -1e-12, 1.])),
                charge=draw(st.sampled_from([None, None, 'auto', 1e-9, 5.5e-11, 1., -2e-9])),
                save=draw(st.integers(0, 11)) == 0,
                plane=draw(st.sampled_from(['horizontal', 'vertical', 'x y', 'xp yp', 'x t'])))


def beam(case, scratch):
    pages = [particles(case['seed'] + 17 * i, n) for i, n in enumerate(case['sizes'])]
    path = os.path.join(scratch, 'beam.sdds')
    charges = None if case['stored'] is None else [case['stored'] * (i + 1) for i in range(len(pages))]
    write_beam(path, pages, charges)
    page = 0 if case['default_page'] else case['page']
    kwargs = {} if case['default_page'] else dict(page=page)
    if case['save']:
        kwargs['save'] = os.path.join(scratch, 'plot.png')
    return read(path), {c: pages[page][:, i] for i, c in enumerate(COLUMNS)}, charges and charges[page], kwargs


class Unchanged:
    def __init__(self, sdds):
        self.sdds = sdds
        self.before = [np.array(p, copy=True) for p in sdds.columns]

    def verify(self):
        check(len(self.before) == len(self.sdds.columns) and all(
            np.array_equal(a, b) for a, b in zip(self.before, self.sdds.columns)), 'plotting changed the columns')


def near(got, want, what, rtol=1e-9):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    check(got.shape == want.shape and np.all(np.abs(got - want) <= rtol * np.abs(want).max()),
          '%s: %r instead of %r', what, got, want)


def bin_of(v, n):
    """The bin of each of the values and how sure that is."""
    lo, hi = v.min(), v.max()
    if hi == lo:
        return None
    at = (v - lo) / (hi - lo) * n
    return at


def count(v, n):
    """Counts per bin; values right at a bin edge (other than the first and last) give None."""
    at = bin_of(v, n)
    if at is None:
        return None
    inner = at[(at > 1e-9) & (at < n - 1e-9)]
    if np.any(np.abs(inner - np.round(inner)) < 1e-6):
        return None
    return np.clip(np.floor(at + 0.).astype(int), 0, n - 1)


def verify_image(ax, x, y, n, what):
    check(len(ax.images) == 1, '%s: %d images', what, len(ax.images))
    im = ax.images[0]
    near(im.get_extent()[:2], [x.min(), x.max()], what + ' horizontal extent')
    near(im.get_extent()[2:], [y.min(), y.max()], what + ' vertical extent')
    check(im.origin == 'lower', '%s: origin %r', what, im.origin)
    got = np.asarray(im.get_array())
    check(got.shape == (n, n), '%s: %r bins', what, got.shape)
    check(got.sum() == len(x), '%s: the image shows %r particles instead of %d', what, got.sum(), len(x))
    i, j = count(x, n), count(y, n)
    if i is None or j is None:
        return
    want = np.zeros((n, n))
    for a, b in zip(i, j):
        want[b, a] += 1
    check(np.array_equal(got, want), '%s: the image is not the histogram of the particles', what)


def verify_profile_line(ax, values, n, what, vertical=False, scale=1., relative=None):
    """A line of bin centres and counts."""
    check(len(ax.lines) == 1, '%s: %d lines', what, len(ax.lines))
    a, b = (np.asarray(v, dtype=float) for v in ax.lines[0].get_data())
    centres, counts = (b, a) if vertical else (a, b)
    check(len(centres) == len(counts) == n, '%s: %d points', what, len(centres))
    lo, hi = values.min(), values.max()
    width = (hi - lo) / n
    check(np.all(np.abs(centres - (lo + width * (np.arange(n) + 0.5))) <= 1e-6 * width + 1e-12 * max(abs(lo), abs(hi))),
          '%s: bin centres %r from %r to %r', what, centres, lo, hi)
    i = count(values, n)
    if i is None:
        return
    want = np.bincount(i, minlength=n).astype(float)
    if relative:
        want = want / want.max()
    near(counts, want * scale, what + ' counts')


def saved(kwargs):
    if 'save' in kwargs:
        check(os.path.getsize(kwargs['save']) > 1000, 'no picture was saved')


def panels(plt):
    """The image, vertical and horizontal projection of a figure, by their position."""
    check(len(plt.get_fignums()) == 1, '%d figures', len(plt.get_fignums()))
    axes = plt.gcf().axes
    check(len(axes) == 3, '%d axes', len(axes))
    image = [a for a in axes if a.images]
    check(len(image) == 1, '%d axes with images', len(image))
    box = image[0].get_position()
    side = [a for a in axes if a is not image[0] and a.get_position().x0 > box.x1 - 1e-9]
    below = [a for a in axes if a is not image[0] and a.get_position().y1 < box.y0 + 1e-9]
    check(len(side) == len(below) == 1, 'arrangement of the axes')
    return image[0], side[0], below[0]


def run_phase_space(case, scratch):
    from rsbeams.rsplot import beam_plots
    sdds, c, _, kwargs = beam(case, scratch)
    same = Unchanged(sdds)
    if case['bins']:
        kwargs['bins'] = case['bins']
    n = case['bins'] or 128
    with figures() as plt:
        beam_plots.phase_space(sdds, **kwargs)
        same.verify()
        saved(kwargs)
        axes = plt.gcf().axes
        check(len(plt.get_fignums()) == 1 and len(axes) == 4, '%d axes', len(axes))
        delta = c['p'] / np.mean(c['p']) - 1.
        t = (c['t'] - np.mean(c['t'])) * 1e12
        want = [('x (mm)', "x' (mrad)", c['x'] * 1e3, c['xp'] * 1e3), ('y (mm)', "y' (mrad)", c['y'] * 1e3, c['yp'] * 1e3),
                ('x (mm)', 'y (mm)', c['x'] * 1e3, c['y'] * 1e3), ('t (ps)', '$\\delta$ ( )', t, delta)]
        for xl, yl, x, y in want:
            ax = [a for a in axes if a.get_xlabel() == xl and a.get_ylabel() == yl]
            check(len(ax) == 1, '%d plots of %s against %s', len(ax), yl, xl)
            verify_image(ax[0], x, y, n, '%s against %s' % (yl, xl))


def run_longitudinal(case, scratch):
    from rsbeams.rsplot import beam_plots
    sdds, c, stored, kwargs = beam(case, scratch)
    same = Unchanged(sdds)
    if case['charge']:
        kwargs['charge'] = case['charge']
    charge = case['charge'] if isinstance(case['charge'], float) else stored
    with figures() as plt:
        beam_plots.longitudinal_phase_space(sdds, **kwargs)
        same.verify()
        saved(kwargs)
        hm, mom, tim = panels(plt)
        t = (c['t'] - np.mean(c['t'])) * 1e12
        verify_image(hm, t, c['p'], 128, 'longitudinal phase space')
        verify_profile_line(mom, c['p'], 256, 'momentum', vertical=True)
        if charge:
            width = (t.max() - t.min()) * 1e-12 / 256
            verify_profile_line(tim, t, 256, 'current', scale=charge / len(t) / width)
            check(tim.get_ylabel() == 'Current (A)', 'label %r of a current', tim.get_ylabel())
        else:
            verify_profile_line(tim, t, 256, 'relative current', relative=True)
            check(tim.get_ylabel() == 'Counts ()', 'label %r of counts', tim.get_ylabel())
        check((hm.get_ylabel(), mom.get_xlabel(), tim.get_xlabel()) == ('p ($m_e c$)', 'Counts ()', 't (ps)'), 'labels')


def run_projection(case, scratch):
    from rsbeams.rsplot import beam_plots
    sdds, c, _, kwargs = beam(case, scratch)
    same = Unchanged(sdds)
    with figures() as plt:
        if case['plane'] in ('horizontal', 'vertical'):
            a = 'x' if case['plane'] == 'horizontal' else 'y'
            b, labels = a + 'p', (a + ' (mm)', a + "' (mrad)")
            getattr(beam_plots, case['plane'] + '_phase_space')(sdds, **kwargs)
        else:
            a, b = case['plane'].split()
            labels = ('', '')
            if case['seed'] % 2:
                labels = ('one', 'two [$m$]')
                kwargs.update(x_label=labels[0], y_label=labels[1])
            beam_plots.phase_space_projection(sdds, a, b, **kwargs)
        same.verify()
        saved(kwargs)
        hm, mom, tim = panels(plt)
        x, y = c[a] * 1e3, c[b] * 1e3
        verify_image(hm, x, y, 128, case['plane'])
        verify_profile_line(mom, y, 256, case['plane'] + ' vertical', vertical=True)
        verify_profile_line(tim, x, 256, case['plane'] + ' horizontal')
        check((tim.get_xlabel(), hm.get_ylabel()) == labels, 'labels %r instead of %r',
              (tim.get_xlabel(), hm.get_ylabel()), labels)
        check(mom.get_xlabel() == tim.get_ylabel() == 'Counts ()', 'labels of the counts')


QUANTITIES = dict(Sx=('$gs$r$bx$n', 'rms size', 'm'), Sy=('$gs$r$by$n', '', 'm'), betax=('$gb$r$bx$n', 'beta', 'm'),
                  alphax=('', 'alpha of x', ''), pAverage=('p$bavg$n', '', 'm$be$nc'), Cx=('<x>', 'centroid', 'm'),
                  ecx=('$ge$r$bn,x$n', '', '$gp$rm'), eta=('', 'plain text', 'm$a2$n'))


@st.composite
def lattices(draw):
    n = draw(st.one_of(st.integers(2, 8), st.integers(2, 40)))
    pages = draw(st.integers(1, 3))
    return dict(n=n, pages=pages, page=draw(st.integers(0, pages - 1)), default_page=draw(st.integers(0, 3)) == 0,
                types=[draw(st.lists(st.sampled_from(['QUAD', 'DRIF', 'CSBEND', 'KOCT', 'SEXT', 'MARK']), min_size=n,
                                     max_size=n)) for _ in range(pages)],
                seed=draw(st.integers(0, 10**6)),
                quantities=draw(st.one_of(st.none(), st.lists(st.sampled_from(sorted(QUANTITIES)), min_size=1, max_size=draw(st.sampled_from([3, 8])),
                                                              unique=True))),
                xlim=draw(st.sampled_from([None, None, [0.5, 2.], [-1., 100.], [0., 1.], [2., 0.25]])),
                ylim=draw(st.sampled_from([None, None, [0., 2.], [-3., 3.], [-2., 0.], [1., -1.]])),
                save=draw(st.integers(0, 11)) == 0)


def run_beamline(case, scratch):
    from rsbeams.rsplot import beam_plots
    names = sorted(QUANTITIES)
    path = os.path.join(scratch, 'line.sdds')
    r = random.Random(case['seed'])
    pages = []
    with open(path, 'w') as f:
        f.write('SDDS1\n&column name=s, units=m, type=double &end\n&column name=ElementType, type=string &end\n')
        for q in names:
            sym, description, units = QUANTITIES[q]
            f.write('&column name=%s, %s%s%stype=double &end\n' % (
                q, 'symbol="%s", ' % sym if sym else '', 'units="%s", ' % units if units else '',
                'description="%s", ' % description if description else ''))
        f.write('&data mode=ascii &end\n')
        for i in range(case['pages']):
            s, rows = 0., []
            for k in range(case['n']):
                s += round(r.uniform(0., 1.), 6)
                rows.append((s, case['types'][i][k], [round(r.gauss(0, 1), 9) for _ in names]))
            pages.append(rows)
            f.write('%d\n' % len(rows))
            for s_, kind, values in rows:
                f.write('%r %s %s\n' % (s_, kind, ' '.join(map(repr, values))))
    sdds = read(path)
    same = Unchanged(sdds)
    page = 0 if case['default_page'] else case['page']
    kwargs = {} if case['default_page'] else dict(page=page)
    for k in ('quantities', 'xlim', 'ylim'):
        if case[k] is not None:
            kwargs[k] = tuple(case[k]) if k != 'quantities' else list(case[k])
    if case['save']:
        kwargs['save'] = os.path.join(scratch, 'plot.png')
    rows = pages[page]
    with figures() as plt:
        beam_plots.beamline_profile(sdds, **kwargs)
        same.verify()
        saved(kwargs)
        axes = plt.gcf().axes
        check(len(axes) == 2, '%d axes', len(axes))
        top, main = sorted(axes, key=lambda a: -a.get_position().y0)
        wanted = case['quantities'] or ['Sx', 'Sy']
        check(len(main.lines) == len(wanted), '%d lines for %r', len(main.lines), wanted)
        labels = []
        for line, q in zip(main.lines, wanted):
            x, y = line.get_data()
            near(x, [w[0] for w in rows], 's of %s' % q)
            near(y, [w[2][names.index(q)] for w in rows], q)
            sym, description, _ = QUANTITIES[q]
            labels.append(symbol(sym) if sym else description)
            check(tokens(line.get_label()) == tokens(labels[-1]), 'label %r of %s, not %r', line.get_label(), q, labels[-1])
        legend = main.get_legend()
        check(legend and [tokens(t.get_text()) for t in legend.get_texts()] == [tokens(l) for l in labels], 'the legend is not %r', labels)
        units = [symbol(QUANTITIES[q][2]) if QUANTITIES[q][2] else '$-$' for q in wanted]
        want = '%s (%s)' % (','.join(labels), ','.join(units))
        check(tokens(main.get_ylabel()) == tokens(want), 'vertical label %r, not %r', main.get_ylabel(), want)
        check(main.get_xlabel() == 's (m)', 'horizontal label %r', main.get_xlabel())
        if case['xlim']:
            check(tuple(main.get_xlim()) == tuple(case['xlim']), 'limits %r', main.get_xlim())
        if case['ylim']:
            check(tuple(main.get_ylim()) == tuple(case['ylim']), 'limits %r', main.get_ylim())
        boxes = [p.vertices for collection in top.collections for p in collection.get_paths()]
        spans = [(v[:, 0].min(), v[:, 0].max()) for v in boxes]
        starts = [0.] + [w[0] for w in rows]
        expected = [(starts[i], starts[i + 1]) for i, w in enumerate(rows) if w[1] not in ('DRIF', 'MARK')]
        check(len(spans) == len(expected) and np.allclose(spans, expected, rtol=1e-9, atol=1e-9),
              'magnets at %r, not at %r', spans, expected)


@st.composite
def scatters(draw):
    return dict(n=draw(st.integers(2, 30)), seed=draw(st.integers(0, 10**6)),
                steps=draw(st.lists(st.one_of(
                    st.tuples(st.just('plot'), st.integers(0, 5), st.integers(0, 5)),
                    st.tuples(st.just('plot'), st.integers(0, 5), st.integers(0, 5)),
                    st.tuples(st.just('label'), st.integers(0, 5), st.sampled_from(['a', 'x [mm]', ''])),
                    st.tuples(st.just('title'), st.sampled_from(['some title', '', 'x_1']), st.just(0)),
                    st.tuples(st.just('data'), st.integers(2, 30), st.integers(0, 10**6))).map(list),
                    min_size=1, max_size=draw(st.sampled_from([5, 9])))), save=draw(st.integers(0, 7)) == 0)


def six(n, seed):
    r = random.Random(seed)
    return np.array([[r.choice([r.gauss(0, 1), r.gauss(0, 1e-3), r.gauss(5, 1), -abs(r.gauss(2, 1))])
                      for _ in range(n)] for _ in range(6)]) * np.array([[r.choice([1., 1., 1e-9, 1e6])] for _ in range(6)])


def run_scatter(case, scratch):
    from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    data = six(case['n'], case['seed'])
    ps = RsPhaseSpace6D(case['n'])
    ps.set_array_6d(data.copy())
    with figures() as plt:
        one = RsPhaseSpace6D(1)
        one.set_array_6d(data[:, :1].copy())
        check(refuses(RsScatterPS6D, one), 'a single particle is accepted')
        plot = RsScatterPS6D(ps)
        labels, title = ['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'], None
        drawn = 0
        for kind, a, b in case['steps']:
            if kind == 'label':
                plot.set_label(a, b)
                labels[a] = b
            elif kind == 'title':
                plot.set_title(a)
                title = a
            elif kind == 'data':
                data = six(a, b)
                plot.set_data6d(data.copy())
            else:
                plot.plot_data6d(a, b)
                drawn += 1
                check(len(plt.get_fignums()) == drawn, '%d figures after %d plots', len(plt.get_fignums()), drawn)
                ax = plt.gcf().axes
                check(len(ax) == 1 and len(ax[0].collections) == 1, 'not one scatter plot in a figure')
                points = np.asarray(ax[0].collections[0].get_offsets(), dtype=float)
                check(np.array_equal(points, np.array([data[a], data[b]]).T), 'points of %d against %d', b, a)
                check((ax[0].get_xlabel(), ax[0].get_ylabel()) == (labels[a], labels[b]), 'labels %r instead of %r',
                      (ax[0].get_xlabel(), ax[0].get_ylabel()), (labels[a], labels[b]))
                if title is not None:
                    check(ax[0].get_title() == title, 'title %r instead of %r', ax[0].get_title(), title)
                for limits, v in ((ax[0].get_xlim(), data[a]), (ax[0].get_ylim(), data[b])):
                    near(limits, [-np.abs(v).max(), np.abs(v).max()], 'limits')
        for i in range(6):
            check(plot.get_label(i) == labels[i], 'label %d is %r', i, plot.get_label(i))
        if title is not None:
            check(plot.get_title() == title, 'title %r', plot.get_title())
        check(np.array_equal(plot.get_data6d(), data), 'plotting changed the data')
        if drawn and case['save']:
            path = os.path.join(scratch, 'plot.png')
            plot.save_plots(path)
            check(os.path.getsize(path) > 1000, 'no picture was saved')
        if drawn:
            plot.clear_plots()
            check(len(plt.get_fignums()) == drawn - 1, 'the figure is still open')


def contours():
    return st.fixed_dictionaries(dict(
        flag=st.sampled_from(['scatter', 'line', 'scatter-line', 'contour', 'combo']),
        kind=st.sampled_from(['linear', 'linear', 'log-log', 'semi-logx', 'semi-logy']), n=st.one_of(st.integers(150, 400), st.integers(150, 400), st.integers(150, 3000)),
        seed=st.integers(0, 10**6), divs=st.sampled_from([None, 5, 8, 10]), levels=st.sampled_from([None, 3, 6, 'list'])))


def run_contour(case, scratch):
    from rsbeams.rsplot.plot_ptcls import scatter_contour
    r = random.Random(case['seed'])
    logarithmic = case['kind'] != 'linear'
    few = case['flag'] not in ('contour', 'combo')
    n = case['n'] if not few else case['n'] // 10
    a = np.array([[r.gauss(0, 1), r.gauss(1, 0.2)] for _ in range(n)])
    if logarithmic:
        a = np.exp(a / 3.)
    x, y = a[:, 0].copy(), a[:, 1].copy()
    kwargs = {}
    if case['divs']:
        kwargs['divs'] = case['divs']
    divs = case['divs'] or 10
    hist = np.histogram2d(x, y, divs)[0]
    least = 8 if case['flag'] == 'combo' else 1
    count_ = case['levels'] if isinstance(case['levels'], int) else 10
    levels = np.linspace(least, hist.max(), count_)
    if case['levels'] == 'list':
        levels = [least + 0.5, least + 1.5, hist.max() + 1.]
        kwargs['levels'] = list(levels)
    elif case['levels']:
        kwargs['levels'] = case['levels']
    if not few and hist.max() <= least + 1:
        return
    with figures() as plt:
        ax = plt.figure().add_subplot()
        ref = scatter_contour(case['flag'], case['kind'], x, y, ax, **kwargs)
        check(np.array_equal(a[:, 0], x) and np.array_equal(a[:, 1], y), 'plotting changed the data')
        if few:
            check(ref is None, 'a contour is returned')
            points = [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections]
            lines = [np.asarray(l.get_xydata(), dtype=float) for l in ax.lines]
            check(len(points) == ('scatter' in case['flag']) and len(lines) == ('line' in case['flag']),
                  '%d scatter plots and %d lines for %r', len(points), len(lines), case['flag'])
            for p in points + lines:
                check(np.array_equal(p, a), 'the points are not those given')
            check(ax.get_xscale() == ('log' if case['kind'] in ('log-log', 'semi-logx') else 'linear') and
                  ax.get_yscale() == ('log' if case['kind'] in ('log-log', 'semi-logy') else 'linear'),
                  'scales %s and %s for %s', ax.get_xscale(), ax.get_yscale(), case['kind'])
            return
        near(ref.levels, levels, 'levels')
        from matplotlib.collections import PathCollection
        scatter = [c for c in ax.collections if type(c) is PathCollection]
        # contours lie in the range of the data
        segments = [s for level in ref.allsegs for s in level if len(s)]
        check(segments, 'no contours')
        every = np.vstack(segments)
        for i in (0, 1):
            lo, hi = a[:, i].min(), a[:, i].max()
            check(every[:, i].min() >= lo - 1e-9 * (hi - lo) and every[:, i].max() <= hi + 1e-9 * (hi - lo),
                  'contours outside of the data')
        if case['flag'] == 'contour':
            check(not scatter, 'points in a contour plot')
            return
        check(len(scatter) == 1, '%d scatter plots', len(scatter))
        points = np.asarray(scatter[0].get_offsets(), dtype=float)
        given = {tuple(v) for v in a}
        shown = {tuple(v) for v in points}
        check(len(shown) == len(points) and shown <= given, 'points that were not given')
        # what is far from every dense bin can only be seen as a point
        dense = np.zeros((divs + 2, divs + 2), bool)
        dense[1:-1, 1:-1] = hist >= min(levels)
        for i, v in enumerate(a):
            k = [min(int((v[j] - a[:, j].min()) / (a[:, j].max() - a[:, j].min()) * divs), divs - 1) for j in (0, 1)]
            if not dense[max(k[0] - 1, 0):k[0] + 4, max(k[1] - 1, 0):k[1] + 4].any():
                check(tuple(v) in shown, 'a particle is neither in a contour nor shown as a point')


def fields():
    return st.fixed_dictionaries(dict(
        field=st.lists(st.floats(-100., 100.).map(lambda v: round(v, 2)), min_size=1, max_size=40),
        n=st.sampled_from([None, 1, 2, 7, 40]), multiplier=st.sampled_from([None, 1., 1.1, 2]), matrix=st.booleans()))


def run_levels(case, scratch):
    from rsbeams.rsplot.plot_ptcls import gen_contour_levels
    values = case['field']
    if max(map(abs, values)) < 0.01:
        return
    field = np.array(values).reshape(-1, 1) if case['matrix'] else np.array(values)
    before = field.copy()
    kwargs = {k: v for k, v in (('nLevels', case['n']), ('multiplier', case['multiplier'])) if v is not None}
    got = np.array(gen_contour_levels(field, **kwargs), dtype=float)
    n, m = case['n'] or 40, (case['multiplier'] or 1.1) * max(map(abs, values))
    check(np.array_equal(field, before), 'the field was changed')
    check(len(got) == n, '%d levels instead of %d', len(got), n)
    # a range from -m to m in n equal steps, rounded to 3 decimals
    want = -m + 2. * m / n * np.arange(n)
    check(np.all(np.abs(got - want) <= 0.000501 + 1e-12 * m), 'levels %r instead of %r', got, want)


def nontrivial(case):
    return bool(case['page'] and not case['default_page'] or case['bins'] or case['charge'] or case['stored'])


SUBS = [
    Sub('phase space', beams, run_phase_space, 30, nontrivial=nontrivial),
    Sub('longitudinal', beams, run_longitudinal, 40, nontrivial=nontrivial,
        label=lambda c: 'charge %s, stored %s' % (c['charge'], c['stored'])),
    Sub('projection', beams, run_projection, 40, nontrivial=nontrivial, label=lambda c: c['plane']),
    Sub('beamline', lattices, run_beamline, 40,
        nontrivial=lambda c: bool(c['page'] and not c['default_page'] or c['quantities'] or c['xlim'] or c['ylim'])),
    Sub('scatter', scatters, run_scatter, 60, nontrivial=lambda c: any(s[0] == 'plot' for s in c['steps'])),
    Sub('contour', contours, run_contour, 60, label=lambda c: c['flag']),
    Sub('levels', fields, run_levels, 200, nontrivial=lambda c: len(set(c['field'])) > 1),
]
