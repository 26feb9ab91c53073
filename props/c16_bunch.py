"""C16: bunches matched to a linear lattice, over histories of settings and distribution calls."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from harness import bunches, statistics
from harness.core import Sub, check, refuses

ID = 'C16'
RULE = ('KV and Gaussian bunches of 1 to 600 particles, some of up to 65000; histories of attribute changes, distribution calls with any '
        'subset of the parameters and refused calls, run against a model of the parameters in force. Non-trivial: '
        'alpha or beta differ between the planes, or differ from their defaults, when particles are drawn.')

DEFAULTS = dict(emitx=1e-6, emity=1e-6, betax=1., alphax=0., betay=1., alphay=0.)


def subset(draw, values):
    keys = draw(st.lists(st.sampled_from(sorted(values)), unique=True, max_size=len(values)))
    return {k: values[k] for k in sorted(keys)}


@st.composite
def histories(draw, many=None):
    dist = draw(st.sampled_from(['Gaussian', 'KV']))
    quiet = dist == 'KV' and draw(st.booleans())
    n = draw(many) if many else draw(st.integers(1, 150)) * 4 if quiet else draw(st.integers(1, 600))
    start = subset(draw, draw(bunches.twiss()))
    if dist == 'KV':
        common = start.get('emitx', start.get('emity'))
        start = {k: v for k, v in start.items() if k[:4] != 'emit'}
        if common:
            start.update(emitx=common, emity=common)
    for k, v in (('stdz', draw(bunches.SPREAD)), ('dpop', draw(bunches.SPREAD))):
        if draw(st.booleans()):
            start[k] = v
    ops = []
    for _ in range(draw(st.integers(1, 2 if many else 6))):
        what = draw(st.sampled_from(['set', 'draw', 'draw', 'z', 'bad', 'unequal']))
        if what == 'set':
            values = draw(bunches.twiss())
            key = draw(st.sampled_from(['betax', 'betay', 'alphax', 'alphay', 'stdz', 'dpop', 'emit']))
            ops.append([what, {key: values['emitx'] if key == 'emit' else values[key] if key in values
                               else draw(bunches.SPREAD)}])
        elif what == 'draw':
            values = subset(draw, draw(bunches.twiss()))
            if dist == 'KV':
                common = values.get('emitx', values.get('emity'))
                values = {k: v for k, v in values.items() if k[:4] != 'emit'}
                if common:
                    values.update(emitx=common, emity=common)
            ops.append([what, values])
        elif what == 'z':
            ops.append([what, subset(draw, dict(stdz=draw(bunches.SPREAD), dpop=draw(bunches.SPREAD)))])
        elif what == 'bad':
            ops.append([what, [draw(st.sampled_from(['betax', 'betay'])), draw(st.sampled_from([-1., -1e-9, -50., 0., 0])),
                               draw(st.booleans())]])
        else:
            ops.append([what, draw(st.sampled_from([0.5, 2., 1.0001])), draw(st.sampled_from('xy'))])
    if not any(o[0] == 'draw' for o in ops):
        ops.append(['draw', {}])
    return dict(dist=dist, quiet=quiet, n=n, start=start, ops=ops, seed=draw(st.integers(0, 2**32)))


def matched(b, p, case, model):
    n = case['n']
    x, px, y, py = bunches.normal(p, *(model[k] for k in ('betax', 'alphax', 'betay', 'alphay')))
    if case['dist'] == 'KV':
        emit = model['emitx']
        check(abs(b.emit - 4. * emit) <= 1e-14 * emit, 'total emittance %r instead of %r', b.emit, 4. * emit)
        h = 0.5 * (x * x + px * px + y * y + py * py)
        check(np.all(np.abs(h - 4. * emit) <= 1e-11 * emit * (1. + model['alphax']**2 + model['alphay']**2)),
              'Hamiltonian between %r and %r instead of %r', h.min(), h.max(), 4. * emit)
        if case['quiet']:
            mean = np.abs(p[:, :4].mean(axis=0))
            check(np.all(mean <= 1e-12 * np.abs(p[:, :4]).max(axis=0)), 'centroid %r of a quiet bunch', mean)
            # every fourth particle was drawn, the others mirror it
            x, px, y, py = x[::4], px[::4], y[::4], py[::4]
        # uniform on the shell: every plane of the four coordinates is uniformly filled
        for u, v in ((x, y), (px, py), (x, px), (y, py), (x, py)):
            statistics.ks((u * u + v * v) / (8. * emit), lambda t: t, 'particles on the KV shell')
            statistics.tails((u * u + v * v) / (8. * emit), 'particles on the KV shell')
            statistics.ks(np.arctan2(v, u) / (2. * math.pi) + 0.5, lambda t: t, 'angles of a KV bunch')
    else:
        for i, plane in ((0, 'x'), (2, 'y')):
            emit, beta, alpha = model['emit' + plane], model['beta' + plane], model['alpha' + plane]
            bunches.spread(p[:, i], math.sqrt(emit * beta), plane)
            bunches.spread(p[:, i + 1], math.sqrt(emit * (1. + alpha * alpha) / beta), plane + "'")
        statistics.distinct(p[:, :4].T, 'Gaussian bunch')
        if n > 100:
            statistics.uncorrelated(p[:, :4].T, 'Gaussian bunch')


def attributes(b, model, n):
    for k in ('emitx', 'emity', 'betax', 'betay', 'alphax', 'alphay', 'stdz', 'dpop', 'npart'):
        want = n if k == 'npart' else model[k]
        check(getattr(b, k) == want, '%s is %r instead of %r', k, getattr(b, k), want)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        b.print_Twiss()
    seen = {}
    for line in text.getvalue().splitlines():
        k, _, v = line.partition(':')
        if v.strip():
            seen[k.strip()] = float(v)
    for plane in 'xy':
        alpha, beta = model['alpha' + plane], model['beta' + plane]
        gamma = (1. + alpha * alpha) / beta
        for k, v in (('alpha', alpha), ('beta', beta), ('gamma', gamma)):
            check(abs(seen[k + plane] - v) <= 1e-12 * abs(v), '%s printed as %r instead of %r', k + plane,
                  seen[k + plane], v)


def history(case, scratch):
    from rsbeams.rsptcls.bunch import StandardBunch
    model = dict(DEFAULTS, stdz=1., dpop=0)
    model.update(case['start'])
    n = case['n']
    b = StandardBunch(n, dist=case['dist'], seed=case['seed'], quiet=case['quiet'], **case['start'])
    check(b.particles.shape == (n, 7), 'shape %r', b.particles.shape)
    total = model['emitx'] + model['emity']
    check(abs(b.emit - total) <= 1e-14 * total, 'total emittance %r instead of %r', b.emit, total)
    for what, arg, *more in case['ops']:
        before = np.array(b.particles)
        if what == 'set':
            for k, v in arg.items():
                if k == 'emit':
                    b.emitx = b.emity = v
                    model['emitx'] = model['emity'] = v
                else:
                    setattr(b, k, v)
                    model[k] = v
            unchanged(b, before, range(7), 'setting %s' % arg)
        elif what == 'draw':
            model.update(arg)
            b.set_transverse_coordinates(**arg)
            unchanged(b, before, (4, 5, 6), 'transverse coordinates')
            check(b.particles.shape == (n, 7), 'shape %r', b.particles.shape)
            matched(b, np.array(b.particles, dtype=float), case, model)
        elif what == 'z':
            model.update(arg)
            b.set_longitudinal_coordinates(**arg)
            unchanged(b, before, (0, 1, 2, 3, 6), 'longitudinal coordinates')
            bunches.spread(b.particles[:, 4], model['stdz'], 'z')
            bunches.spread(b.particles[:, 5], model['dpop'], 'dpop')
            statistics.distinct(np.array(b.particles[:, 4:6], dtype=float).T, 'longitudinal coordinates')
        elif what == 'bad':
            key, value, call = arg
            if call:
                check(refuses(b.set_transverse_coordinates, **{key: value}), '%s = %r is accepted', key, value)
            else:
                check(refuses(setattr, b, key, value), '%s = %r is accepted', key, value)
            unchanged(b, before, range(7), 'refused %s' % key)
        elif case['dist'] == 'KV':
            check(refuses(b.set_transverse_coordinates, **{'emit' + more[0]: model['emitx'] * arg}), 'unequal emittances of a KV '
                  'bunch are accepted')
            unchanged(b, before, range(7), 'refused emittances')
            b.emitx, b.emity = model['emitx'], model['emity']
        check(np.array_equal(b.particles[:, 6], np.arange(n)), 'ids %r', b.particles[:, 6])
        together(b, n, 4 if case['quiet'] else 1)
        attributes(b, model, n)


def together(b, n, step):
    """The planes are independent of each other."""
    if n > 100 * step:
        # the mirror images of a quiet bunch repeat products of coordinates
        p = np.array(b.particles[::step, :6], dtype=float).T
        groups = [[i for i in pair if np.any(p[i])] for pair in
                  ((0, 2, 4, 5), (0, 3, 4, 5), (1, 2, 4, 5), (1, 3, 4, 5))]
        for g in groups:
            if len(g) > 1:
                statistics.uncorrelated(p[g], 'coordinates %r' % (g,))


def unchanged(b, before, columns, what):
    columns = list(columns)
    check(np.array_equal(np.asarray(b.particles)[:, columns], before[:, columns]), '%s changed other coordinates', what)


def hamiltonian(case, scratch):
    from rsbeams.rsptcls.bunch import StandardBunch
    b = StandardBunch(4)
    x, px, y, py = [np.array(v) if case['array'] else v[0] for v in case['v']]
    close(b.compute_potential(x, y), 0.5 * (x * x + y * y), 'potential')
    close(b.compute_Hamiltonian(x, px, y, py), 0.5 * (x * x + px * px + y * y + py * py), 'Hamiltonian')


def close(a, b, what):
    check(np.shape(a) == np.shape(b) and np.all(np.abs(a - b) <= 1e-14 * np.abs(b)), '%s: %r instead of %r', what, a, b)


def points():
    v = st.one_of(st.sampled_from([0., 1., -1., 1e-3]), st.floats(-10., 10.).map(lambda x: round(x, 9)))
    return st.builds(lambda rows, a: dict(v=rows, array=a),
                     st.lists(st.lists(v, min_size=3, max_size=3), min_size=4, max_size=4), st.booleans())


def nontrivial(case):
    return bool(case['start']) or any(o[0] in ('set', 'draw') and o[1] for o in case['ops'])


SUBS = [Sub('history', histories, history, 400, nontrivial=nontrivial,
            label=lambda c: c['dist'] + (' quiet' if c['quiet'] else '')),
        Sub('many', lambda: histories(many=st.one_of(st.integers(250, 2500), st.sampled_from([1024, 5000, 16385])).map(
            lambda n: 4 * n)), history, 4, thorough=150, label=lambda c: c['dist'] + (' quiet' if c['quiet'] else '')),
        Sub('hamiltonian', points, hamiltonian, 150)]
ASSUMPTIONS = ['Statistical comparisons use limits that a correct sample exceeds with probability below 1e-9.',
               'A beta that is not positive is given to the setters or the distribution call, not to the constructor.']
