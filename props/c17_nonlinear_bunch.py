"""C17: bunches matched to the elliptic potential of a nonlinear insert."""
import contextlib
import functools
import io
import math

import numpy as np
from hypothesis import strategies as st

from harness import bunches, statistics
from harness.core import Sub, check, refuses

ID = 'C17'
RULE = ('The potential at points all over the aperture (and outside) against the complex form of the elliptic '
        'potential; KV, waterbag and Gaussian bunches (quiet or not, alpha of any sign) over histories of settings '
        'and distribution calls against limits of the Hamiltonian. Non-trivial: strength above 0.')


def potential(x, y, t, c):
    """0.5 r^2 + t c^2 Re[z arcsin(z) / sqrt(1 - z^2)] of Danilov and Nagaitsev."""
    z = (np.asarray(x, dtype=complex) + 1j * np.asarray(y)) / c
    return 0.5 * (np.asarray(x)**2 + np.asarray(y)**2) + t * c * c * np.real(z * np.arcsin(z) / np.sqrt(1. - z * z))


def slack(x, y, t, c):
    """Rounding of the potential: the square roots of the elliptic coordinates lose digits near the poles."""
    near = np.minimum(np.hypot(x / c - 1., y / c), np.hypot(x / c + 1., y / c))
    r2 = x * x + y * y
    return 1e-13 * (r2 + t * c * c * (1. + (r2 / (c * c))**1.5)) / np.maximum(near, 1e-12)**1.5


STRENGTH = st.one_of(st.sampled_from([0., 0.1, 0.4, 0.25, 0.498]), st.floats(1e-3, 0.499))
APERTURE = st.one_of(st.sampled_from([0.01, 0.009, 1., 0.1]), st.floats(-3., 1.).map(lambda e: 10.**e))


def points():
    unit = st.one_of(st.sampled_from([0., 0.5, -0.5, 0.999, -0.999, 1e-3, 1e-7]),
                     st.floats(-1.5, 1.5).map(lambda x: round(x, 12)))
    return st.builds(lambda t, c, p: dict(t=t, c=c, p=[list(q) for q in p]), st.one_of(STRENGTH, st.floats(0.49, 3.)),
                     APERTURE, st.lists(st.tuples(unit, unit, unit, unit), min_size=1, max_size=12))


def elliptic(case, scratch):
    from rsbeams.rsptcls.bunch import NonlinearBunch
    t, c = case['t'], case['c']
    b = NonlinearBunch(4, t=t, c=c)
    q = np.array(case['p']).T * c
    # the branch cuts of the complex form and the poles
    keep = ~((np.abs(q[0]) > 0.9995 * c) & (np.abs(q[1]) < 1e-3 * c))
    if not keep.any():
        return
    x, y, px, py = q[:, keep]
    want = potential(x, y, t, c)
    tol = slack(x, y, t, c)
    got = b.compute_potential(x, y)
    check(np.shape(got) == x.shape and np.all(np.abs(got - want) <= tol), 'potential %r instead of %r (t %r, c %r)',
          got, want, t, c)
    one = b.compute_potential(float(x[0]), float(y[0]))
    check(abs(one - want[0]) <= tol[0], 'potential %r instead of %r', one, want[0])
    h = b.compute_Hamiltonian(x, px, y, py)
    check(np.all(np.abs(h - want - 0.5 * (px**2 + py**2)) <= tol + 1e-14 * (px**2 + py**2)), 'Hamiltonian %r', h)
    # a changed strength takes effect
    b.t, b.c = case['t'] / 2., c * 2.
    check(b.t == case['t'] / 2. and b.c == c * 2., 'setters')
    want = potential(x, y, b.t, b.c)
    check(np.all(np.abs(b.compute_potential(x, y) - want) <= slack(x, y, b.t, b.c)), 'potential after a change')


@functools.lru_cache(maxsize=None)
def cases():
    """Emittances are chosen relative to the aperture, so that the rejection sampling ends soon."""
    return bunch_cases()


@st.composite
def bunch_cases(draw):
    dist = draw(st.sampled_from(['KV', 'waterbag', 'Gaussian']))
    c = draw(APERTURE)
    fill = draw(st.floats(0.05, 1.5))
    emitx = (fill * c)**2 * 0.5
    start = dict(t=draw(STRENGTH), c=c, alphax=draw(bunches.ALPHA), alphay=draw(bunches.ALPHA), emitx=emitx,
                 emity=emitx * (1. if dist == 'KV' else draw(st.sampled_from([1., 0.5, 2.]))),
                 cutoff=draw(st.sampled_from([4, 4., 2., 1., 6.5, 0.7])))
    beta = draw(bunches.BETA)
    start['betax'] = start['betay'] = beta
    quiet = draw(st.booleans())
    n = 4 * draw(st.integers(5, 40)) if quiet else draw(st.integers(1, 60))
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        key = draw(st.sampled_from(['betax', 'betay', 'alphax', 'alphay', 't', 'cutoff', 'call', 'call', 'bad']))
        if key == 'call':
            values = dict(betax=draw(bunches.BETA), alphax=draw(bunches.ALPHA), cutoff=draw(st.sampled_from([3., 1.])))
            if dist == 'KV':
                values['emitx'] = emitx * draw(st.sampled_from([1., 0.5]))
                values['emity'] = values['emitx']
            else:
                values['emitx'] = emitx * draw(st.sampled_from([1., 0.5, 2.]))
                values['emity'] = emitx * draw(st.sampled_from([1., 3.]))
            keys = draw(st.lists(st.sampled_from(sorted(values)), unique=True))
            if dist == 'KV' and ('emitx' in keys) != ('emity' in keys):
                keys = [k for k in keys if k[:4] != 'emit']
            ops.append(['call', {k: values[k] for k in sorted(keys)}])
        elif key == 'bad':
            name = draw(st.sampled_from(['betax', 'betay', 't', 'c', 'cutoff']))
            ops.append([key, [name, draw(st.sampled_from([-0.1, -1e-9, -5.] + [0., 0] * (name != 't')))]])
        else:
            v = dict(betax=bunches.BETA, betay=bunches.BETA, alphax=bunches.ALPHA, alphay=bunches.ALPHA, t=STRENGTH,
                     cutoff=st.sampled_from([3., 1.5]))[key]
            ops.append(['set', {key: draw(v)}])
    ops.append(['call', {}])
    return dict(dist=dist, quiet=quiet, n=n, start=start, ops=ops, seed=draw(st.integers(0, 2**32)))


def limits(b, case, model):
    t, c, n = model['t'], model['c'], case['n']
    p = np.array(b.particles, dtype=float)
    check(p.shape == (n, 7) and np.all(np.isfinite(p)), 'particles of shape %r', p.shape)
    beta = model['betax']
    check(np.all(np.abs(p[:, 0]) < c * math.sqrt(beta)), 'particles beyond the aperture')
    x, px, y, py = bunches.normal(p, beta, model['alphax'], beta, model['alphay'])
    h = 0.5 * (px * px + py * py) + potential(x, y, t, c)
    total = model['emitx'] + model['emity']
    turn = 1. + max(abs(model['alphax']), abs(model['alphay']))
    tol = 1e-10 * total * turn**2 + slack(x, y, t, c) + 1e-13 * (px * px + py * py) * turn**2
    # how much the potential may change by rounding of the position
    step = 1e-13 * (np.abs(x) + c)
    tol = tol + np.abs(potential(x + step, y, t, c) - potential(x - step, y, t, c))
    one = h[::4] if case['quiet'] else h
    if case['dist'] == 'KV':
        check(np.all(np.abs(h - model['emitx']) <= tol), 'Hamiltonian between %r and %r instead of %r', h.min(),
              h.max(), model['emitx'])
    elif case['dist'] == 'waterbag':
        check(np.all(h <= total + tol), 'Hamiltonian up to %r, total emittance %r', h.max(), total)
        statistics.ks(one / total, lambda u: np.clip(u, 0., 1.)**2, 'Hamiltonians of a waterbag bunch')
        statistics.tails(np.clip(one / total, 0., 1.)**2, 'Hamiltonians of a waterbag bunch')
    else:
        cut = model['cutoff']
        check(np.all(h <= cut * total + tol), 'Hamiltonian up to %r, limit %r', h.max(), cut * total)
        full = 1. - (1. + cut) * math.exp(-cut)
        statistics.ks(one / total, lambda u: (1. - (1. + u) * np.exp(-u)) / full, 'Hamiltonians of a Gaussian bunch')
        u = np.maximum(one / total, 0.)
        statistics.tails((1. - (1. + u) * np.exp(-u)) / full, 'Hamiltonians of a Gaussian bunch')
    check(np.all(h > -tol), 'negative Hamiltonian %r', h.min())
    if case['quiet']:
        mean = np.abs(p[:, :4].mean(axis=0))
        check(np.all(mean <= 1e-12 * np.abs(p[:, :4]).max(axis=0)), 'centroid %r of a quiet bunch', mean)
        for g in h.reshape(-1, 4):
            check(np.ptp(g) <= 4 * tol.max(), 'mirrored particles have Hamiltonians %r', g)
    elif n > 1:
        check(len(np.unique(p[:, 0])) == n, 'repeated particles')
    # emittances and optics afterwards
    got = [b.emitx, b.emity, b.betax, b.betay, b.alphax, b.alphay, b.t, b.c, b.cutoff]
    want = [model[k] for k in ('emitx', 'emity', 'betax', 'betax', 'alphax', 'alphay', 't', 'c', 'cutoff')]
    check(got == want, 'attributes %r instead of %r', got, want)
    emit = model['emitx'] if case['dist'] == 'KV' else total
    check(abs(b.emit - emit) <= 1e-14 * emit, 'total emittance %r instead of %r', b.emit, emit)
    check(np.array_equal(p[:, 6], np.arange(n)), 'ids')
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        b.print_Twiss()
    seen = dict(line.partition(':')[::2] for line in text.getvalue().replace(' ', '').splitlines())
    for plane in 'xy':
        want = (1. + model['alpha' + plane]**2) / beta
        got = float(seen['gamma' + plane])
        check(abs(got - want) <= 1e-12 * want, 'gamma%s printed as %r instead of %r', plane, got, want)


def bunch(case, scratch):
    from rsbeams.rsptcls.bunch import NonlinearBunch
    model = dict(case['start'])
    b = NonlinearBunch(case['n'], dist=case['dist'], seed=case['seed'], quiet=case['quiet'], **case['start'])
    for what, arg in case['ops']:
        if what == 'bad':
            before = np.array(b.particles)
            arg, value = arg
            old = getattr(b, arg)
            check(refuses(setattr, b, arg, value), '%s = %r is accepted', arg, value)
            if arg in ('betax', 'cutoff'):
                check(refuses(b.set_transverse_coordinates, **{arg: value}), '%s = %r is accepted', arg, value)
            check(getattr(b, arg) == old, 'a refused %s is kept', arg)
            check(np.array_equal(b.particles, before), 'a refused setting changed particles')
        elif what == 'set':
            for k, v in arg.items():
                setattr(b, k, v)
                model['betax' if k == 'betay' else k] = v
            check(b.betax == b.betay == model['betax'], 'beta %r and %r', b.betax, b.betay)
        else:
            model.update(arg)
            b.set_transverse_coordinates(**arg)
            limits(b, case, model)


def positions(v, h, case, what, cells=400):
    """Part of the area with potential below h where x (or y) is below v, for every particle."""
    c = case['c']
    top = c
    while potential(0., top, case['t'], c) < h.max():
        top *= 1.25
    x = (np.arange(cells) + 0.5) / cells * c
    y = (np.arange(cells) + 0.5) / cells * top
    v0 = potential(x[None, :], y[:, None], case['t'], c)
    length = c if what == 'x' else top
    v0 = np.sort(v0, axis=0 if what == 'x' else 1)
    v0 = v0.T if what == 'x' else v0          # a row for each value of the coordinate
    out = np.empty(len(v))
    edge = np.arange(cells + 1) / cells * length
    for i in range(len(v)):
        lengths = (v0 < h[i]).sum(axis=1) if i == 0 or h[i] != h[i - 1] else lengths
        total = np.concatenate([[0.], np.cumsum(lengths)])
        out[i] = np.interp(v[i], edge, total) / max(total[-1], 1)
    return out


def large_cases(n=st.sampled_from([800, 1200, 3000])):
    return st.fixed_dictionaries(dict(
        dist=st.sampled_from(['KV', 'waterbag', 'Gaussian']), n=n,
        t=st.one_of(st.just(0.), STRENGTH), c=APERTURE,
        fill=st.floats(0.2, 1.4), alphax=bunches.ALPHA, beta=bunches.BETA, cutoff=st.sampled_from([4., 2., 6.]),
        seed=st.integers(0, 2**32)))


def large(case, scratch):
    """Enough particles to see how the shells are filled."""
    from rsbeams.rsptcls.bunch import NonlinearBunch
    emit = (case['fill'] * case['c'])**2 * 0.5
    keys = dict(emitx=emit, emity=emit, t=case['t'], c=case['c'], betax=case['beta'], betay=case['beta'],
                alphax=case['alphax'], alphay=-case['alphax'], cutoff=case['cutoff'])
    b = NonlinearBunch(case['n'], dist=case['dist'], seed=case['seed'], **keys)
    b.set_transverse_coordinates()
    limits(b, dict(case, quiet=False), keys)
    p = np.array(b.particles, dtype=float)
    x, px, y, py = bunches.normal(p, case['beta'], case['alphax'], case['beta'], -case['alphax'])
    turn = 2. * math.pi
    statistics.ks(np.arctan2(py, px) % turn / turn, lambda u: u, 'directions of the momenta')
    for v, what in ((x, 'x'), (y, 'y')):
        off = abs(np.mean(v > 0.) - 0.5)
        check(off <= 3.2 / math.sqrt(case['n']), '%s is positive for %r of all particles', what, np.mean(v > 0.))
    for v, w, what in ((x, y, 'x'), (y, x, 'y')):
        u = positions(np.abs(v), 0.5 * (px * px + py * py) + potential(x, y, case['t'], case['c']), case, what)
        statistics.ks(u, lambda t: t, 'positions ' + what, grain=0.012)
        statistics.tails(u, 'positions ' + what, grain=0.003)
    if case['t'] == 0.:
        # every part of the circle with potential below H is equally likely
        v = 0.5 * (x * x + y * y)
        h = v + 0.5 * (px * px + py * py)
        inside = h < 0.49 * case['c']**2       # the circle is cut at the aperture above
        if inside.sum() > 100:
            statistics.ks((v / h)[inside], lambda u: u, 'positions in a linear lattice')
            statistics.ks(np.arctan2(y, x)[inside] % turn / turn, lambda u: u, 'directions of the positions')


def refused_cases():
    return st.builds(lambda k, v, d: dict(name=k, value=0. if v is None and k != 't' else v or -1e-6, dist=d),
                     st.sampled_from(['betax', 'betay', 't', 'c', 'cutoff']),
                     st.one_of(st.sampled_from([None, -1e-9, -1e-300, -1., -50.]), st.floats(-10., -1e-6)),
                     st.sampled_from(['KV', 'waterbag', 'Gaussian']))


def refused(case, scratch):
    from rsbeams.rsptcls.bunch import NonlinearBunch
    b = NonlinearBunch(8, dist=case['dist'], seed=1)
    b.set_transverse_coordinates()
    before = np.array(b.particles)
    name, value = case['name'], case['value']
    old = getattr(b, name)
    check(refuses(setattr, b, name, value), '%s = %r is accepted', name, value)
    if name in ('betax', 'cutoff'):
        check(refuses(b.set_transverse_coordinates, **{name: value}), '%s = %r is accepted', name, value)
    check(getattr(b, name) == old, 'a refused %s is kept', name)
    check(np.array_equal(b.particles, before), 'a refused setting changed particles')


def unequal(case, scratch):
    from rsbeams.rsptcls.bunch import NonlinearBunch
    b = NonlinearBunch(8, dist='KV', seed=1, emitx=case[0], emity=case[0])
    check(refuses(b.set_transverse_coordinates, emity=case[0] * case[1]), 'unequal emittances are accepted')


def unequal_cases():
    return st.tuples(bunches.EMIT, st.sampled_from([2., 0.5, 1.0001])).map(list)


SUBS = [Sub('potential', points, elliptic, 1200, nontrivial=lambda c: c['t'] > 0.),
        Sub('bunch', cases, bunch, 220, nontrivial=lambda c: c['start']['t'] > 0.,
            label=lambda c: c['dist'] + (' quiet' if c['quiet'] else '')),
        Sub('large', large_cases, large, 5, thorough=150, label=lambda c: c['dist']),
        Sub('very-large', lambda: large_cases(st.sampled_from([12000, 15001])), large, 1, thorough=30, label=lambda c: c['dist']),
        Sub('refused', refused_cases, refused, 60),
        Sub('unequal', unequal_cases, unequal, 30)]
ASSUMPTIONS = ['Strengths below 0.5 for bunches (above, the motion is unstable and the code has no limit for y).',
               'Statistical comparisons use limits that a correct sample exceeds with probability below 1e-9.']
