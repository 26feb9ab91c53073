"""Generated particle coordinates (plain JSON) and their files, without using rsbeams to write them."""
import functools
import random

import numpy as np
from hypothesis import strategies as st

from harness import sddsgen

C = 299792458.


@functools.lru_cache(maxsize=16)
def coordinates(max_n=60):
    """n particles x 6: explicit numbers for few particles, expanded from a seed for many."""
    pos = st.one_of(st.sampled_from([0., -0., 1e-3, -2.5e-6, 1., 1e-12, -3e4]), st.floats(-1., 1.))
    slope = st.one_of(st.sampled_from([0., 1e-3, -1e-6, 0.5]), st.floats(-0.5, 0.5))
    time = st.one_of(st.sampled_from([0., 1e-9, -3e-12, 1e-6]), st.floats(-1e-6, 1e-6))
    mom = st.one_of(st.sampled_from([1., 0.01, 200., 3000.123]), st.floats(1e-3, 1e5))
    row = st.tuples(pos, slope, pos, slope, time, mom).map(list)
    few = st.builds(lambda r: dict(rows=r), st.lists(row, min_size=1, max_size=5))
    # lost particles, unusual sizes, no particles
    odd = st.one_of(pos, st.sampled_from([float('nan'), float('inf'), -float('inf'), 1e300, -1e300, 5e-324, 1e16]))
    odd_slope = st.one_of(slope, st.sampled_from([float('nan'), 1e5, -1e5, 1e-200]))
    odd_mom = st.one_of(mom, st.sampled_from([float('nan'), -1., -200., 1e9, 1e-9, -3e-5]), st.floats(-100., -1e-3))
    odd_row = st.tuples(odd, odd_slope, odd, odd_slope, odd, odd_mom).map(list)
    unusual = st.builds(lambda r: dict(rows=r), st.lists(odd_row, max_size=6))
    many = st.builds(lambda n, s, d: dict(n=n, s=s, scale=d), st.integers(6, max_n), st.integers(0, 2**20),
                     st.sampled_from([1., 1e-6, 1e3]))
    return st.one_of(few, many, many, unusual)


@functools.lru_cache(maxsize=16)
def many_coordinates(lo, hi):
    return st.builds(lambda n, s, d: dict(n=n, s=s, scale=d, fast=1), st.one_of(st.integers(lo, hi), st.integers(lo, hi).map(
        lambda n: n - n % 1000)), st.integers(0, 2**20), st.sampled_from([1., 1e-6, 1e3]))


def array(spec):
    if 'rows' in spec:
        return np.array(spec['rows'], dtype=float).reshape(-1, 6)
    if spec.get('fast'):
        scale = [spec['scale'], 1e-2, spec['scale'], 1e-2, 1e-9, 10.]
        return np.random.default_rng(spec['s']).standard_normal((spec['n'], 6)) * scale + [0, 0, 0, 0, 1e-9, 200.]
    r = random.Random(spec['s'])
    d = spec['scale']
    return np.array([[r.gauss(0, d), r.gauss(0, 1e-2), r.gauss(0, d), r.gauss(0, 1e-2), r.gauss(1e-9, 1e-12),
                      abs(r.gauss(100., 10.)) + 1.] for _ in range(spec['n'])])


NAMES = ['x', 'xp', 'y', 'yp', 't', 'p']
CHARGES = st.one_of(st.sampled_from([0., 1e-9, 5e-10, 1., -1e-9]), st.floats(0, 1e-6))


@st.composite
def elegant_files(draw, max_n=60, coords=None):
    """Description for sddsgen.encode of an elegant phase-space file."""
    return dict(
        coords=draw(coords or coordinates(max_n)), mode=draw(st.sampled_from(['binary', 'ascii'])),
        order=draw(st.permutations(NAMES + ['dt', 'particleID'][:draw(st.integers(0, 2))])),
        charge=draw(st.one_of(st.none(), CHARGES)),
        others=draw(st.lists(st.sampled_from(['Step', 'pCentral', 'Particles', 'SVNVersion', 'Pass']), min_size=1,
                             max_size=4, unique=True)),
        charge_at=draw(st.integers(0, 4)), fmt=draw(st.integers(0, 2)), blank=draw(st.integers(0, 2)),
        endian=draw(st.booleans()), desc=draw(st.booleans()))


def encode_elegant(spec):
    data = array(spec['coords'])
    params, values = [], []
    for name in spec['others']:
        kind, v = dict(Step=('long', 3), pCentral=('double', 123.25), Particles=('long', len(data)),
                       SVNVersion=('string', '28096M, test'), Pass=('long', 0))[name]
        params.append(dict(name=name, type=kind, attrs={}))
        values.append(v)
    if spec['charge'] is not None:
        at = min(spec['charge_at'], len(params))
        params.insert(at, dict(name='Charge', type='double', attrs=dict(units='C')))
        values.insert(at, spec['charge'])
    columns = {n: data[:, i].tolist() for i, n in enumerate(NAMES)}
    columns['dt'] = [0.5] * len(data)
    columns['particleID'] = list(range(1, len(data) + 1))
    cols = [dict(name=n, type='long' if n == 'particleID' else 'double', attrs=dict(units='m'))
            for n in spec['order']]
    rows = [list(r) for r in zip(*[columns[n] for n in spec['order']])]
    layout = dict(endian=spec['endian'], desc=spec['desc'], attr_order=0, quote=1, split=0, head_comments=0,
                  blank=spec['blank'], data_comments=0, trailing=0, fmt=spec['fmt'], sep=1, no_row_counts=False,
                  end_comma=True, final_newline=True)
    return sddsgen.encode(dict(mode=spec['mode'], params=params, cols=cols, layout=layout,
                               pages=[dict(p=values, rows=rows)]))[0]


def elegant_to_species(data):
    """Reference conversion."""
    out = data.copy()
    out[:, 1] = data[:, 1] * data[:, 5]
    out[:, 3] = data[:, 3] * data[:, 5]
    out[:, 4] = data[:, 4] * C
    return out


OPAL = ['x', 'px', 'y', 'py', 'z', 'pz']


def write_opal(path, spec):
    """spec: steps: [{n, coords, charge, attr}], extra: names of other groups."""
    import h5py
    with h5py.File(path, 'w') as f:
        for name in spec['extra']:
            f.create_group(name)
        for step in spec['steps']:
            g = f.create_group('Step#%d' % step['n'])
            data = array(step['coords'])
            for i in step['order']:
                g[OPAL[i]] = data[:, i]
            g['id'] = np.arange(len(data))
            if step['attr'] == 'dump':
                g.attrs['CHARGE'] = np.array([step['charge']])
            elif step['attr'] == 'monitor':
                g.attrs['TotalCharge'] = step['charge']
            elif step['attr'] == 'both':
                g.attrs['TotalCharge'] = step['charge']
                g.attrs['CHARGE'] = step['charge'] + 1e-7
            g.attrs['SPOS'] = 1.5


@st.composite
def opal_files(draw, max_n=30, coords=None):
    numbers = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 3000)), min_size=1, max_size=6,
                            unique=True))
    attr = draw(st.sampled_from(['dump', 'monitor', 'both']))
    coords = coords or st.one_of(*[coordinates(max_n)] * 7 + [st.builds(lambda: dict(rows=[]))])
    return dict(
        steps=[dict(n=n, coords=draw(coords), charge=draw(CHARGES), attr=attr,
                    order=draw(st.permutations(range(6)))) for n in numbers],
        extra=draw(st.lists(st.sampled_from(['Block', 'meta', 'OPAL_flavour', 'Steps', 'Block12', 'run_99', 'Step', '7 steps', 'Step#last']), max_size=2, unique=True)))


def close(got, want, rtol):
    """Element-wise relative comparison of finite arrays (shapes included)."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((got == want) | np.isnan(got) & np.isnan(want) | np.isfinite(got) & np.isfinite(want)
                           & (np.abs(got - want) <= rtol * np.abs(want) + 1e-322)))


def same(got, want):
    """Exactly the same numbers"""
    return np.shape(got) == np.shape(want) and np.array_equal(got, want, equal_nan=True)


def electrons(species):
    """What both readers say about the particles"""
    from harness.core import check
    check(species.charge == -1, 'charge %r of the particles', species.charge)
    check(abs(float(species.mass) / 510998.95 - 1.) < 1e-3, 'mass %r of the particles', species.mass)
