"""C06: elegant particle files <-> species."""
import numpy as np
from hypothesis import strategies as st

from harness import particles as pt
from harness.core import Sub, check

ID = 'C06'
RULE = ('Generated elegant phase-space files (independent encoder; any column order, extra columns and parameters) are '
        'read and compared with the reference conversion; species are written and read back. Non-trivial: at least one '
        'particle has a slope, time or position different from 0.')
ASSUMPTIONS = ['one page per file; momentum is not 0']


def read_file(case, scratch):
    from rsbeams.rsdata.switchyard import Switchyard
    with open('beam.w1', 'wb') as f:
        f.write(pt.encode_elegant(case))
    data = pt.array(case['coords'])
    sw = Switchyard()
    sw.read('beam.w1', 'elegant', 'e')
    s = sw.species['e']
    want = pt.elegant_to_species(data)
    check(s.coordinates.shape == want.shape, 'shape %r', s.coordinates.shape)
    check(s.macroparticle_count == len(data), 'particle count %r', s.macroparticle_count)
    for i, name in enumerate(('x', 'ux', 'y', 'uy', 'ct', 'pt')):
        got = getattr(s, name)
        check(pt.close(got, want[:, i], 1e-15 * (0 if i in (0, 2, 5) else 2)), '%s: %r instead of %r', name, got[:4],
              want[:4, i])
        check(pt.same(got, s.coordinates[:, i]), 'column order of %s', name)
    charge = float(np.squeeze(s.total_charge))
    check(charge == (case['charge'] or 0.), 'charge %r instead of %r', charge, case['charge'])
    pt.electrons(s)


@st.composite
def species(draw, *many):
    return dict(coords=draw(pt.many_coordinates(*many) if many else pt.coordinates(200)), charge=draw(pt.CHARGES), charge_kind=draw(st.sampled_from(
        ['float', 'numpy', 'array'])), again=draw(st.booleans()))


def round_trip(case, scratch):
    from rsbeams.rsdata.switchyard import Switchyard
    from rsbeams.rsptcls.species import Species
    data = pt.elegant_to_species(pt.array(case['coords']))
    kept = data.copy()
    charge = {'float': float, 'numpy': np.float64, 'array': np.array}[case['charge_kind']](case['charge'])
    sw = Switchyard()
    sw.species['a'] = Species(data, charge=-1, mass=0.511e6, total_charge=charge)
    check(sw.write('out.w1', 'elegant', 'a') == 'out.w1', 'returned name')
    check(pt.same(data, kept), 'writing changed the coordinates')
    check(float(np.squeeze(sw.species['a'].total_charge)) == case['charge'], 'writing changed the charge')
    sw.read('out.w1', 'elegant', 'b')
    got = sw.species['b']
    check(pt.close(got.coordinates, kept, 2e-15), 'coordinates after write and read: %r instead of %r',
          got.coordinates[:2], kept[:2])
    for i in (0, 2, 5):
        check(pt.same(got.coordinates[:, i], kept[:, i]), 'column %d is not exact', i)
    check(float(np.squeeze(got.total_charge)) == case['charge'], 'charge %r instead of %r', got.total_charge,
          case['charge'])
    pt.electrons(got)
    if case['again']:
        sw.write('out2.w1', 'elegant', 'b')
        sw.read('out2.w1', 'elegant', 'c')
        check(pt.close(sw.species['c'].coordinates, kept, 4e-15), 'second round trip')


def file_content(case, scratch):
    """The written file holds slopes, seconds and momentum, seen with the generic reader."""
    from rsbeams.rsdata.SDDS import readSDDS
    from rsbeams.rsdata.switchyard import Switchyard
    from rsbeams.rsptcls.species import Species
    data = pt.elegant_to_species(pt.array(case['coords']))
    sw = Switchyard()
    sw.species['species_0'] = Species(data, charge=-1, mass=0.511e6, total_charge=case['charge'])
    sw.write('out.w1', 'elegant')
    r = readSDDS('out.w1')
    r.read()
    want = dict(x=data[:, 0], xp=data[:, 1] / data[:, 5], y=data[:, 2], yp=data[:, 3] / data[:, 5],
                t=data[:, 4] / pt.C, p=data[:, 5])
    columns = r.columns[0]
    for k, v in want.items():
        check(pt.close(columns[k], v, 1e-15), 'column %s', k)
    check(float(np.squeeze(r.parameters['Charge'])) == case['charge'], 'Charge')
    for k, unit in dict(x='m', y='m', t='s', p='m$be$nc').items():
        check(r.column_units(k) == unit, 'unit of %s', k)


def nontrivial(case):
    return bool(np.any(pt.array(case['coords'])[:, :5] != 0))


def label(case):
    n = len(pt.array(case['coords']))
    return ['one particle' if n == 1 else 'few' if n < 6 else 'many'] + (
        ['no charge'] if case['charge'] is None else ['charge 0'] if case['charge'] == 0 else [])


SUBS = [
    Sub('read', lambda: pt.elegant_files(), read_file, 300, nontrivial=nontrivial, label=label),
    Sub('read_many', lambda: pt.elegant_files(max_n=3000), read_file, 40, nontrivial=nontrivial, label=label),
    Sub('read_very_many', lambda: pt.elegant_files(coords=pt.many_coordinates(4000, 70000)), read_file, 1, thorough=30,
        nontrivial=nontrivial, label=label),
    Sub('round_trip_many', lambda: species(4000, 70000), round_trip, 4, thorough=100, nontrivial=nontrivial, label=label),
    Sub('round_trip', species, round_trip, 300, nontrivial=nontrivial, label=label),
    Sub('file_content', species, file_content, 150, nontrivial=nontrivial, label=label),
]
