"""C08: genesis and OPAL text files."""
import numpy as np
from hypothesis import strategies as st

from harness import particles as pt
from harness.core import Sub, check

ID = 'C08'
RULE = ('Generated species are written as genesis and OPAL files, which are parsed independently and compared number '
        'by number. Non-trivial: at least two particles.')


@st.composite
def cases(draw, many=False):
    return dict(coords=draw(pt.many_coordinates(2000, 20000) if many else
                            pt.coordinates(draw(st.sampled_from([20, 20, 400])))), charge=draw(pt.CHARGES),
                charge_kind=draw(st.sampled_from(['float', 'numpy', 'array', 'dump'])),
                version=draw(st.sampled_from([None, '2.0', '1.0', '0.1', '10.25', '2.10', '1.3.2', '4', 'beta'])),
                name=draw(st.sampled_from([None, 'e', 'my beam'])), twice=draw(st.booleans()))


# as given by a user, and as the readers of elegant files and OPAL dumps keep it
CHARGE_KINDS = dict(float=float, numpy=np.float64, array=np.array, dump=lambda q: np.array([q]))


def make(case):
    from rsbeams.rsdata.switchyard import Switchyard
    from rsbeams.rsptcls.species import Species
    data = pt.elegant_to_species(pt.array(case['coords']))
    sw = Switchyard()
    name = case['name'] or 'species_0'
    sw.species[name] = Species(data, charge=-1, mass=0.511e6,
                               total_charge=CHARGE_KINDS[case['charge_kind']](case['charge']))
    if case['name']:
        sw.species['species_0'] = Species(np.ones((3, 6)), charge=-1, mass=0.511e6, total_charge=7.)
    return sw, data, data.copy()


def table(lines):
    rows = [[float(v) for v in l.split()] for l in lines]
    check(all(len(row) == 6 for row in rows), 'lines of %r numbers', sorted({len(row) for row in rows}))
    return np.array(rows).reshape(-1, 6)


def genesis(case, scratch):
    sw, data, kept = make(case)
    kwargs = {} if case['version'] is None else dict(version=case['version'])
    for _ in range(1 + case['twice']):
        # an existing file is replaced
        check(sw.write('beam.gen', 'genesis', case['name'], **kwargs) == 'beam.gen', 'returned name')
    check(pt.same(data, kept), 'writing changed the species')
    with open('beam.gen') as f:
        lines = f.read().split('\n')
    check(lines.pop() == '', 'last line')
    head = [l.split() for l in lines[:4]]
    check(head[0] == ['?', 'VERSION', '=', case['version'] or '2.0'], 'version line %r', lines[0])
    check(head[1][:3] == ['?', 'CHARGE', '='] and len(head[1]) == 4 and float(head[1][3]) == case['charge'],
          'charge line %r', lines[1])
    check(head[2][:3] == ['?', 'SIZE', '='] and len(head[2]) == 4 and int(head[2][3]) == len(kept), 'size line %r',
          lines[2])
    check(head[3] == ['?', 'COLUMNS', 'X', 'PX', 'Y', 'PY', 'T', 'P'], 'column line %r', lines[3])
    rows = table(lines[4:])
    check(rows.shape == kept.shape, 'data of shape %r instead of %r', rows.shape, kept.shape)
    for i in (0, 1, 2, 3, 5):
        check(pt.same(rows[:, i], kept[:, i]), 'column %d: %r instead of %r', i, rows[:3, i], kept[:3, i])
    t = kept[:, 4] / pt.C
    if len(t):
        want = t - np.mean(t)
        check(np.all((np.abs(rows[:, 4] - want) <= 1e-14 * np.max(np.abs(t)) + 1e-300) | (rows[:, 4] == want)
                     | np.isnan(want) & np.isnan(rows[:, 4])), 'time column')


def opal(case, scratch):
    sw, data, kept = make(case)
    for _ in range(1 + case['twice']):
        check(sw.write('beam.opal', 'opal', case['name']) == 'beam.opal', 'returned name')
    check(pt.same(data, kept), 'writing changed the species')
    with open('beam.opal') as f:
        lines = f.read().split('\n')
    check(lines.pop() == '', 'last line')
    check(lines[0].split() == [str(len(kept))], 'count line %r', lines[0])
    rows = table(lines[1:])
    check(rows.shape == kept.shape, 'data of shape %r instead of %r', rows.shape, kept.shape)
    check(pt.same(rows, kept), 'coordinates')


def label(case):
    n = len(pt.array(case['coords']))
    return 'one particle' if n == 1 else 'few' if n < 6 else 'many'


SUBS = [Sub(f.__name__, cases, f, 220, nontrivial=lambda c: len(pt.array(c['coords'])) > 1, label=label)
        for f in (genesis, opal)] + [
    Sub(f.__name__ + '_many', lambda: cases(many=True), f, 2, thorough=60, label=label) for f in (genesis, opal)]
