"""C07: OPAL HDF5 files."""
import numpy as np
from hypothesis import strategies as st

from harness import particles as pt
from harness.core import Sub, check, refuses

ID = 'C07'
RULE = ('Generated OPAL files (step numbers, storage order, other groups, both charge attributes) are read with and '
        'without a step number. Non-trivial: more than one step, or step 0, or charge 0.')


@st.composite
def cases(draw, *many):
    f = draw(pt.opal_files(coords=pt.many_coordinates(*many) if many else None))
    f['ask'] = draw(st.one_of(st.none(), st.integers(0, 5)))
    f['name'] = draw(st.sampled_from([None, 'beam']))
    return f


def read_step(case, scratch):
    from rsbeams.rsdata.switchyard import Switchyard
    pt.write_opal('o.h5', case)
    steps = {s['n']: s for s in case['steps']}
    sw = Switchyard()
    if case['ask'] is None:
        want = steps[max(steps)]
        sw.read('o.h5', 'opal', case['name'])
    else:
        n = sorted(steps)[case['ask'] % len(steps)]
        want = steps[n]
        sw.read('o.h5', 'opal', case['name'], step_number=n)
    s = sw.species[case['name'] or 'species_0']
    data = pt.array(want['coords'])
    check(s.coordinates.shape == data.shape, 'shape %r instead of %r', s.coordinates.shape, data.shape)
    for i, name in enumerate(pt.OPAL):
        check(pt.same(s.coordinates[:, i], data[:, i]), '%s of step %d', name, want['n'])
    got = float(np.squeeze(s.total_charge))
    check(got == want['charge'], 'charge of step %d is %r instead of %r', want['n'], got, want['charge'])
    pt.electrons(s)
    missing = next(n for n in range(100000) if n not in steps)
    check(refuses(sw.read, 'o.h5', 'opal', 'other', step_number=missing), 'step that does not exist is read')
    check('other' not in sw.species, 'refused read left a species')


@st.composite
def no_charge(draw):
    f = draw(pt.opal_files())
    for s in f['steps']:
        s['attr'] = 'none'
    return f


def needs_charge(case, scratch):
    from rsbeams.rsdata.switchyard import Switchyard
    pt.write_opal('o.h5', case)
    sw = Switchyard()
    check(refuses(sw.read, 'o.h5', 'opal'), 'file without charge is read')
    check(not sw.species, 'refused read left a species')


def nontrivial(case):
    return len(case['steps']) > 1 or any(s['n'] == 0 or s['charge'] == 0 for s in case['steps'])


def label(case):
    out = [case['steps'][0]['attr'], 'steps %d' % len(case['steps'])]
    numbers = [s['n'] for s in case['steps']]
    if max(numbers) != max(numbers, key=str):
        out.append('last step differs from last name')
    if any(not len(pt.array(s['coords'])) for s in case['steps']):
        out.append('step without particles')
    if 0 in numbers:
        out.append('step 0')
    return out


SUBS = [
    Sub('step', cases, read_step, 250, nontrivial=nontrivial, label=label),
    Sub('many', lambda: cases(1500, 20000), read_step, 5, thorough=100, nontrivial=nontrivial, label=label),
    Sub('no_charge', no_charge, needs_charge, 30),
]
