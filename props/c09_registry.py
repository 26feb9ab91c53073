"""C09: histories of reads and writes through one Switchyard."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import particles as pt
from harness import sddsgen
from harness.core import Sub, check, refuses

ID = 'C09'
RULE = ('Sequences of reads (elegant, OPAL), writes (elegant, genesis, OPAL) and refused calls over three names are '
        'run against a dictionary model; after every step the registered species equal the model. Non-trivial: a name '
        'is read twice or a species is written after a read.')

NAMES = [None, 'a', 'b', 'species_0']


@st.composite
def histories(draw):
    files = [draw(pt.elegant_files(max_n=12)) for _ in range(2)]
    opal = draw(pt.opal_files(max_n=8))
    name = st.sampled_from(NAMES)
    op = st.one_of(
        st.tuples(st.just('read'), st.integers(0, 2), name),
        st.tuples(st.just('read'), st.integers(0, 2), name),
        st.tuples(st.just('write'), st.sampled_from(['elegant', 'genesis', 'opal']), name),
        st.tuples(st.just('bad_read'), st.sampled_from(['genesis', 'warp', '', 'ELEGANT']), name),
        st.tuples(st.just('bad_write'), st.sampled_from(['warp', 'synergia', '']), name),
        st.tuples(st.just('no_file'), st.sampled_from(['elegant', 'opal']), name))
    return dict(files=files, opal=opal, ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=10))])


def history(case, scratch):
    from rsbeams.rsdata.switchyard import Switchyard
    data = []
    for i, f in enumerate(case['files']):
        with open('f%d' % i, 'wb') as out:
            out.write(pt.encode_elegant(f))
        data.append((pt.elegant_to_species(pt.array(f['coords'])), f['charge'] or 0.))
    pt.write_opal('f2', case['opal'])
    last = max(case['opal']['steps'], key=lambda s: s['n'])
    data.append((pt.array(last['coords']), last['charge']))
    sw = Switchyard()
    other = Switchyard()
    model, objects = {}, {}
    for step, (what, arg, name) in enumerate(case['ops']):
        key = name or 'species_0'
        if what == 'read':
            args = ('f%d' % arg, ['elegant', 'elegant', 'opal'][arg]) + (() if name is None else (name,))
            sw.read(*args)
            model.setdefault(key, arg)
        elif what == 'write':
            path = 'out%d' % step
            args = (path, arg) + (() if name is None else (name,))
            if key in model:
                check(sw.write(*args) == path, 'returned name')
                written(arg, path, *data[model[key]])
            else:
                check(refuses(sw.write, *args), 'a species that does not exist is written')
        elif what == 'bad_read':
            check(refuses(sw.read, 'f0', arg, name), 'format %r is read', arg)
        elif what == 'bad_write':
            path = 'out%d' % step
            check(refuses(sw.write, path, arg, name), 'code %r is written', arg)
            check(not os.path.exists(path), 'refused write made a file')
        else:
            check(refuses(sw.read, 'missing.file', arg, name), 'a missing file is read')
        check(set(sw.species) == set(model), 'species %r instead of %r', sorted(sw.species), sorted(model))
        for k, i in model.items():
            s = sw.species[k]
            check(objects.setdefault(k, s) is s, 'species %s was replaced', k)
            check(pt.close(s.coordinates, data[i][0], 4e-15), 'coordinates of %s changed', k)
            check(float(np.squeeze(s.total_charge)) == data[i][1], 'charge of %s changed', k)
            pt.electrons(s)
    check(not other.species, 'another Switchyard got the species')
    for code in ('genesis', 'elegant', 'opal'):
        check(sw.is_supported(code) is True, '%s is not supported', code)
    check(sw.is_supported('warp') is False, 'warp is supported')


def written(code, path, coords, charge):
    """The file holds this species (exact layout: C06, C08)."""
    if code == 'elegant':
        from rsbeams.rsdata.SDDS import readSDDS
        r = readSDDS(path)
        r.read()
        c = r.columns[0]
        check(len(c) == len(coords) and pt.close(c['x'], coords[:, 0], 0) and pt.close(c['p'], coords[:, 5], 0),
              'another species was written')
        check(float(np.squeeze(r.parameters['Charge'])) == charge, 'charge in the file')
    else:
        with open(path) as f:
            lines = f.read().split('\n')
        if code == 'genesis':
            check(float(lines[1].split()[-1]) == charge, 'charge line %r', lines[1])
        rows = np.array([l.split() for l in lines[4 if code == 'genesis' else 1:] if l], dtype=float).reshape(-1, 6)
        check(rows.shape == coords.shape and pt.close(rows[:, 0], coords[:, 0], 0) and
              pt.close(rows[:, 5], coords[:, 5], 0), 'another species was written')


def nontrivial(case):
    seen = set()
    for what, arg, name in case['ops']:
        key = name or 'species_0'
        if what in ('read', 'write') and key in seen:
            return True
        if what == 'read':
            seen.add(key)
    return False


SUBS = [Sub('history', histories, history, 200, nontrivial=nontrivial,
            label=lambda c: sorted({o[0] for o in c['ops']}))]
