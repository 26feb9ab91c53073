"""C27: lattices of Sirepo."""
import copy
import json
import os
import random

from hypothesis import strategies as st

from harness.core import Sub, check, refuses

ID = 'C27'
RULE = ('Sirepo lattices with elements and acyclic nested lines (negative, repeated, empty, defined in any order), '
        'numeric, text and rpn parameters, imported from a file and from data, against an independent expansion. '
        'Non-trivial: the imported line contains a reversed line that is not its own mirror image, or a variable.')

NAMES = ['Q1', 'q1', 'D2', 'BEND', 'M 1', 'K-3', 'x.y', 'B1', 'SX', 'Cav', 'Q1_2'] + ['E%d' % i for i in range(9)]
LINES = ['ring', 'Cell', 'DBA', 'arc', 'BL 1', 'inj', 'Ring'] + ['S%d' % i for i in range(13)]
TYPES = ['QUAD', 'DRIFT', 'drift', 'CSBEND', 'SEXTUPOLE', 'MARK', 'rfca']
VARIABLES = ['k1_var', 'lq', '1 2 +', 'lq 2 *', 'a', '0', '-1', 'pi 4 /']
KEYS = ['k1', 'angle', 'e1', 'n_kicks', 'group', 'hgap', 'volt', 'order']


@st.composite
def cases(draw):
    cache = {k: draw(st.one_of(st.floats(-10., 10.).map(lambda v: round(v, 6)), st.integers(-5, 5)))
             for k in draw(st.lists(st.sampled_from(VARIABLES), unique=True, max_size=4))}
    ids = draw(st.permutations(range(1, 60)))
    value = st.one_of(st.floats(-10., 10.).map(lambda v: round(v, 6)), st.integers(-10, 10),
                      st.sampled_from(['', 'yes', '0.5', '%s.w1', 'name', 'unknown_var', None, True, False]),
                      st.sampled_from(sorted(cache) or ['no']))
    elements = []
    for i, name in enumerate(draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=draw(st.sampled_from([6, 20]))))):
        e = dict(_id=ids[i], name=name, type=draw(st.sampled_from(TYPES)))
        if draw(st.booleans()):
            e['l'] = draw(st.one_of(st.sampled_from([0, 0.1, 1, 2.5]), st.sampled_from(sorted(cache) or [0.5])))
        for k in draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=3)):
            e[k] = draw(value)
        elements.append(e)
    lines, size = [], {}
    for i, name in enumerate(draw(st.lists(st.sampled_from(LINES), unique=True, min_size=1, max_size=draw(st.sampled_from([5, 16]))))):
        known = [l['id'] for l in lines if size[l['id']] <= 60]
        item = st.one_of(st.sampled_from([e['_id'] for e in elements]),
                         st.sampled_from(known + [-k for k in known])) if known else \
            st.sampled_from([e['_id'] for e in elements])
        items = draw(st.lists(item, min_size=0 if i else 1, max_size=5))
        lines.append(dict(id=ids[20 + i], name=name, items=items))
        size[ids[20 + i]] = sum(size.get(abs(k), 1) for k in items)
    root = draw(st.integers(0, 9)) if draw(st.integers(0, 3)) == 0 else -1
    return dict(cache=cache, elements=elements, lines=lines, root=root, seed=draw(st.integers(0, 10**6)),
                source=draw(st.sampled_from(['file', 'data', 'path'])))


def root_of(case):
    return case['lines'][case['root'] % len(case['lines']) if case['root'] >= 0 else -1]


def data_of(case):
    r = random.Random(case['seed'])
    beamlines = [dict(copy.deepcopy(l), l=0, angle=0.1, count=len(l['items']), length=1.5) for l in case['lines']]
    elements = copy.deepcopy(case['elements'])
    r.shuffle(beamlines)
    r.shuffle(elements)
    return dict(models=dict(beamlines=beamlines, elements=elements, rpnCache=dict(case['cache']),
                            rpnVariables=[], simulation=dict(name='x', activeBeamlineId=beamlines[0]['id'])),
                simulationType='elegant')


def expand(case):
    """The structure: ('line', name, [...]) or ('element', name, type, parameters)."""
    lines = {l['id']: l for l in case['lines']}
    elements = {e['_id']: e for e in case['elements']}

    def walk(line):
        out = []
        for item in line['items']:
            if abs(item) in lines:
                sub = walk(lines[abs(item)])
                out.append(('line', lines[abs(item)]['name'], mirror(sub) if item < 0 else sub))
            else:
                e = elements[item]
                params = {k.lower(): case['cache'][v] if isinstance(v, str) and v in case['cache'] else v
                          for k, v in e.items() if k not in ('name', 'type')}
                out.append(('element', e['name'], e['type'].lower(), params))
        return out
    return walk(root_of(case))


def mirror(items):
    return [('line', i[1], mirror(i[2])) if i[0] == 'line' else i for i in reversed(items)]


def flatten(items):
    for i in items:
        if i[0] == 'line':
            yield from flatten(i[2])
        else:
            yield i


def equal(a, b):
    return type(a) is type(b) and a == b


def compare(case, line):
    expected = list(flatten(expand(case)))
    got = list(line.get_beamline_elements())
    check([e.name for e in got] == [e[1] for e in expected], 'elements %r instead of %r', [e.name for e in got][:40],
          [e[1] for e in expected][:40])
    total = 0.
    for e, (_, name, kind, params) in zip(got, expected):
        check(e.type == kind, 'type of %s is %r, not %r', name, e.type, kind)
        found = {k.lower(): v for k, v in e.parameters.items()}
        # the number of an element in the Sirepo model may or may not be kept
        found.pop('_id', None)
        params = {k: v for k, v in params.items() if k != '_id'}
        check(set(found) == set(params) and all(equal(params[k], found[k]) for k in params),
              'parameters of %s are %r, not %r', name, found, params)
        if isinstance(params.get('l'), (int, float)):
            total += params['l']
    if all(isinstance(e[3].get('l', 0), (int, float)) for e in expected):
        check(abs(line.length - total) <= 1e-9, 'length %r instead of %r', line.length, total)
    check(line.name == root_of(case)['name'], 'the line is called %r', line.name)


def run_import(case, scratch):
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    data = data_of(case)
    source = data
    if case['source'] != 'data':
        source = os.path.join(scratch, 'x.json')
        with open(source, 'w') as f:
            json.dump(data, f)
        if case['source'] == 'path':
            from pathlib import Path
            source = Path(source)
    before = copy.deepcopy(data)
    name = root_of(case)['name']
    compare(case, parse_json(source, name))
    check(data == before, 'the given data were changed')
    # a second import is as the first one
    compare(case, parse_json(source, name))
    # any other line of the same lattice
    for i, l in enumerate(case['lines']):
        compare(dict(case, root=i), parse_json(data, l['name']))


def run_unknown(case, scratch):
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    names = [l['name'] for l in case['lines']]
    data = data_of(case)
    for name in ['nowhere', '', names[0] + 'x', names[0] + ' ', ' ' + names[0], names[0][:-1], names[0] + '\n', names[0].swapcase(), case['elements'][0]['name']]:
        if name not in names:
            check(refuses(parse_json, data, name), 'a line called %r is imported though there is none', name)
    used = {abs(i) for l in case['lines'] for i in l['items']}
    root = root_of(case)
    if root['items']:
        missing = abs(root['items'][case['seed'] % len(root['items'])])
        for kind, key in (('elements', '_id'), ('beamlines', 'id')):
            data['models'][kind] = [x for x in data['models'][kind] if x[key] != missing]
        check(refuses(parse_json, data, root['name']), 'item %d has no definition but the line is imported', missing)


def nontrivial(case):
    e = expand(case)

    def reversed_(items, line):
        lines = {l['id']: l for l in case['lines']}
        for i in line['items']:
            if abs(i) in lines:
                if i < 0 and len(lines[-i]['items']) > 1 and lines[-i]['items'] != lines[-i]['items'][::-1]:
                    return True
                if reversed_(items, lines[abs(i)]):
                    return True
        return False
    return reversed_(e, root_of(case)) or any(
        isinstance(v, str) and v in case['cache'] for x in case['elements'] for v in x.values())


def labels(case):
    def depth(items):
        return 1 + max([depth(i[2]) for i in items if i[0] == 'line'], default=0)
    return ['depth %d' % depth(expand(case)), case['source']]


SUBS = [Sub('import', cases, run_import, 350, nontrivial=nontrivial, label=labels),
        Sub('unknown', cases, run_unknown, 100, nontrivial=nontrivial)]
ASSUMPTIONS = ['Names of elements are unique (as Sirepo makes them); only lines may be negative.']
