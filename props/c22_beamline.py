"""C22: histories of operations on a structured beamline against a model."""
import copy
import math

from hypothesis import strategies as st

from harness import lattices as lat
from harness.core import Sub, check, refuses

ID = 'C22'
RULE = ('Histories of up to 20 operations (add elements and sub-lines at any depth, insert copies, edit by name and '
        'index, set, update and delete parameters in any letter case, refused calls) on a StructuredBeamline and a '
        'model; the flattened beamline, its length, every position and every parameter are compared after each step. '
        'Non-trivial: a sub-line or a repeated element exists at the end.')


@st.composite
def operations(draw):
    what = draw(st.sampled_from(['element', 'element', 'element', 'line', 'line', 'sub', 'edit name', 'edit index',
                                 'edit list', 'set', 'delete', 'update', 'merge', 'pop', 'default', 'bad sub', 'fixed', 'many']))
    op = dict(what=what, target=draw(st.integers(0, 6)))
    if what in ('element', 'sub'):
        op.update(name=draw(st.sampled_from(lat.ELEMENT_NAMES)), type=draw(st.sampled_from(lat.TYPES)),
                  params=draw(lat.parameters()))
    elif what == 'many':
        op.update(names=draw(st.lists(st.sampled_from(lat.ELEMENT_NAMES), min_size=1, max_size=3)), type='drift',
                  params=draw(lat.parameters()), count=draw(st.integers(5, 80)))
    elif what == 'line':
        op['name'] = draw(st.sampled_from(lat.LINE_NAMES))
    elif what in ('edit name', 'edit index', 'edit list', 'set', 'delete', 'update', 'merge', 'pop', 'default'):
        op.update(which=draw(st.integers(0, 20)), params=draw(lat.parameters()), warn=draw(st.booleans()),
                  case=draw(st.integers(0, 3)), listed=draw(st.booleans()))
    return op


def histories():
    return st.fixed_dictionaries(dict(name=st.sampled_from(['main', '', 'RING']),
                                      ops=st.lists(operations(), min_size=1, max_size=20)))


def compare(model, real, objects, what):
    flat = list(model.flat())
    got = list(real.get_beamline_elements())
    check([e.name for e in got] == [e.name for e in flat], '%s: elements %r instead of %r', what,
          [e.name for e in got], [e.name for e in flat])
    check(math.isclose(real.length, lat.length(flat), rel_tol=1e-12, abs_tol=1e-12), '%s: length %r instead of %r',
          what, real.length, lat.length(flat))
    for m, r in zip(flat, got):
        check(objects.setdefault(id(m), r) is r, '%s: another object for %s', what, m.name)
        check(r.type == m.type, '%s: type %r instead of %r', what, r.type, m.type)
        check(dict(r.parameters) == m.params and all(type(r.parameters[k]) is type(v) for k, v in m.params.items()),
              '%s: parameters %r instead of %r', what, dict(r.parameters), m.params)
        for k, v in m.params.items():
            for flag in range(4):
                name = lat.mixed_case(k, flag)
                check(name in r.parameters and r.parameters[name] == v and r.parameters.get(name) == v,
                      '%s: parameter %s', what, name)
        check('missing' not in r.parameters and r.parameters.get('Missing') is None and
              r.parameters.get('MISSING', 3) == 3 and refuses(lambda: r.parameters['Missing']), 'missing parameter')
    return flat, got


def positions(model, flat, got, what):
    """Only for the outermost beamline."""
    at, s = {}, 0.
    for m, r in zip(flat, got):
        if id(m) not in at:
            at[id(m)] = s
        check(math.isclose(r.edge, at[id(m)], rel_tol=1e-12, abs_tol=1e-12), '%s: %s starts at %r instead of %r', what,
              m.name, r.edge, at[id(m)])
        s += m.params.get('l', 0.)


def history(case, scratch):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    top, real = lat.Line(case['name']), StructuredBeamline(case['name'])
    objects = {}
    for op in case['ops']:
        what = op['what']
        lines = lat.targets(top, real)
        m, r = lines[op['target'] % len(lines)]
        elements = [(i, e) for i, e in enumerate(m.sequence) if isinstance(e, lat.Ele)]
        if what == 'element':
            given = dict(op['params'])
            r.add_element(op['name'], op['type'], given)
            check(given == op['params'], 'the given parameters were changed')
            lat.add_element(m, op['name'], op['type'], op['params'])
        elif what == 'many':
            for i in range(op['count'] if len(list(top.flat())) < 300 else 3):
                name = op['names'][i % len(op['names'])]
                r.add_element(name, op['type'], dict(op['params']))
                lat.add_element(m, name, op['type'], op['params'])
        elif what == 'line':
            r.add_beamline(op['name'])
            lat.add_line(m, op['name'])
            check(r.sequence[-1].name == op['name'], 'name of the sub-line %r', r.sequence[-1].name)
        elif what == 'sub':
            if m.sequence and isinstance(m.sequence[-1], lat.Line):
                r.add_element(op['name'], op['type'], dict(op['params']), subline=True)
                lat.add_element(m, op['name'], op['type'], op['params'], True)
        elif what == 'bad sub':
            if not m.sequence or isinstance(m.sequence[-1], lat.Ele):
                check(refuses(r.add_element, 'never used', 'drift', {}, subline=True), 'an element was added to a '
                      'sub-line that does not exist')
        elif what == 'fixed':
            check(refuses(setattr, r, 'length', 3.), 'length was set')
            for e in list(r.get_beamline_elements())[:1]:
                check(refuses(setattr, e, 'edge', 3.), 'edge was set')
                check(refuses(setattr, e, 'beamline', r), 'beamline was set')
        elif elements and op['params']:
            index, e = elements[op['which'] % len(elements)]
            keys = [lat.mixed_case(k, op['case']) for k in op['params']]
            values = list(op['params'].values())
            if what == 'edit name':
                hit = [x for _, x in elements if x.name == e.name]
                edit(r, e.name, keys, values, op)
                for x in hit:
                    put(x, keys, values, op)
            elif what == 'edit index':
                edit(r, index, keys, values, op)
                put(e, keys, values, op)
            elif what == 'edit list':
                r.edit_element(index - len(m.sequence), keys, values, warnings=op['warn'])
                put(e, keys, values, dict(listed=True))
            elif what == 'set':
                r.sequence[index].parameters[keys[0]] = values[0]
                put(e, keys, values, dict(listed=False))
            elif what == 'update':
                r.sequence[index].parameters.update(dict(zip(keys, values)))
                put(e, keys, values, dict(listed=True))
            elif what == 'merge':
                p, new = r.sequence[index].parameters, dict(zip(keys, values))
                copies = [p | new, p.copy(), copy.copy(p), copy.deepcopy(p)]
                check(dict(p) == e.params, 'a merged copy changed the parameters')
                want = dict(e.params, **{k.lower(): v for k, v in new.items()})
                for k in want:
                    for flag in range(4):
                        name = lat.mixed_case(k, flag)
                        check(name in copies[0] and copies[0][name] == want[k], 'parameter %s of a merge', name)
                        check(k not in e.params or all(c[name] == want[k] if k not in new_keys(new) else
                                                       c[name] == e.params[k] for c in copies[1:]),
                              'parameter %s of a copy', name)
                copies[1]['L'] = copies[2]['l'] = -5.
                check(dict(p) == e.params, 'a copy changed the parameters')
                p |= new
                put(e, keys, values, dict(listed=True))
            elif what == 'default':
                want = e.params.setdefault(keys[0].lower(), values[0])
                check(r.sequence[index].parameters.setdefault(keys[0], values[0]) == want, 'setdefault')
            elif keys[0].lower() in e.params:
                old = e.params.pop(keys[0].lower())
                if what == 'pop':
                    check(r.sequence[index].parameters.pop(keys[0]) == old, 'popped value')
                else:
                    del r.sequence[index].parameters[keys[0]]
            else:
                p = r.sequence[index].parameters
                check(refuses(p.pop, keys[0]) and p.pop(keys[0], 5) == 5, 'a missing parameter was removed')
        for i, (a, b) in enumerate(lat.targets(top, real)):
            flat, got = compare(a, b, objects, what)
            if i == 0:
                positions(a, flat, got, what)
    check(refuses(real.edit_element, 1.5, 'l', 2.), 'edit_element accepts a float')


def new_keys(new):
    return {k.lower() for k in new}


def edit(r, element, keys, values, op):
    if op['listed']:
        r.edit_element(element, keys, values, op['warn'])
    else:
        r.edit_element(element, keys[0], values[0], warnings=op['warn'])


def put(e, keys, values, op):
    for k, v in list(zip(keys, values))[:None if op['listed'] else 1]:
        e.params[k.lower()] = v


def nontrivial(case):
    names = [o.get('name') for o in case['ops'] if o['what'] in ('element', 'sub')]
    return any(o['what'] == 'line' for o in case['ops']) or len(set(names)) < len(names)


SUBS = [Sub('history', histories, history, 700, nontrivial=nontrivial,
            label=lambda c: sorted({o['what'] for o in c['ops']}))]
ASSUMPTIONS = ['Names of elements and of lines differ; editing by name or index applies to the elements of that level.']
