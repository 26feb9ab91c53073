"""C32: conversion of elegant lattices to Warp."""
import copy
import json
import os
import random
import sys
import types

from hypothesis import strategies as st

from harness.core import HarnessError, Sub, check, refuses

ID = 'C32'
RULE = ('Sirepo models of elegant lattices (all kinds of elements that have a counterpart, others, nested, reversed and '
        'repeated lines, design momenta from 0.01 to 100000 MeV/c) converted to a Warp file, which is executed with a '
        'stand-in for warp and compared with an independent expansion and the rigidity p / q. The sirepo package is not '
        'installed; its importer is replaced by one that returns the generated model. Non-trivial: two kinds of elements '
        'that are converted, or an element used twice.')
ASSUMPTIONS = ['sirepo is replaced by a stand-in with the interface the code uses: lib.Importer(code).parse_file(path) '
               'returns the model, template.madx_converter._build_field_map(map)[code].to_madx[type] is the name of the '
               'target followed by its parameters', 'strengths and angles are given, bend angles are not 0']

C = 299792458.
KINDS = dict(DRIF='Drft', CSRDRIFT='Drft', EDRIFT='Drft', LSCDRIFT='Drft', CSBEND='Bend', SBEN='Bend', CSRCSBEND='Bend',
             KSBEND='Bend', NIBEND='Bend', RBEN='Bend', TUBEND='Bend', QUAD='Quad', KQUAD='Quad', SEXT='Sext',
             KSEXT='Sext')
OTHERS = ['MARK', 'RFCA', 'WATCH', 'MONI', 'OCTU', 'DRIFT', 'QUADRUPOLE', 'ECOL', 'KICKER']
NAMES = ['Q1', 'q2', 'D1', 'Bend1', 'SX', 'sf_2', 'M', 'Cav', 'e9', 'K_q', 'wp2', 'B', 'Q', 'Q11', 'long_name_of_a_bend_1', 'long_name_of_a_bend_2', 'long_name_of_a_bend', 'L', 'wp_']
LINES = ['RING', 'CELL', 'ARC', 'INJ', 'BL_1']
VARIABLES = ['lq', 'k1_var', '1 2 /', 'pi 4 /', 'kx']


def value(low, high):
    return st.one_of(st.sampled_from([1, 0.5, 0.1, 2]), st.floats(low, high).map(lambda v: round(v, 6)))


@st.composite
def cases(draw):
    cache = {k: draw(value(0.01, 5.)) for k in draw(st.lists(st.sampled_from(VARIABLES), unique=True, max_size=3))}

    def number(strategy, zero=True):
        how = draw(st.integers(0, 5))
        if how == 0 and cache:
            return draw(st.sampled_from(sorted(cache)))
        v = draw(strategy)
        if how == 1:
            return repr(v)
        return 0 if how == 2 and zero else v
    ids = draw(st.permutations(range(1, 40)))
    elements = []
    for i, name in enumerate(draw(st.lists(st.sampled_from(NAMES), unique_by=str.lower, min_size=1, max_size=7))):
        kind = draw(st.one_of(st.sampled_from(sorted(KINDS)), st.sampled_from(sorted(KINDS)), st.sampled_from(OTHERS)))
        e = dict(_id=ids[i], name=name, type=draw(st.sampled_from([kind, kind, kind.lower()])))
        if kind in KINDS or draw(st.booleans()):
            e['l'] = number(value(0.001, 10.))
        group = KINDS.get(kind)
        if group == 'Bend':
            sign = draw(st.sampled_from([1, 1, -1]))
            angle = number(value(0.001, 3.), zero=False)
            e['angle'] = angle if isinstance(angle, str) else sign * angle
            e['e1'] = 0.1
        if group == 'Quad' or group == 'Bend' and draw(st.booleans()) or group is None and draw(st.booleans()):
            e['k1'] = number(st.one_of(value(-50., 50.), value(0.001, 1.)))
        if group == 'Sext' or group == 'Bend' and draw(st.booleans()):
            e['k2'] = number(value(-500., 500.))
        if draw(st.booleans()):
            e.update(group='', order=draw(st.integers(0, 4)))
        elements.append(e)
    lines = []
    for i, name in enumerate(draw(st.lists(st.sampled_from(LINES), unique=True, min_size=1, max_size=4))):
        known = [l['id'] for l in lines if l['items']]
        item = st.sampled_from([e['_id'] for e in elements] * 2 + known + [-k for k in known])
        lines.append(dict(id=ids[20 + i], name=name, items=draw(st.lists(item, min_size=1, max_size=6 if i else draw(st.sampled_from([6, 6, 6, 40]))))))
    return dict(cache=cache, elements=elements, lines=lines, root=draw(st.one_of(st.just(-1), st.integers(0, 4))),
                seed=draw(st.integers(0, 10**6)),
                momentum=draw(st.one_of(st.sampled_from([1, 0.511, 100., 1000, 0.01]),
                                        st.floats(-2., 5.).map(lambda v: float('%.6g' % 10. ** v)))),
                momentum_text=draw(st.booleans()), lower=draw(st.booleans()),
                commands=draw(st.sampled_from([['run_setup'], ['global_settings', 'run_setup', 'run_control'],
                                               ['rpn_load', 'run_setup']])),
                old_file=draw(st.booleans()), target=draw(st.sampled_from(['out.py', 'sub/warp.txt', 'x'])))


def root_of(case):
    return case['lines'][case['root'] % len(case['lines'])]


def model_of(case):
    r = random.Random(case['seed'])
    beamlines = [dict(copy.deepcopy(l), l=0, angle=0.1, count=len(l['items'])) for l in case['lines']]
    elements = copy.deepcopy(case['elements'])
    r.shuffle(beamlines)
    r.shuffle(elements)
    p = repr(case['momentum']) if case['momentum_text'] else case['momentum']
    commands = [dict(_id=900 + i, _type=t, **(dict(p_central_mev=p, use_beamline=beamlines[0]['name'])
                                              if t == 'run_setup' else {})) for i, t in enumerate(case['commands'])]
    return dict(models=dict(beamlines=beamlines, elements=elements, rpnCache=dict(case['cache']), rpnVariables=[],
                            commands=commands), simulationType='elegant')


def install():
    """Stand-ins for sirepo and the modules that use it."""
    from pykern import pkjson
    from pykern.pkcollections import PKDict

    class Importer:
        def __init__(self, code, *args, **kwargs):
            if code != 'elegant':
                raise HarnessError('a lattice of %r' % code)

        def parse_file(self, path):
            with open(str(path)) as f:
                return pkjson.load_any(f)

    def _build_field_map(field_map):
        out = PKDict()
        for code, groups in field_map.items():
            out[code] = PKDict(from_madx=PKDict(), to_madx=PKDict())
            for group in groups:
                for fields in group[1:]:
                    out[code].from_madx.setdefault(group[0], fields)
                    out[code].to_madx[fields[0]] = [group[0]] + fields[1:]
        return out
    if 'sirepo' in sys.modules and getattr(sys.modules['sirepo'], 'stand_in', False):
        return
    for name in ('sirepo', 'sirepo.lib', 'sirepo.template', 'sirepo.template.madx_converter'):
        sys.modules[name] = types.ModuleType(name)
    sys.modules['sirepo'].stand_in = True
    sys.modules['sirepo'].lib = sys.modules['sirepo.lib']
    sys.modules['sirepo'].template = sys.modules['sirepo.template']
    sys.modules['sirepo.template'].madx_converter = sys.modules['sirepo.template.madx_converter']
    sys.modules['sirepo.lib'].Importer = Importer
    sys.modules['sirepo.template.madx_converter']._build_field_map = _build_field_map


class Made:
    """An element of the stand-in for warp; elements add up to lists."""
    log = []

    def __init__(self, kind, args, params):
        check(not args, 'positional arguments of %s', kind)
        self.kind, self.params = kind, params
        Made.log.append(self)

    def __add__(self, other):
        return Sum([self]) + other


class Sum:
    def __init__(self, items):
        self.items = items

    def __add__(self, other):
        return Sum(self.items + (other.items if isinstance(other, Sum) else [other]))


def execute(text):
    warp = types.ModuleType('warp')
    for kind in ('Drft', 'Bend', 'Quad', 'Sext'):
        setattr(warp, kind, lambda *a, _kind=kind, **k: Made(_kind, a, k))
    before = sys.modules.get('warp')
    sys.modules['warp'] = warp
    Made.log = []
    names = {}
    try:
        exec(compile(text, 'warp file', 'exec'), names)
    finally:
        if before is None:
            del sys.modules['warp']
        else:
            sys.modules['warp'] = before
    return names


def expand(case):
    lines = {l['id']: l for l in case['lines']}

    def walk(items):
        out = []
        for i in items:
            if abs(i) in lines:
                sub = walk(lines[abs(i)]['items'])
                out += sub[::-1] if i < 0 else sub
            else:
                out.append(i)
        return out
    elements = {e['_id']: e for e in case['elements']}
    return [elements[i] for i in walk(root_of(case)['items'])]


def wanted(case, e, rigidity):
    """Kind and parameters of an element in Warp."""
    def number(key):
        v = e[key]
        return float(case['cache'][v] if v in case['cache'] else v)
    kind = KINDS.get(e['type'].upper(), 'Drft')
    params = dict(l=number('l') if 'l' in e else 0.)
    if kind == 'Bend':
        params['rc'] = params['l'] / number('angle')
    elif kind == 'Quad':
        params['db'] = -rigidity * number('k1')
    elif kind == 'Sext':
        params['db'] = -rigidity * number('k2')
    return kind, params


def verify(text, case, rigidity):
    names = execute(text)
    expected = expand(case)
    line = names.get(root_of(case)['name'])
    check(line is not None, 'no line %s in\n%s', root_of(case)['name'], text)
    items = line.items if isinstance(line, Sum) else [line]
    check(len(items) == len(expected), '%d elements in the line, not %d:\n%s', len(items), len(expected), text)
    used = {e['name'].upper() for e in expected}
    check(len(Made.log) == len(used), '%d definitions of %d elements:\n%s', len(Made.log), len(used), text)
    for i, (got, e) in enumerate(zip(items, expected)):
        check(got is names.get(e['name'].upper()), 'element %d of the line is not %s:\n%s', i, e['name'], text)
        kind, params = wanted(case, e, rigidity)
        check(got.kind == kind, '%s is a %s, not a %s', e['name'], got.kind, kind)
        check(set(got.params) == set(params), '%s has the parameters %r, not %r', e['name'], got.params, params)
        for k, v in params.items():
            check(abs(float(got.params[k]) - v) <= 1e-7 * abs(v), '%s of %s (%s) is %r, not %r', k, e['name'], e['type'],
                  got.params[k], v)


def run_convert(case, scratch):
    install()
    from rsbeams.pkcli import lattice
    source, target = os.path.join(scratch, 'in.json'), os.path.join(scratch, case['target'])
    os.makedirs(os.path.dirname(target), exist_ok=True)
    with open(source, 'w') as f:
        json.dump(model_of(case), f)
    before = open(source).read()
    if case['old_file']:
        with open(target, 'w') as f:
            f.write('old text\n' * 500)
    name = root_of(case)['name']
    lattice.elegant_to_warp(source, target, name.lower() if case['lower'] else name)
    check(open(source).read() == before, 'the lattice file was changed')
    with open(target) as f:
        verify(f.read(), case, case['momentum'] * 1e6 / C)


def run_writer(case, scratch):
    """The writer for beamlines whose parameters are ready, more than once."""
    install()
    from rsbeams.rslattice.formatted_writer import WarpWriter
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    line = parse_json(json.loads(json.dumps(model_of(case))), root_of(case)['name'])
    rigidity = case['momentum'] * (1 if case['lower'] else -1)
    ready = {e['name']: wanted(case, e, rigidity)[1] for e in expand(case)}
    for e in line.get_beamline_elements():
        for k, v in ready[e.name].items():
            e.parameters[k.upper() if case['momentum_text'] else k] = v
    writer = WarpWriter(line, 'elegant')
    before = [(e.name, e.type, dict(e.parameters)) for e in line.get_beamline_elements()]
    path = os.path.join(scratch, 'a.py')
    for i in range(2 if case['old_file'] else 1):
        returned = writer.write_file(path)
        check(open(path).read() == returned, 'the returned text is not that of the file')
        verify(returned, case, rigidity)
    check([(e.name, e.type, dict(e.parameters)) for e in line.get_beamline_elements()] == before,
          'writing changed the elements')


@st.composite
def refused_cases(draw):
    return dict(case=draw(cases()), how=draw(st.sampled_from(['momentum', 'line', 'strength'])), at=draw(st.integers(0, 99)))


def run_refused(case, scratch):
    install()
    from rsbeams.pkcli import lattice
    inner = copy.deepcopy(case['case'])
    name = root_of(inner)['name']
    if case['how'] == 'momentum':
        inner['commands'] = [c for c in inner['commands'] if c != 'run_setup']
    elif case['how'] == 'line':
        name = 'NOWHERE'
    else:
        needs = dict(Bend='angle', Quad='k1', Sext='k2')
        used = [e for e in expand(inner) if KINDS.get(e['type'].upper()) in needs]
        if not used:
            return
        e = used[case['at'] % len(used)]
        del e[needs[KINDS[e['type'].upper()]]]
    source, target = os.path.join(scratch, 'in.json'), os.path.join(scratch, 'out.py')
    with open(source, 'w') as f:
        json.dump(model_of(inner), f)
    check(refuses(lattice.elegant_to_warp, source, target, name), 'a lattice without %s is converted', case['how'])
    check(not os.path.exists(target), 'a file is written for a refused lattice')


def nontrivial(case):
    used = expand(case)
    return len({KINDS[e['type'].upper()] for e in used if e['type'].upper() in KINDS}) > 1 or \
        len({e['_id'] for e in used}) < len(used)


def kinds(case):
    return sorted({KINDS.get(e['type'].upper(), 'other') for e in expand(case)})


SUBS = [Sub('convert', cases, run_convert, 300, nontrivial=nontrivial, label=kinds),
        Sub('writer', cases, run_writer, 200, nontrivial=nontrivial, label=kinds),
        Sub('refused', refused_cases, run_refused, 100, label=lambda c: c['how'])]
