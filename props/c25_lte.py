"""C25: elegant lattice files."""
import copy
import os

from hypothesis import strategies as st

from harness import lte
from harness.core import Sub, check, refuses

ID = 'C25'
RULE = ('Lattices drawn from a grammar (elements with number, expression, variable and text parameters, lines within '
        'lines, repetitions, brackets), each written in two layouts (letter case, quotes, blanks, comments, '
        'continuation lines, order) and compared with an independent expansion. Non-trivial: the requested line '
        'contains another line or a repetition, or parameters with expressions or variables.')


def parse(case, layout, scratch, via_set=False):
    from rsbeams.rslattice.lte_parser import BeamlineParser
    path = os.path.join(scratch, 'x.lte')
    with open(path, 'w') as f:
        f.write(layout.text_of(case))
    name = layout.case(lte.root(case)['name'])
    if via_set:
        p = BeamlineParser(path, case['lines'][0]['name'])
        p.set_beamline(name)
        return p()
    line = BeamlineParser(path, name)()
    check(line.name == name, 'the beamline is called %r, not %r', line.name, name)
    return line


def same(a, b):
    if isinstance(a, float):
        return type(b) is float and (a == b or abs(a - b) <= 1e-12 * abs(a))
    return isinstance(b, str) and a.strip() == b.strip()


def compare(case, line, how):
    expected = lte.expand(case)
    got = list(line.get_beamline_elements())
    names = [e.name for e in got]
    check(names == [e[0] for e in expected], '%s: elements %r instead of %r', how, names[:30],
          [e[0] for e in expected][:30])
    for ele, (name, kind, params) in zip(got, expected):
        check(ele.type == kind, '%s: type of %s is %r, not %r', how, name, ele.type, kind)
        found = {k.lower(): v for k, v in ele.parameters.items()}
        check(sorted(found) == sorted(params), '%s: parameters of %s are %r, not %r', how, name, sorted(found),
              sorted(params))
        for k in params:
            check(same(params[k], found[k]), '%s: %s of %s is %r, not %r', how, k, name, found[k], params[k])


def run_parse(case, scratch):
    compare(case, parse(case, lte.Layout(0, plain=True), scratch), 'plain layout')
    for i, seed in enumerate(case['seeds']):
        compare(case, parse(case, lte.Layout(seed), scratch, via_set=i == 1 and seed % 4 == 0), 'layout %d' % seed)


def run_missing(case, scratch):
    case = copy.deepcopy(case)
    root = lte.root(case)
    used = set(lte.expand(case, names_only=True))
    kind = case['seeds'][0] % 2
    if kind == 0:
        removed = sorted(used)[case['seeds'][1] % len(used)]
        broken = dict(case, elements=[e for e in case['elements'] if e['name'].lower() != removed])
    else:
        removed = root['name'].lower()
        broken = dict(case, lines=[l for l in case['lines'] if l is not root])

    def run():
        from rsbeams.rslattice.lte_parser import BeamlineParser
        path = os.path.join(scratch, 'x.lte')
        with open(path, 'w') as f:
            f.write(lte.Layout(case['seeds'][0]).text_of(broken))
        return BeamlineParser(path, root['name'])()
    check(refuses(run), 'a lattice without a definition of %r is parsed without an error', removed)


def nontrivial(case):
    lines = {l['name'].lower() for l in case['lines']}

    def deep(ms):
        return any(c or len(i) > 1 or not isinstance(i[0], str) or i[0].lower() in lines for c, i in ms)
    return deep(lte.root(case)['members']) or any(p[1] in ('rpn', 'variable') for e in case['elements']
                                                   for p in e['params'])


def labels(case):
    out = ['%d lines' % len(case['lines']), '%d variables' % len(case['variables'])]
    n = len(lte.expand(case, names_only=True))
    return out + ['elements ' + ('1-5' if n < 6 else '6-30' if n < 31 else '>30')]


@st.composite
def deep_cases(draw):
    case = draw(lte.lattices())
    names = [e['name'] for e in case['elements']]
    before, lines = None, []
    for i in range(draw(st.integers(8, 30))):
        one = [None, [draw(st.sampled_from(names))]]
        inner = [[draw(st.sampled_from([None, None, 1])), [before]]] if before else []
        before = 'DEEP%d_%s' % (i, draw(st.sampled_from(['', 'a', 'Z.'])))
        ms = [one] * draw(st.integers(0, 1)) + inner + [one] * draw(st.integers(0, 1))
        lines.append(dict(name=before, members=ms or [one]))
    return dict(case, lines=lines, root=-1)


SUBS = [
    Sub('deep', deep_cases, run_parse, 40, nontrivial=nontrivial),
    Sub('parse', lte.lattices, run_parse, 350, nontrivial=nontrivial, label=labels),
    Sub('missing definitions', lte.lattices, run_missing, 100, nontrivial=nontrivial),
]
