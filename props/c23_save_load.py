"""C23: beamlines through a YAML file."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import lattices as lat
from harness import lte
from harness.core import Sub, check
from props import c25_lte, c27_sirepo

ID = 'C23'
RULE = ('Beamlines nested up to 4 deep, with repeated elements and lines, empty sub-lines, numbers of any size and text '
        'that YAML could take for something else, saved and loaded. Non-trivial: a sub-line or a text parameter.')


@st.composite
def trees(draw, depth=3):
    items = []
    used = {}
    for _ in range(draw(st.integers(0, 5 if depth == 3 else 3))):
        if depth and draw(st.integers(0, 3)) == 0:
            items.append(dict(line=draw(st.sampled_from(lat.LINE_NAMES)), items=draw(trees(depth - 1))))
        else:
            name = draw(st.one_of(st.sampled_from(lat.ELEMENT_NAMES), lat.TEXT.filter(bool)))
            if name not in used:
                used[name] = dict(name=name, type=draw(st.sampled_from(lat.TYPES)), params=draw(lat.parameters()))
            items.append(used[name])
    return items


def cases():
    return st.builds(lambda t, f, c, n, o: dict(items=t, file=f, code=c, name=n, other=o), trees(),
                     st.sampled_from(['b.yml', 'lattice', 'x.json']), st.sampled_from(['elegant', None, '']),
                     st.sampled_from(['new', '']), st.integers(0, 5))


def build(items, line):
    for item in items:
        if 'line' in item:
            known = item['line'] in line.lines
            line.add_beamline(item['line'])
            if not known:
                build(item['items'], line.sequence[-1])
        else:
            line.add_element(item['name'], item['type'], dict(item['params']))


def shape(line):
    """Plain nested lists of what a beamline holds."""
    out = []
    for item in line.sequence:
        if hasattr(item, 'sequence'):
            out.append(shape(item))
        else:
            out.append((item.name, item.type, dict(item.parameters)))
    return out


def same(a, b, where='beamline'):
    check(len(a) == len(b), '%s has %d entries instead of %d', where, len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        here = '%s[%d]' % (where, i)
        check(isinstance(x, list) == isinstance(y, list), '%s: %r instead of %r', here, y, x)
        if isinstance(x, list):
            same(x, y, here)
            continue
        check(x[0] == y[0] and type(y[0]) is str, '%s: name %r instead of %r', here, y[0], x[0])
        check(x[1] == y[1], '%s: type %r instead of %r', here, y[1], x[1])
        check(list(sorted(x[2])) == list(sorted(y[2])), '%s: parameters %r instead of %r', here, y[2], x[2])
        for k, v in x[2].items():
            w = y[2][k]
            check(type(w) is type(v) and (w == v) and repr(w) == repr(v), '%s: %s is %r instead of %r', here, k, w, v)


def counted(line):
    n = {}
    for e in line.get_beamline_elements():
        n[id(e)] = n.get(id(e), 0) + 1
    return n


def save_load(case, scratch):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    line = StructuredBeamline('original')
    build(case['items'], line)
    before = shape(line)
    line.save_beamline(case['file'])
    same(before, shape(line), 'saved beamline')
    new = StructuredBeamline(case['name'])
    new.load_beamline(case['file'], case['code'])
    same(before, shape(new))
    check(math.isclose(new.length, line.length, rel_tol=1e-12, abs_tol=1e-15), 'length %r instead of %r', new.length,
          line.length)
    n, k = counted(line), counted(new)
    for a, b in zip(line.get_beamline_elements(), new.get_beamline_elements()):
        if n[id(a)] == 1 and k[id(b)] == 1:
            check(math.isclose(a.edge, b.edge, rel_tol=1e-12, abs_tol=1e-15), '%s starts at %r instead of %r', a.name,
                  b.edge, a.edge)
    # once more, and over an existing file
    new.save_beamline(case['file'])
    again = StructuredBeamline('third')
    again.load_beamline(case['file'], 'elegant')
    same(before, shape(again), 'second generation')
    # a beamline that is not empty stays as it is
    full = StructuredBeamline('full')
    if case['other'] % 2:
        full.add_beamline('sub')
    if case['other'] != 5:
        # also elements without a length
        full.add_element('Q', 'mark', dict(l=2.) if case['other'] < 2 else dict(l=0.) if case['other'] < 4 else {},
                         subline=case['other'] % 2 == 1)
    was = shape(full)
    full.load_beamline(case['file'], 'elegant')
    same(was, shape(full), 'beamline that was not empty')


@st.composite
def long_cases(draw):
    case = draw(cases())
    items = draw(trees(1).filter(bool)) * draw(st.integers(5, 60))
    inner = draw(st.booleans())
    return dict(case, items=case['items'] + ([dict(line='a long line', items=items)] if inner else items))


@st.composite
def numpy_cases(draw):
    case = draw(cases())
    kinds = draw(st.lists(st.sampled_from(['float64', 'float32', 'int64', 'int32', 'bool_', 'str_']), min_size=1, max_size=4))
    return dict(case, kinds=kinds)


def as_numpy(items, kinds, count):
    out = []
    for i in items:
        if 'line' in i:
            out.append(dict(i, items=as_numpy(i['items'], kinds, count)))
            continue
        params = {}
        for k, v in i['params'].items():
            kind = getattr(np, kinds[count[0] % len(kinds)])
            count[0] += 1
            with np.errstate(all='ignore'):
                try:
                    params[k] = kind(v) if v is not None and isinstance(v, str) == (kind is np.str_) else v
                except OverflowError:
                    params[k] = v
        out.append(dict(i, params=params))
    return out


def plain(nested):
    return [plain(i) if isinstance(i, list) else
            (i[0], i[1], {k: v.item() if isinstance(v, np.generic) else v for k, v in i[2].items()}) for i in nested]


def save_numpy(case, scratch):
    """Numbers that come from numpy are saved as what they are worth."""
    from rsbeams.rslattice.Beamline import StructuredBeamline
    line = StructuredBeamline('original')
    build(as_numpy(case['items'], case['kinds'], [0]), line)
    before = plain(shape(line))
    line.save_beamline(case['file'])
    new = StructuredBeamline('')
    new.load_beamline(case['file'], case['code'])
    for a in before:
        drop_inf(a)
    after = shape(new)
    for a in after:
        drop_inf(a)
    same(before, after, 'beamline with numpy values')


def drop_inf(item):
    # numbers too large for single precision
    for i in item if isinstance(item, list) else [item]:
        if isinstance(i, list):
            drop_inf(i)
        else:
            for k in [k for k, v in i[2].items() if isinstance(v, float) and not math.isfinite(v)]:
                del i[2][k]


def through_file(line, what):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    before = shape(line)
    line.save_beamline('parsed.yml')
    new = StructuredBeamline('new')
    new.load_beamline('parsed.yml', 'elegant')
    same(before, shape(new), what)


def parsed(case, scratch):
    through_file(c25_lte.parse(case, lte.Layout(case['seeds'][0]), scratch), 'beamline of an elegant lattice')


def imported(case, scratch):
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    through_file(parse_json(c27_sirepo.data_of(case), c27_sirepo.root_of(case)['name']), 'beamline of a Sirepo lattice')


def nontrivial(case):
    return any('line' in i or any(isinstance(v, str) for v in i['params'].values()) for i in case['items'])


SUBS = [Sub('save-load', cases, save_load, 300, nontrivial=nontrivial),
        Sub('long', long_cases, save_load, 15, nontrivial=nontrivial),
        Sub('numpy', numpy_cases, save_numpy, 80, nontrivial=nontrivial),
        Sub('parsed', lte.lattices, parsed, 60, nontrivial=c25_lte.nontrivial),
        Sub('imported', c27_sirepo.cases, imported, 60, nontrivial=c27_sirepo.nontrivial)]
