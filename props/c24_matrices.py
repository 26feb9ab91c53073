"""C24: transfer matrices of drifts and quadrupoles."""
import math

import numpy as np
import sympy
from hypothesis import strategies as st

from harness.core import Sub, check

ID = 'C24'
RULE = ('Beamlines of 1 to 5 drifts and quadrupoles (focusing, defocusing, strength 0, repeated elements, any letter '
        'case, numbers or variable names) against thick-lens matrices in numpy. Non-trivial: at least two elements, '
        'one a quadrupole.')

# names sympy or Python know, and names of the parameters themselves, are ordinary names here
VARIABLES = ['kq', 'k2', 'x', 'len1', 'K', 'a_b', 'E', 'S', 'I', 'beta', 'lambda', 'N', 'K1', 'L', 'k1', 'l']


def lengths():
    return st.one_of(st.sampled_from([0., 1., 0.1, 2, 0.5, 1e-3]), st.floats(0., 3.).map(lambda v: round(v, 9)))


def strengths():
    return st.one_of(st.sampled_from([0., 0, 1., -1., 2, 0.25, -3.5, 1e-6, -1e-9]),
                     st.floats(-5., 5.).map(lambda v: round(v, 9)))


@st.composite
def beamlines(draw, symbolic=False, max_size=5):
    elements = []
    for i in range(draw(st.integers(1, max_size))):
        if elements and draw(st.integers(0, 4)) == 0:
            elements.append(dict(draw(st.sampled_from(elements))))
            continue
        quad = draw(st.integers(0, 2)) > 0
        e = dict(name='E%d' % i, type=draw(st.sampled_from(['quadrupole', 'QUADRUPOLE', 'Quadrupole'] if quad
                                                           else ['drift', 'DRIFT'])),
                 upper=draw(st.booleans()), l=draw(lengths()))
        if quad:
            e['k1'] = draw(strengths())
        elements.append(e)
    return elements


def single(e, l=None):
    l = e['l'] if l is None else l
    k = e.get('k1', 0.)
    m = np.eye(4)
    for i, s in ((0, k), (2, -k)):
        # s > 0 focuses
        w = math.sqrt(abs(s))
        if s > 0:
            m[i:i + 2, i:i + 2] = [[math.cos(w * l), math.sin(w * l) / w], [-w * math.sin(w * l), math.cos(w * l)]]
        elif s < 0:
            m[i:i + 2, i:i + 2] = [[math.cosh(w * l), math.sinh(w * l) / w], [w * math.sinh(w * l), math.cosh(w * l)]]
        else:
            m[i, i + 1] = l
    return m


def product(elements):
    m = np.eye(4)
    for e in elements:
        m = single(e) @ m
    return m


def make(elements, symbols=None):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    line = StructuredBeamline('line')
    for i, e in enumerate(elements):
        params = {k: e[k] for k in ('l', 'k1') if k in e}
        for k, name in ((symbols or {}).get(e['name']) or {}).items():
            params[k] = name
        line.add_element(e['name'], e['type'], {(k.upper() if e['upper'] else k): v for k, v in params.items()})
    return line


def nested(elements, groups):
    """The same elements with some of them in sub-lines (of sub-lines)"""
    from rsbeams.rslattice.Beamline import StructuredBeamline
    top = StructuredBeamline('top')
    stack = [top]
    for i, e in enumerate(elements):
        g = groups[i % len(groups)]
        if g == 1:
            stack[-1].add_beamline('sub%d' % i)
            stack.append(stack[-1].sequence[-1])
        elif g == 2 and len(stack) > 1:
            stack.pop()
        stack[-1].add_element(e['name'], e['type'], {k: e[k] for k in ('l', 'k1') if k in e})
    if groups[0] == 3:
        top.add_beamline('empty')
    return top


def sublines(case, scratch):
    elements = case['elements']
    line = nested(elements, case['groups'])
    scale = growth(elements)
    close(line.generate_matrix(), product(elements), 'matrix of a line with sub-lines', scale)
    each = line.generate_matrix(concatenate=False)
    check(len(each) == len(elements), '%d matrices for %d elements', len(each), len(elements))
    for m, e in zip(each, elements):
        close(m, single(e), 'matrix of %s' % e)


def subline_cases():
    return st.builds(lambda e, g: dict(elements=e, groups=g), beamlines(),
                     st.lists(st.sampled_from([0, 1, 1, 2, 3]), min_size=1, max_size=5))


def numbers(matrix):
    m = np.array(matrix.tolist() if hasattr(matrix, 'tolist') else matrix, dtype=complex).reshape(4, 4)
    return m


def close(got, want, what, scale=1.):
    g = numbers(got)
    big = max(1., np.abs(want).max()) * scale
    check(np.all(np.abs(g - want) <= 1e-10 * big), '%s: %r instead of %r', what, g, want)


def growth(elements):
    """How much rounding can grow on the way."""
    m = 1.
    for e in elements:
        m *= max(1., np.abs(single(e)).max())
    return m


J = np.array([[0., 1.], [-1., 0.]])


def matrices(case, scratch):
    elements = case['elements']
    line = make(elements)
    want = product(elements)
    got = line.generate_matrix()
    scale = growth(elements)
    close(got, want, 'transfer matrix', scale)
    g = numbers(got)
    for i in (0, 2):
        block = g[i:i + 2, i:i + 2]
        check(abs(np.linalg.det(block) - 1.) <= 1e-10 * scale**2, 'determinant %r', np.linalg.det(block))
        check(np.all(np.abs(block.T @ J @ block - J) <= 1e-10 * scale**2), 'the plane is not symplectic: %r', block)
    check(np.all(g[:2, 2:] == 0.) and np.all(g[2:, :2] == 0.), 'the planes are coupled')
    each = line.generate_matrix(concatenate=False)
    check(len(each) == len(elements), '%d matrices for %d elements', len(each), len(elements))
    for m, e in zip(each, elements):
        close(m, single(e), 'matrix of %s' % e)
    # the elements are as they were, a second call agrees
    close(line.generate_matrix(concatenate=True), want, 'second call', scale)
    for e, r in zip(elements, line.sequence):
        check(dict(r.parameters) == {k: e[k] for k in ('l', 'k1') if k in e}, 'parameters %r', dict(r.parameters))


def splitting(case, scratch):
    elements, cut = case['elements'][:2], case['cut']
    at = case['which'] % len(elements)
    e = elements[at]
    parts = [dict(e, name='a', l=e['l'] * cut), dict(e, name='b', l=e['l'] - e['l'] * cut)]
    split = elements[:at] + parts + elements[at + 1:]
    whole = numbers(make(elements).generate_matrix())
    close(make(split).generate_matrix(), whole, 'split %s' % e, growth(split))


def symbolic(case, scratch):
    elements = case['elements'][:3]
    values, names, symbols = {}, iter(case['names']), {}
    for e in elements:
        if e['name'] in symbols:
            continue
        symbols[e['name']] = {}
        for k in ('l', 'k1'):
            if k in e and (k == 'k1' or case['lengths']) and not (k == 'k1' and e[k] == 0):
                name = None
                if case['shared']:
                    name = next((n for n, v in values.items() if v == e[k]), None)
                name = name or next(names, None)
                if name:
                    symbols[e['name']][k] = name
                    values[name] = e[k]
    if not values:
        return
    line = make(elements, symbols)
    function, matrix = line.generate_matrix()
    order = []
    for e in elements:
        for k in ('l', 'k1'):
            n = symbols[e['name']].get(k)
            if n and n not in order:
                order.append(n)
    want = product(elements)
    args = [complex(values[n]) for n in order]
    close(function(*args), want, 'matrix of the function of %r' % order, growth(elements))
    close(matrix.subs({sympy.Symbol(n): v for n, v in values.items()}, simultaneous=True), want, 'matrix with the values inserted', growth(elements))
    # other values of the same function
    other = {n: v * 0.5 + 0.25 for n, v in values.items()}
    changed = [dict(e, **{k: other[n] for k, n in symbols[e['name']].items()}) for e in elements]
    close(function(*[complex(other[n]) for n in order]), product(changed), 'other values of the function',
          growth(changed))
    zero = [dict(e, **{k: 0. for k in symbols[e['name']]}) for e in elements]
    close(function(*[0j for n in order]), product(zero), 'the function of zeros', growth(zero))
    each, parts = line.generate_matrix(concatenate=False)
    got = each(*args)
    check(len(got) == len(parts) == len(elements), '%d matrices', len(got))
    for m, e in zip(got, elements):
        close(m, single(e), 'matrix of %s' % e)


def cases():
    return st.builds(lambda e: dict(elements=e), beamlines())


@st.composite
def long_cases(draw):
    """Many short elements, so that rounding cannot grow much"""
    n = draw(st.integers(9, 40))
    kinds = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    l = st.floats(0., 0.25).map(lambda v: round(v, 6))
    k = st.one_of(st.sampled_from([0., 1., -1.]), st.floats(-2., 2.).map(lambda v: round(v, 6)))
    elements = []
    for i, kind in enumerate(kinds):
        if kind == 0 and elements:
            elements.append(dict(draw(st.sampled_from(elements))))
        elif kind == 1:
            elements.append(dict(name='E%d' % i, type='quadrupole', upper=False, l=draw(l), k1=draw(k)))
        else:
            elements.append(dict(name='E%d' % i, type='drift', upper=True, l=draw(l)))
    return dict(elements=elements)


def split_cases():
    return st.builds(lambda e, c, w: dict(elements=e, cut=c, which=w), beamlines(max_size=2),
                     st.sampled_from([0.5, 0.25, 0.1, 0., 1.]), st.integers(0, 3))


def symbolic_cases():
    return st.builds(lambda e, n, l, s: dict(elements=e, names=n, lengths=l, shared=s), beamlines(max_size=3),
                     st.permutations(VARIABLES), st.booleans(), st.booleans())


def nontrivial(case):
    return len(case['elements']) > 1 and any('k1' in e for e in case['elements'])


SUBS = [Sub('product', cases, matrices, 60, nontrivial=nontrivial),
        Sub('long', long_cases, matrices, 3, thorough=60, nontrivial=nontrivial),
        Sub('sublines', subline_cases, sublines, 20, nontrivial=lambda c: 1 in c['groups'] and nontrivial(c)),
        Sub('splitting', split_cases, splitting, 30, nontrivial=lambda c: any('k1' in e for e in c['elements'])),
        Sub('symbolic', symbolic_cases, symbolic, 35, nontrivial=nontrivial)]
ASSUMPTIONS = ['Functions of a variable strength are called with complex numbers '
               '(the matrix is written with square roots of K1 and -K1).']
