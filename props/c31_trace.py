"""C31: lattices of Trace3D and TraceWin."""
import math
import os
import random

from hypothesis import strategies as st

from harness.core import Sub, check

ID = 'C31'
RULE = ('Trace3D and TraceWin lattices of 1 to 8 elements of all supported kinds, written with drawn number formats, '
        'letter case, blanks and comments, against conversions done from the drawn numbers; bend edges and cavity drifts '
        'are merged and compared as well. Non-trivial: two kinds of elements.')

DEG = math.pi / 180.
TRACE3D = dict(drift=(1, ['l'], [1e-3]),
               quadrupole=(3, ['k1', 'l', 'dx', 'dy', 'of'], [1., 1e-3, 1e-3, 1e-3, 1.]),
               sbend=(8, ['angle', 'r', 'index', 'vf'], [DEG, 1e-3, 1., 1.]),
               edge=(9, ['beta', 'r', 'g', 'k1', 'k2'], [DEG, 1e-3, 1e-3, 1., 1.]),
               rfca=(10, ['volt', 'phase', 'egf', 'change_p0', 'h'], [1e6, 1., 1., 1., 1.]))
TRACEWIN = dict(drift=('drift', ['l', 'r', 'ry', 'rx_shift', 'ry_shift'], [1e-3, 1., 1., 1., 1.]),
                quadrupole=('quad', ['l', 'k1', 'r', 'theta', 'g3u3', 'g4u4', 'g5u5', 'g6u6', 'gfr'],
                            [1e-3] + [1.] * 8),
                dtl_cell=('dtl_cel', ['l', 'lq1', 'lq2', 'gc', 'b1', 'b2', 'volt', 'phase', 'r', 'p', 'beta_s', 't_s',
                                      'kts', 'k2ts'], None),
                marker=('set_sync_phase', [], []),
                ncells=('ncells', ['mode', 'n', 'beta', 'volt', 'phase', 'r', 'p', 'ke0ti', 'ke0to', 'dzi', 'dzo'], None),
                freq=('freq', ['frequency'], [1e6]))


def number():
    return st.one_of(
        st.sampled_from(['0', '1', '-1', '12.5', '.5', '-.25', '3.', '1e-3', '2.5E+2', '+4.0', '-1.5e-2', '100', '0.0',
                         '-7.', '1.e1', '25', '2.5e6', '-1e+10', '3E-12', '00012', '1234567.125']),
        st.floats(-1e3, 1e3).map(lambda v: repr(round(v, 6))), st.floats(-50., 50.).map(lambda v: '%.4e' % round(v, 3)),
        st.integers(-500, 500).map(str))


def positive():
    return st.one_of(st.sampled_from(['1', '100.', '2.5e2', '.75', '40', '2856', '11424.', '30e3']), st.floats(0.001, 1e3).map(lambda v: '%.6g' % v))


def counts():
    return st.one_of(*[st.integers(1, 8)] * 6, st.integers(1, 40))


def many():
    """The same few elements over and over, numbered up to some hundred"""
    return st.builds(lambda c, n: dict(c, elements=(c['elements'] * n)[:400]), trace3d(), st.integers(10, 100))


def many_tracewin():
    return st.builds(lambda c, n: dict(c, elements=(c['elements'] * n)[:400]), tracewin(), st.integers(10, 100))


@st.composite
def trace3d(draw):
    elements = []
    for _ in range(draw(counts())):
        kind = draw(st.sampled_from(sorted(TRACE3D)))
        elements.append([kind, [draw(number()) for _ in TRACE3D[kind][1]]])
    return dict(elements=elements, seed=draw(st.integers(0, 10**6)))


@st.composite
def merged(draw):
    """Bends between their edges and cavities between drifts."""
    elements = []
    for _ in range(draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 15)))):
        part = draw(st.sampled_from(['bend', 'cavity', 'cavity', 'quadrupole']))
        kinds = dict(bend=['edge', 'sbend', 'edge'], cavity=['drift', 'rfca', 'drift'], quadrupole=['quadrupole'])[part]
        if part == 'cavity' and elements and elements[-1][0] == 'drift' and draw(st.booleans()):
            kinds = kinds[1:]
        for kind in kinds:
            elements.append([kind, [draw(number()) for _ in TRACE3D[kind][1]]])
    return dict(elements=elements, seed=draw(st.integers(0, 10**6)), bends=draw(st.booleans()))


class Writer:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def gap(self, least=0):
        return ' ' * self.r.randint(least, 3)

    def case(self, text):
        return [text, text.upper(), text.lower()][self.r.randrange(3)]

    def comment(self):
        return self.gap() + self.r.choice(["; comment", ";", "; drift 100 20", "; cmt(7)='x' nt(7)=1, a(1,7)=5"])

    def noise(self):
        out = []
        while self.p(.25):
            out.append(self.r.choice(['', '   ']) if self.p(.5) else self.comment())
        return out

    def trace3d(self, elements):
        out = self.r.choice([[], [' &data'], [' &data', 'er= 938.272, q= 1., w= 2.5, xi= 10.', 'n1= 1, n2= %d,' %
                                              len(elements)]])
        for i, (kind, values) in enumerate(elements):
            out += self.noise()
            n = self.r.choice(['%03d', '%03d', '%d', ' %d', '%d ', '%3d ']) % (i + 1)
            text = self.case("cmt(%s)='%s'" % (n, self.r.choice(['Q1', 'drift a', '', 'entry', 'B-1', 'front', 'ent=2', 'Qa(2)', 'a', '3 k=1', 'cmt']))) + self.gap(1)
            text += self.case('nt(%s)=' % n) + self.gap() + '%d,' % TRACE3D[kind][0] + self.gap(1)
            text += self.case('a(1,%s)=' % n) + self.gap()
            sep = self.r.choice([', ', ',', '  ', ' , '])
            text += sep.join(self.case(v) for v in values) + (',' if self.p(.2) else '')
            out.append(self.gap() + text + (self.comment() if self.p(.2) else ''))
        out += self.noise() + self.r.choice([[], [' &end']])
        return '\n'.join(out) + self.r.choice(['', '\n'])

    def tracewin(self, elements):
        out = []
        for kind, values in elements:
            out += self.noise()
            sep = self.r.choice([' ', '  ', '\t'])
            text = self.gap() + self.case(TRACEWIN[kind][0]) + sep + sep.join(self.case(v) for v in values)
            out.append(text + (self.comment() if self.p(.2) else ''))
        out += self.noise()
        return '\n'.join(out) + self.r.choice(['', '\n'])


def parse(kind, text, scratch):
    from rsbeams.rslattice import trace3d_parser
    path = os.path.join(scratch, 'lattice.txt')
    with open(path, 'w') as f:
        f.write(text)
    p = getattr(trace3d_parser, kind)(path, 'line')
    return p, p()


def verify(line, expected):
    got = list(line.get_beamline_elements())
    check([e.type for e in got] == [k for k, _ in expected], 'elements are %r, not %r', [e.type for e in got],
          [k for k, _ in expected])
    for i, (e, (kind, params)) in enumerate(zip(got, expected)):
        found = {k.lower(): v for k, v in e.parameters.items()}
        check(set(params) <= set(found), 'parameters of element %d (%s) are %r, not %r', i, kind, found, params)
        for k, v in params.items():
            check(abs(found[k] - v) <= 1e-9 * abs(v) + 1e-300, '%s of element %d (%s) is %r, not %r', k, i, kind,
                  found[k], v)
        check(set(found) - set(params) <= {'l'} if 'l' not in params else set(found) == set(params),
              'element %d (%s) has more parameters: %r', i, kind, found)
    names = [e.name for e in got]
    check(len(set(names)) == len(names), 'names are not unique: %r', names)
    total = sum(p.get('l', 0.) for _, p in expected)
    check(abs(line.length - total) <= 1e-9 * sum(abs(p.get('l', 0.)) for _, p in expected), 'length is %r, not %r',
          line.length, total)


def converted3d(elements):
    out = []
    for kind, values in elements:
        _, names, factors = TRACE3D[kind]
        params = {n: float(v) * f for n, v, f in zip(names, values, factors)}
        if kind == 'sbend':
            params['l'] = abs(params['r'] * params['angle'])
        out.append((kind, params))
    return out


def run_trace3d(case, scratch):
    _, line = parse('Trace3d', Writer(case['seed']).trace3d(case['elements']), scratch)
    verify(line, converted3d(case['elements']))
    check([int(e.name) for e in line.get_beamline_elements()] == list(range(1, len(case['elements']) + 1)),
          'names are not the numbers of the elements')


def run_merged(case, scratch):
    parser, line = parse('Trace3d', Writer(case['seed']).trace3d(case['elements']), scratch)
    e = converted3d(case['elements'])
    for i, (kind, p) in enumerate(e):
        if kind == 'rfca':
            before, after = e[i - 1][1], e[i + 1][1]
            p['l'] = before['l'] + after['l']
            before['l'] = after['l'] = 0.
            p['phase'] = 90. - p['phase']
    if case['bends']:
        for i, (kind, p) in enumerate(e):
            if kind == 'sbend':
                first, last = e[i - 1][1], e[i + 1][1]
                p.update(e1=first['beta'], e2=last['beta'], hgap=first['g'] / 2., fint=first['k1'])
        e = [x for x in e if x[0] != 'edge']
        parser.handle_bends()
    parser.handle_cavities()
    verify(line, e)


@st.composite
def tracewin(draw):
    elements = [['freq', [draw(positive())]]] if draw(st.integers(0, 3)) else []
    for _ in range(draw(counts())):
        kind = draw(st.sampled_from(sorted(TRACEWIN)))
        if kind == 'ncells' and not any(k == 'freq' for k, _ in elements):
            elements.append(['freq', [draw(positive())]])
        values = [draw(number()) for _ in TRACEWIN[kind][1]]
        if kind == 'freq':
            values = [draw(positive())]
        elements.append([kind, values])
    return dict(elements=elements, seed=draw(st.integers(0, 10**6)))


def run_tracewin(case, scratch):
    _, line = parse('TraceWin', Writer(case['seed']).tracewin(case['elements']), scratch)
    out, frequency = [], None
    for kind, values in case['elements']:
        _, names, factors = TRACEWIN[kind]
        v = dict(zip(names, map(float, values)))
        if kind == 'freq':
            frequency = v['frequency'] * 1e6
        elif kind == 'dtl_cell':
            l, q1, q2 = v['l'] * 1e-3, v['lq1'] * 1e-3, v['lq2'] * 1e-3
            cavity = dict(l=l - q1 - q2, volt=v['volt'], phase=v['phase'] + 90.,
                          frequency=1. if frequency is None else frequency)
            out += [('quadrupole', dict(k1=v['b1'], l=q1)), ('rfca', cavity), ('quadrupole', dict(k1=v['b2'], l=q2))]
        elif kind == 'ncells':
            l = v['beta'] * v['n'] * 299792458. / frequency
            out.append(('rfca', dict(l=l, volt=v['volt'] * l, phase=v['phase'] + 90., frequency=frequency)))
        else:
            out.append((kind, {n: v[n] * f for n, f in zip(names, factors)}))
    # differences of lengths and phases may cancel
    got = list(line.get_beamline_elements())
    for e, (kind, p) in zip(got, out):
        for k in ('l', 'phase'):
            if kind == 'rfca' and k in p and k in e.parameters and abs(e.parameters[k] - p[k]) <= 1e-10:
                p[k] = e.parameters[k]
    verify(line, out)


def kinds(case):
    return sorted({k for k, _ in case['elements']})


def several(case):
    return len(kinds(case)) > 1


SUBS = [Sub('Trace3D', trace3d, run_trace3d, 250, nontrivial=several, label=kinds),
        Sub('many', many, run_trace3d, 12, nontrivial=several),
        Sub('many of TraceWin', many_tracewin, run_tracewin, 12, nontrivial=several),
        Sub('merged', merged, run_merged, 150, nontrivial=several),
        Sub('TraceWin', tracewin, run_tracewin, 250, nontrivial=several, label=kinds)]
ASSUMPTIONS = ['Every element is on a line of its own and has all of its numbers; field maps are left out.']
