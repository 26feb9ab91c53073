"""A model of StructuredBeamline: beamlines, elements and histories of operations on them."""
from hypothesis import strategies as st

ELEMENT_NAMES = ['Q1', 'q1', 'Q2', 'D1', 'd1', 'D1', 'd1', 'B', 'M 1', 'x.y', 'C-7', 'W"q', 'end']
LINE_NAMES = ['arc', 'ring', 'cell', 'ARC', 'l1']
TYPES = ['QUAD', 'drift', 'Drift', ' csbend ', 'MARK', 'rfca', 'monitor', 'KQUAD\n']
PARAMETERS = ['l', 'L', 'K1', 'k1', 'angle', 'ANGLE', 'Volt', 'order', 'N_Slices', 'name', 'TYPE', 'a-b', 'Parameters', 'X ray']


def mixed_case(name, flag):
    return name.upper() if flag == 1 else name.lower() if flag == 2 else name.swapcase() if flag == 3 else name


LENGTH = st.one_of(st.sampled_from([0., 1., 0.1, 2, 0, 1e-3, 0.25, -0.5, -2]), st.floats(0., 10.).map(lambda v: round(v, 9)),
                   st.floats(0., 10.).map(lambda v: round(v, 9)), st.floats(-5., 0.).map(lambda v: round(v, 9)))
TEXT = st.one_of(st.sampled_from(['', 'yes', 'no', 'null', '~', '1', '1.0', '1e-6', '0x10', 'true', 'a: b', '- x', '#c',
                                  "it's", '"q"', ' lead', 'trail ', 'a\nb', '[1, 2]', '{a: b}', '%f.txt', '@x', '&a',
                                  '*b', '!t', '|', '>', '1_000', '.5', '5.', '012', '2024-01-01', 'inf', '.nan', 'é',
                                  'a\tb', '=', '<<', 'None', '12:30:45', '3:25', '0o7', '0b1', 'y', 'N', '\\', 'a,b',
                                  'long ' * 30]),
                 st.text(alphabet='abcXYZ019 .-+_:#\'"%', max_size=8))
VALUE = st.one_of(st.sampled_from([0., 1., -1.5, 1e-6, 1e22, -2.5e-300, 1e5, 123456789.123, 0.1, 1e16, 1e-5, 1, 0, -7,
                                   10**12, True, False, 1e300, 5e-324, None, 2**53 + 1, -2**63, 1e15, 0.30000000000000004]),
                  st.floats(-100., 100.), st.integers(-10**6, 10**6), TEXT)


@st.composite
def parameters(draw, value=VALUE, max_size=4):
    out = {}
    for _ in range(draw(st.integers(0, max_size))):
        k = draw(st.sampled_from(PARAMETERS))
        if k.lower() in [x.lower() for x in out]:
            continue
        out[k] = draw(LENGTH if k.lower() == 'l' else value)
    return out


class Line:
    def __init__(self, name):
        self.name, self.sequence, self.elements, self.lines = name, [], {}, {}

    def flat(self):
        for item in self.sequence:
            if isinstance(item, Line):
                yield from item.flat()
            else:
                yield item


class Ele:
    def __init__(self, name, type_, params):
        self.name, self.type = name, type_.lower().strip()
        self.params = {k.lower(): v for k, v in params.items()}


def add_element(line, name, type_, params, sub=False):
    ele = line.elements.get(name)
    if ele is None:
        ele = line.elements[name] = Ele(name, type_, params)
    (line.sequence[-1] if sub else line).sequence.append(ele)
    return ele


def add_line(line, name):
    if name not in line.lines:
        line.lines[name] = Line(name)
    line.sequence.append(line.lines[name])


def targets(line, real):
    """All (model, real) beamlines, the outermost first."""
    out, seen = [], set()

    def walk(m, r):
        if id(m) in seen:
            return
        seen.add(id(m))
        out.append((m, r))
        for a, b in zip(m.sequence, r.sequence):
            if isinstance(a, Line):
                walk(a, b)
    walk(line, real)
    return out


def length(elements):
    total = 0.
    for e in elements:
        v = e.params.get('l', 0.)
        total += v
    return total
