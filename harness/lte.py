"""elegant lattices: definitions, their independent expansion, and texts in many layouts."""
import random
import re

from hypothesis import strategies as st

from harness import rpn

NAMES = ['Q1', 'Q11', 'q', 'QF', 'D_1', 'D', 'B.H1', 'L-3', 'mon$a', 'W', 'end', 'line', 'sto', 'M1', 'x', 'l1', 'Cav']
LINES = ['RING', 'arc', 'ARC2', 'cell', 'BL.1', 'inj-1', 'l']
TYPES = ['DRIFT', 'quad', 'KQUAD', 'csbend', 'Mark', 'MONI', 'RFCA', 'watch', 'MAXAMP']
KEYS = ['L', 'k1', 'ANGLE', 'Volt', 'E1', 'N_KICKS', 'freq', 'HGAP', 'order']
STRINGS = ['%s.w1', 'w.sdds', 'file name', 'coord', '', 'a=b.x', '/tmp/out', 'yes', 'p central', 'x_y-z', '1.2.3', "abc$1",
           'c:/run/x.w1', 'c, d', 'sddsprocess %i %o -def=u,w', 'h:mm', 'x=1, k1=2, l=3', ',', 'q1: quad, l=2', 'pi0', '2pi',
           '1_0', '2024_01', 'nan', 'INF', '-inf', '1d3', 'infinity', '1e', '+', 'run-lq.w1', 'lq-2', 'a.k1-x', '-a']
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
NAME_CHARACTERS = LETTERS + '0123456789_.$-'
TEXT_CHARACTERS = LETTERS + '0123456789 _.$-+/%=:,;()[]{}@~^?<>|`'
VARIABLES = ['lq', 'kq1', 'spin', 'a', 'v.1', 'x', 'l1', 'angle0', 'Len', 'big_name', 'q1', 'pi2', 'e', 'k1']


def free_names(max_size=45, characters=NAME_CHARACTERS):
    return st.builds(lambda a, b: a + b, st.sampled_from(LETTERS), st.text(characters, max_size=max_size))


@st.composite
def names(draw, usual, **size):
    """Different names, some of which start or end like others"""
    out = draw(st.lists(st.one_of(st.sampled_from(usual), st.sampled_from(usual), free_names()), unique_by=str.lower,
                        **size))
    if draw(st.integers(0, 3)) == 0:
        for i, name in enumerate(out):
            other = draw(st.sampled_from(out))
            new = draw(st.sampled_from([name, name, other + draw(st.text(NAME_CHARACTERS, min_size=1, max_size=3)),
                                        draw(st.sampled_from(LETTERS)) + other, other[:-1] or other]))
            if new.lower() not in [n.lower() for n in out]:
                out[i] = new
    return out


def keep_text(text, values):
    """The text if it means neither a number nor an expression nor holds a variable"""
    words = re.findall(r'[\w.$-]+', text.lower())
    return text if not [w for w in words if w in values] and not _expression(text) and 'line=(' not in text.lower() else 'text'


def _expression(text):
    return bool(text.split()) and all(rpn.NUMBER.fullmatch(word) or word in ('+', '-', '*', '/', 'mult', 'sqrt', 'pi')
                                      for word in text.lower().split())


@st.composite
def lattices(draw):
    variables, values = [], {}
    for name in draw(st.lists(st.one_of(st.sampled_from(VARIABLES), st.sampled_from(VARIABLES), free_names(12, NAME_CHARACTERS[:-1])),
                              unique_by=str.lower, max_size=4)):
        if name.lower() in rpn.RESERVED:
            continue
        tree = draw(rpn.trees(names=sorted(values), max_leaves=4, variables=values))
        values[name.lower()] = rpn.value(tree, values)
        variables.append([name, tree])
    elements = []
    for name in draw(names(NAMES, min_size=1, max_size=6)):
        params = []
        for key in draw(st.lists(st.sampled_from(KEYS), unique_by=str.lower, max_size=4)):
            kind = draw(st.sampled_from(['number', 'rpn', 'string', 'variable'] if values and key != 'L' else
                                        ['number', 'rpn'] if key == 'L' else ['number', 'rpn', 'string']))
            if kind == 'number':
                p = draw(rpn.number_text())
            elif kind == 'string':
                p = draw(st.one_of(st.sampled_from(STRINGS), st.text(TEXT_CHARACTERS, max_size=20)).map(
                    lambda t: keep_text(t, values)))
            elif kind == 'variable':
                p = draw(st.sampled_from(sorted(values)))
            else:
                p = draw(rpn.trees(names=sorted(values), max_leaves=4, variables=values))
            params.append([key, kind, p])
        elements.append(dict(name=name, type=draw(st.sampled_from(TYPES)), params=params))
    taken = [e['name'].lower() for e in elements]
    lines = []
    for name in draw(names(LINES, min_size=1, max_size=5)):
        usable = [e['name'] for e in elements] + [l['name'] for l in lines] * 2
        while name.lower() in taken:
            name += '_'
        taken.append(name.lower())
        lines.append(dict(name=name, members=draw(members(usable))))
    case = dict(variables=variables, elements=elements, lines=lines, seeds=[draw(st.integers(0, 10**6)),
                                                                            draw(st.integers(0, 10**6))],
                root=draw(st.integers(0, 9)) if draw(st.integers(0, 3)) == 0 else -1)
    if len(expand(case, names_only=True, limit=400)) >= 400:
        for l in case['lines']:
            _flatten_counts(l['members'])
    if len(expand(case, names_only=True, limit=400)) >= 400:
        case['root'] = 0
    return case


def draw_count(usable):
    return {1: 320, 2: 123, 3: 40}.get(len(usable), 6)


def members(usable):
    item = st.sampled_from(usable)
    count = st.sampled_from([None, None, None, 1, 2, 3, 10 if len(usable) < 3 else 4, 12 if len(usable) < 5 else 5,
                             draw_count(usable)])
    single = st.tuples(count, st.lists(item, min_size=1, max_size=1)).map(list)
    inner = st.lists(single, min_size=1, max_size=3)
    group = st.tuples(st.sampled_from([1, 2, 3]), inner).map(list)
    nested = st.tuples(st.sampled_from([1, 2, 3]), st.lists(st.one_of(single, group), min_size=1, max_size=3)).map(list)
    return st.lists(st.one_of(single, single, group, nested), min_size=1, max_size=4)


def _flatten_counts(ms):
    for m in ms:
        if m[0]:
            m[0] = 1
        for x in m[1]:
            if not isinstance(x, str):
                _flatten_counts([x])


def root(case):
    return case['lines'][case['root'] % len(case['lines']) if case['root'] >= 0 else -1]


def expand(case, names_only=False, limit=10**6):
    """Names of the elements of the requested line in order, or what the parser should report about each."""
    lines = {l['name'].lower(): l for l in case['lines']}
    elements = {e['name'].lower(): e for e in case['elements']}
    out = []

    def walk(ms):
        for count, items in ms:
            for _ in range(count or 1):
                for x in items:
                    if len(out) >= limit:
                        return
                    if not isinstance(x, str):
                        walk([x])
                    elif x.lower() in lines:
                        walk(lines[x.lower()]['members'])
                    else:
                        out.append(x.lower())
    walk(root(case)['members'])
    if names_only:
        return out
    values = {}
    for name, tree in case['variables']:
        values[name.lower()] = rpn.value(tree, values)
    described = {}
    for n, e in elements.items():
        params = {}
        for key, kind, p in e['params']:
            params[key.lower()] = (p.lower() if kind == 'string' else float(p) if kind == 'number' else
                                   values[p.lower()] if kind == 'variable' else rpn.value(p, values))
        described[n] = (n, e['type'].lower(), params)
    return [described[n] for n in out]


class Layout:
    """Renders a lattice with drawn letter case, quotes, blanks, comments, continuation lines and order."""

    def __init__(self, seed, plain=False):
        self.r = random.Random(seed)
        self.plain = plain

    def p(self, x):
        return not self.plain and self.r.random() < x

    def case(self, text):
        k = self.r.randrange(4) if not self.plain else 0
        return [text, text.upper(), text.lower(), text.swapcase()][k]

    def quoted(self, text, chance=.2):
        return '"%s"' % text if self.p(chance) else text

    def gap(self, chance=.3):
        return ' ' * self.r.randrange(1, 4) if self.p(chance) else ''

    def name(self, text):
        return self.quoted(self.case(text))

    def members(self, ms):
        out = []
        for count, items in ms:
            text = '%d*' % count if count else ''
            if len(items) == 1 and isinstance(items[0], str):
                text += self.name(items[0])
            else:
                text += '(\1' + self.gap() + self.members([m if not isinstance(m, str) else [None, [m]]
                                                         for m in items]) + '\1)'
            out.append(text)
        pieces = ''
        for i, text in enumerate(out):
            pieces += text + self.gap(.15)
            if i < len(out) - 1:
                pieces += ',\0' + self.gap()
        return pieces

    def text_of(self, case):
        variables = ['%% %s sto %s' % (self.gap() + (' ' + self.gap()).join(self.variable_case(t, case)
                                                                          for t in rpn.tokens(tree)), self.case(name))
                     for name, tree in case['variables']]
        definitions = []
        for e in case['elements']:
            text = self.name(e['name']) + self.gap(.1) + ':\1' + self.gap(.8) + self.case(e['type'])
            for key, kind, p in e['params']:
                text += self.gap(.1) + ',\0' + self.gap() + self.case(key) + self.gap(.1) + '=\1'
                if kind == 'string':
                    text += '"%s"' % self.case(p)
                elif kind == 'rpn' and not isinstance(p, str):
                    text += self.gap(.2) + '"' + self.gap(.1) + (' ' + self.gap(.1) + '\1').join(
                        self.variable_case(t, case) for t in rpn.tokens(p)) + self.gap(.1) + '"'
                else:
                    text += self.gap(.2) + self.quoted(self.case(p) if kind == 'variable' else
                                                       self.variable_case(p, case), .4)
            definitions.append(text)
        for l in case['lines']:
            definitions.append(self.name(l['name']) + self.gap(.1) + ':\1' + self.gap(.8) + self.case('line') +
                               self.gap(.1) + '=\1' + self.gap(.1) + '(\1' + self.gap(.2) + self.members(l['members']) +
                               ')')
        if not self.plain:
            self.r.shuffle(definitions)
        out = []
        for v in variables:
            out += self.noise()
            out.append((' ' if self.p(.1) else '') + v + self.comment())
        for text in definitions:
            out += self.noise()
            out += self.broken(self.gap(.1) + text)
        out += self.noise()
        end = '' if self.p(.3) else '\n'
        return '\n'.join(out) + end

    def variable_case(self, token, case):
        names = [n.lower() for n, _ in case['variables']]
        if token.lower() in names or token in ('pi', 'sqrt', 'mult'):
            return self.case(token)
        return self.case(token)

    def comment(self):
        return (' ' + self.gap() + self.r.choice(['! comment', '!', '! q1: quad, l=3', '! a & b', '!x: line=(y)', '!! more', '! was, k1=2 ! now, l=1 !',
                                     '! "quoted, l=3', "! it's, &"])
                if self.p(.2) else '')

    def noise(self):
        out = []
        while self.p(.3):
            out.append(self.r.choice(['', '   ', '! text', '!% 1 sto lq', '  ! q1: drift, l=100', '!', '! a, &',
                                      '! arc: line=(q1)']))
        return out

    def broken(self, text):
        """Splits a definition into continued lines, mostly at its commas, now and then elsewhere between two words."""
        out = ['']
        for part in re.split('([\0\1])', text):
            if part == '\0' and self.p(.25) or part == '\1' and self.p(.06):
                out[-1] += self.gap() + '&' + self.comment()
                if self.p(.15):
                    out.append('! in between')
                out.append(self.gap(.6))
            elif part not in ('\0', '\1'):
                out[-1] += part
        out[-1] += self.gap(.1) + self.comment()
        return out
