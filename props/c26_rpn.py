"""C26: reverse Polish expressions."""
import math

from hypothesis import strategies as st

from harness import rpn
from harness.core import Sub, check, refuses

ID = 'C26'
RULE = ('Expression trees over numbers, pi, + - * / mult and sqrt, printed in postfix form with drawn quotes and '
        'spaces, against their direct evaluation; damaged expressions must be refused. Non-trivial: at least two '
        'operations (for refusals: at least one).')


def parse_rpn(text):
    from rsbeams.rslattice.lte_parser import parse_rpn as f
    return f(text)


def text_of(case, toks):
    gaps = case['gaps']
    quote = {0: '', 1: '"', 2: "'"}[case['quote']]
    out = ''
    for i, t in enumerate(toks):
        if case['quote_each'] and quote:
            t = quote + t + quote
        out += (' ' * gaps[i % len(gaps)] if i else '') + t
    if not case['quote_each']:
        out = quote + ' ' * case['pad'] + out + ' ' * case['pad'] + quote
    return ' ' * case['pad'] + out + ' ' * case['pad'] + case['end']


def layouts():
    return dict(gaps=st.lists(st.integers(1, 3), min_size=1, max_size=3), quote=st.integers(0, 2),
                quote_each=st.booleans(), pad=st.integers(0, 2), end=st.sampled_from(['', '\n', ' \n']))


def values():
    return st.fixed_dictionaries(dict(tree=rpn.trees(max_leaves=8), **layouts()))


@st.composite
def deep_values(draw):
    """Sums whose operands are all on the stack at once"""
    parts = draw(st.lists(st.one_of(st.sampled_from(['1', '0.5', '-2', '3', 'pi', '1e-3']), st.integers(-50, 50).map(str)),
                          min_size=8, max_size=60))
    tree = parts[-1]
    for p in reversed(parts[:-1]):
        tree = [draw(st.sampled_from('+-')), p, tree]
    return dict(tree=tree, **{k: draw(v) for k, v in layouts().items()})


def run_values(case, scratch):
    expected = rpn.value(case['tree'])
    text = text_of(case, rpn.tokens(case['tree']))
    got = parse_rpn(text)
    check(type(got) is float, '%r evaluates to %r', text, got)
    # python and the code do the same IEEE operations; the rest is room for another order of factors
    room = 2e-15 * (1 + rpn.size(case['tree']))
    check(math.isclose(got, expected, rel_tol=room, abs_tol=room * rpn.magnitude(case['tree'])),
          '%r evaluates to %r, not to %r', text, got, expected)


@st.composite
def damaged(draw):
    tree = draw(rpn.trees(max_leaves=6))
    toks = rpn.tokens(tree)
    kind = draw(st.sampled_from(['drop', 'word', 'operator', 'empty']))
    case = dict(kind=kind, at=draw(st.integers(0, 30)), word=draw(st.sampled_from(
        ['x', 'foo', 'sto', '--', 'add', 'sqr', '1.2.3', 'e', '^', '**', 'l1', '0x', 'sqrtt', 'k+', '2,', '%', 'plus', 'pi2', '2pi', '0.5pi', '1.pi', 'pi.', 'pie', 'npi', 'pipi', '1d3', '1e', 'e5', '1_0', '1_000.', 'nan', 'NaN', 'inf', 'infinity', '-inf', '1e+', '.', '+.e1', '--1', '0b1', '1j', '\u0663', '1f', 'True'])),
        op=draw(st.sampled_from(rpn.OPS + ['sqrt'])), tokens=toks)
    case.update({k: draw(v) for k, v in layouts().items()})
    return case


def run_damaged(case, scratch):
    toks = list(case['tokens'])
    if case['kind'] == 'drop':
        operands = [i for i, t in enumerate(toks) if t not in rpn.OPS + ['sqrt']]
        toks.pop(operands[case['at'] % len(operands)])
    elif case['kind'] == 'word':
        toks.insert(case['at'] % (len(toks) + 1), case['word'])
    elif case['kind'] == 'operator':
        # one operator more than there are operands for (at the start there is none at all)
        if case['op'] == 'sqrt':
            toks.insert(0, 'sqrt')
        else:
            toks.append(case['op'])
    else:
        toks = []
    text = text_of(dict(case, quote_each=False) if not toks else case, toks)
    check(refuses(parse_rpn, text), '%r is not an expression but evaluates without an error', text)


def ops_label(case):
    return sorted({t for t in rpn.tokens(case['tree']) if t in rpn.OPS + ['sqrt', 'pi']}) or ['number']


SUBS = [
    Sub('values', values, run_values, 500, nontrivial=lambda c: rpn.size(c['tree']) > 1, label=ops_label),
    Sub('deep', deep_values, run_values, 60),
    Sub('refused', damaged, run_damaged, 200, nontrivial=lambda c: len(c['tokens']) > 1, label=lambda c: c['kind']),
]
