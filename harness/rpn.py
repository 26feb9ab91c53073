"""Arithmetic expressions printed in reverse Polish notation."""
import math
import re

from hypothesis import strategies as st

NUMBERS = ['0', '1', '2', '-1', '.5', '-.25', '1e-3', '2.5E2', '+3', '10', '3.', '1e-9', '-7.5e+1', '0.1', '123456.789',
           '4', '1e12']
RESERVED = {'pi', 'sqrt', 'mult', 'sto', 'nan', 'inf', 'infinity'}
NUMBER = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?', re.ASCII | re.IGNORECASE)
OPS = ['+', '-', '*', '/', 'mult']


def number_text():
    return st.one_of(st.sampled_from(NUMBERS), st.floats(-1e6, 1e6).map(lambda v: repr(round(v, 9))), st.integers(-1000, 1000).map(str),
                     st.floats(-1e6, 1e6).map(lambda v: repr(v) if abs(v) > 1e-50 else '0'),
                     st.floats(-100., 100.).map(lambda v: '%.6e' % (v if abs(v) > 1e-50 else 0.)))


def value(tree, variables=None):
    """Value of a tree; None if it is not a number (division by 0, root of a negative number, overflow)."""
    try:
        v = _value(tree, variables or {})
    except (ZeroDivisionError, OverflowError, ValueError):
        return None
    return v if math.isfinite(v) and abs(v) < 1e200 and (v == 0. or abs(v) > 1e-200) else None


def _value(tree, variables):
    if isinstance(tree, str):
        if tree == 'pi':
            return math.pi
        if tree in variables:
            return variables[tree]
        return float(tree)
    if len(tree) == 2:
        v = _value(tree[1], variables)
        if not v >= 0.:
            raise ValueError
        return math.sqrt(v)
    a, b = _value(tree[1], variables), _value(tree[2], variables)
    op = tree[0]
    r = a + b if op == '+' else a - b if op == '-' else a / b if op == '/' else a * b
    if not math.isfinite(r) or (r != 0. and not 1e-250 < abs(r) < 1e250):
        raise ValueError
    return r


def magnitude(tree, variables=None):
    """A bound of the rounding error of an evaluation, relative to 1e-16 (cancellation included)."""
    variables = variables or {}
    if isinstance(tree, str):
        return abs(_value(tree, variables))
    if len(tree) == 2:
        return _value(tree, variables)
    a, b = magnitude(tree[1], variables), magnitude(tree[2], variables)
    return a + b if tree[0] in '+-' else abs(_value(tree, variables))


def tokens(tree):
    if isinstance(tree, str):
        return [tree]
    out = []
    for t in tree[1:]:
        out += tokens(t)
    return out + [tree[0]]


def size(tree):
    return 0 if isinstance(tree, str) else 1 + sum(size(t) for t in tree[1:])


def _well(tree, variables):
    return value(tree, variables) is not None


def trees(names=(), max_leaves=6, variables=None):
    """Strategy of trees whose every value is finite."""
    leaf = number_text()
    if names:
        leaf = st.one_of(st.sampled_from(list(names)), leaf)
    leaf = st.one_of(leaf, st.just('pi'))
    variables = variables or {}

    def extend(children):
        return st.one_of(
            st.tuples(st.sampled_from(OPS), children, children).map(list),
            children.map(lambda t: ['sqrt', t if (value(t, variables) or 0.) >= 0. else ['-', '0', t]]))

    # a tree without value is replaced by its first leaf: no filtering, and it shrinks well
    return st.recursive(leaf, extend, max_leaves=max_leaves).map(
        lambda t: t if _well(t, variables) else tokens(t)[0])
