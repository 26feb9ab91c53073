"""C03: buffering, maximum string length and page selection never change the data."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from harness import sddsgen
from harness.core import Sub, check
from harness.sddsgen import _ints

ID = 'C03'
RULE = ('Generated SDDS files are read with both buffer settings, two maximum string lengths and a page selection; '
        'the selection must equal those pages of the complete read. Non-trivial: more than one page, or a row.')


def actual_longest(case):
    lengths = [1]
    for page in case['pages']:
        rows = sddsgen.rows_of(case, page)
        lengths += [len(row[j]) for j, c in enumerate(case['cols']) if c['type'] == 'string' for row in rows]
        lengths += [len(v) for v, p in zip(page['p'], sddsgen.var_params(case)) if p['type'] == 'string']
    return max(lengths)


ITERABLES = {
    'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'array': lambda a: np.array(a, dtype=int),
    'int32 array': lambda a: np.array(a, dtype=np.int32), 'generator': lambda a: (i for i in a), 'iterator': iter,
    'keys': lambda a: dict.fromkeys(a).keys(), 'dict': dict.fromkeys, 'map': lambda a: map(int, a),
    'range': lambda a: range(min(a), max(a) + 1) if a else range(0)}


@st.composite
def cases(draw):
    f = draw(sddsgen.files(max_pages=draw(_ints(1, 12))))
    shortest = actual_longest(f)
    f['length'] = draw(st.one_of(st.just(shortest), _ints(shortest, shortest + 8),
                                 _ints(f['longest'], 2 * f['longest'] + 100)))
    n = len(f['pages'])
    f['ask'] = draw(st.lists(_ints(0, n + 2), max_size=5))
    f['as_tuple'] = draw(st.booleans())
    f['ask_as'] = draw(st.sampled_from(sorted(ITERABLES)))
    return f


def plain(table):
    """Everything in a result, as text that tells values apart exactly."""
    if table is None:
        return None
    out = []
    for page in table:
        page = np.atleast_1d(page)
        names = [n for n in page.dtype.names if n not in ('record_length', 'row_counts')]
        out.append((names, len(page), [[sddsgen.text_of(v) if page[n].dtype.kind in 'SU' else repr(v.item())
                                        for v in page[n]] for n in names]))
    return out


def options(case, scratch):
    from rsbeams.rsdata.SDDS import readSDDS
    data, _ = sddsgen.encode(case)
    with open('f.sdds', 'wb') as f:
        f.write(data)
    with contextlib.redirect_stdout(io.StringIO()):     # messages of verbose readers
        compare(case, readSDDS)


def compare(case, readSDDS):
    results = []
    for buffer in (True, False):
        for length in (max(100, case['longest']), case['length']):
            r = readSDDS('f.sdds', buffer=buffer, max_string_length=length, verbose=case['as_tuple'])
            r.read()
            results.append((plain(r.columns), plain(r.parameters)))
    for got in results[1:]:
        check(got == results[0], 'results differ between reader options')
    full = results[0]
    ask = case['ask']
    if case['ask_as'] == 'range':
        ask = list(ITERABLES['range'](ask))
    kept = sorted(set(i for i in ask if i < len(case['pages'])))
    for buffer in (True, False):
        r = readSDDS('f.sdds', buffer=buffer, max_string_length=max(100, case['longest']), verbose=buffer)
        r.read(pages=ITERABLES[case['ask_as']](ask))
        for what, got, want in (('columns', r.columns, full[0]), ('parameters', r.parameters, full[1])):
            if want is None:
                check(got is None, '%s appear in a selection', what)
            else:
                want = [want[i] for i in kept]
                got = plain(got) if got is not None else []
                check(got == want, '%s of pages %r as %s (buffer=%r): %r instead of %r', what, ask, case['ask_as'],
                      buffer, got, want)


def nontrivial(case):
    return len(case['pages']) > 1 or sddsgen.nontrivial(case)


def labels(case):
    kept = sorted(set(i for i in case['ask'] if i < len(case['pages'])))
    out = sddsgen.labels(case) + ['as ' + case['ask_as']]
    if kept and len(kept) < len(case['pages']):
        out.append('proper selection')
    if kept and kept[0] > 0:
        out.append('leading pages skipped')
    if any(i >= len(case['pages']) for i in case['ask']):
        out.append('page past the end')
    return out


@st.composite
def many_pages(draw):
    f = draw(sddsgen.bulk(('pages',)))
    f['ask'] = draw(st.lists(_ints(0, f['sizes'][2] + 2), max_size=40))
    f['as_tuple'] = draw(st.booleans())
    f['ask_as'] = draw(st.sampled_from(sorted(ITERABLES)))
    return f


def large_options(case, scratch):
    full = sddsgen.unpack(case)
    options(dict(full, length=actual_longest(full), **{k: case[k] for k in ('ask', 'as_tuple', 'ask_as')}), scratch)


SUBS = [Sub('options', cases, options, 500, nontrivial=nontrivial, label=labels),
        Sub('many_pages', many_pages, large_options, 4, thorough=120, label=lambda c: 'as ' + c['ask_as'])]
