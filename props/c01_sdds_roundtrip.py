"""C01: what the SDDS writer saves, the SDDS reader returns."""
import contextlib
import copy
import io
import sys

import numpy as np
from hypothesis import strategies as st

from harness import sddsgen
from harness.core import Sub, check
from harness.sddsgen import _from, _ints

ID = 'C01'
RULE = ('Random tables (columns of double, short, long and, in ascii, string; parameters of double, short, long and, in '
        'ascii, string; fixed values; attributes) are written by writeSDDS and read by readSDDS. Non-trivial: at '
        'least one row of columns or one parameter value is written.')
ASSUMPTIONS = ['attribute texts are printable ASCII without double quote, backslash, ampersand, exclamation mark and '
               'trailing comma', 'string data only in ascii files, without blanks and exclamation marks']

WRITTEN = {'units': 'Units', 'symbol': 'Symbol', 'description': 'Description', 'format_string': 'FormatStr'}


@st.composite
def tables(draw, counts=None):
    mode = draw(_from('ascii', 'binary'))
    types = ('double', 'long', 'short', 'string') if mode == 'ascii' else ('double', 'long', 'short')
    kind = _from(*types)
    params = []
    for n in draw(sddsgen.names(5)):
        p = dict(name=n, type=draw(kind), attrs=draw(sddsgen.attrs()))
        if draw(_ints(0, 4)) == 0:
            p['fixed'] = draw({'double': sddsgen.number('double').filter(lambda x: x == x), 'string': sddsgen.attr_text()}.get(
                p['type']) or sddsgen.number(p['type']))
        params.append(p)
    few = draw(_ints(0, 4)) > 0
    cols = [dict(name=n, type=draw(kind), attrs=draw(sddsgen.attrs()))
            for n in draw(sddsgen.names(6, min_size=1 if few else 0))]
    n = draw(counts or sddsgen.ROW_COUNTS)
    page = dict(p=[draw(sddsgen.value(mode, 'par', p['type'])) for p in params if 'fixed' not in p])
    if not cols:
        page['rows'] = []
    elif n <= 4:
        page['rows'] = [[draw(sddsgen.value(mode, 'col', c['type'])) for c in cols] for _ in range(n)]
    else:
        page.update(n=n, s=draw(_ints(0, 2**16)))
    return dict(mode=mode, params=params, cols=cols, pages=[page], layout=dict(no_row_counts=False),
                buffer=draw(st.booleans()), scalar=draw(_from('python', 'numpy')), data=draw(_from('array', 'strided', 'list')),
                again=draw(_ints(0, 4)) == 0)


DTYPE = {'double': np.float64, 'long': np.int32, 'short': np.int16}


def write(case):
    from rsbeams.rsdata.SDDS import writeSDDS
    page = case['pages'][0]
    rows = sddsgen.rows_of(case, page)
    out = writeSDDS()
    kept = []
    values = iter(page['p'])
    for p in case['params']:
        kwargs = {'par' + WRITTEN[k]: v for k, v in p['attrs'].items()}
        if 'fixed' in p:
            out.create_parameter(p['name'], None, p['type'], parFixedVal=p['fixed'], **kwargs)
        else:
            v = next(values)
            if p['type'] != 'string' and case['scalar'] == 'numpy':
                v = DTYPE[p['type']](v)
            out.create_parameter(p['name'], v, p['type'], **kwargs)
    for j, c in enumerate(case['cols']):
        data = [r[j] for r in rows]
        if c['type'] != 'string':
            data = np.array(data, dtype=DTYPE[c['type']])
            if case['data'] == 'strided':
                wide = np.zeros((len(data), 3), dtype=data.dtype)
                wide[:, 1] = data
                data = wide[:, 1]
            elif case['data'] == 'list':
                data = data.tolist()
        else:
            data = np.array(data) if len(data) else np.array([], dtype='U1')
        kept.append((data, copy.deepcopy(data)))
        out.create_column(c['name'], data, c['type'],
                          **{'col' + WRITTEN[k]: v for k, v in c['attrs'].items()})
    out.save_sdds('out.sdds', dataMode=case['mode'])
    if case['again']:
        # a second save of the same object writes the same file
        out.save_sdds('again.sdds', dataMode=case['mode'])
        with open('out.sdds', 'rb') as a, open('again.sdds', 'rb') as b:
            check(a.read() == b.read(), 'saving twice gives different files')
    for data, before in kept:
        check(repr(np.asarray(data).tolist()) == repr(np.asarray(before).tolist()), 'saving changed the data')


def round_trip(case, scratch):
    from rsbeams.rsdata.SDDS import readSDDS
    write(case)
    reader = readSDDS('out.sdds', buffer=case['buffer'])
    reader.read()
    sddsgen.compare(check, case, reader)
    check_header(case, reader)


def check_header(case, reader):
    for what, items in (('parameter', case['params']), ('column', case['cols'])):
        for item in items:
            for k in sddsgen.ATTRS:
                got = getattr(reader, '%s_%s' % (what, k))(item['name'])
                check(got == item['attrs'].get(k, ''), '%s %s of %s is %r instead of %r', what, k, item['name'], got,
                      item['attrs'].get(k, ''))
            check(getattr(reader, what + '_type')(item['name']) == item['type'], 'type of %s', item['name'])
            if what == 'parameter':
                got = reader.parameter_fixed_value(item['name'])
                want = item.get('fixed')
                check(type(got) == type(want) and got == want, 'fixed value of %s is %r instead of %r', item['name'],
                      got, want)


@st.composite
def large_tables(draw, shapes):
    return dict(draw(sddsgen.bulk(shapes)), buffer=draw(st.booleans()), scalar=draw(_from('python', 'numpy')),
                data=draw(_from('array', 'strided', 'list')), again=False)


def large(case, scratch):
    table = dict(case, strings=case['strings'] and case['mode'] == 'ascii')
    round_trip(dict(case, **sddsgen.unpack(table, ('double', 'long', 'short'), pages=1)), scratch)


def file_text(case, scratch):
    """The ascii file itself follows the format: row count after the parameters, one line per row."""
    write(case)
    with open('out.sdds', 'rb') as f:
        raw = f.read()
    check(raw.startswith(b'SDDS1\n'), 'identifier line')
    head, _, body = raw.partition(b'&data ')
    first, _, body = body.partition(b'&end\n')
    if case['mode'] == 'binary':
        check(b'\n!# %s-endian\n' % sys.byteorder.encode() in head, 'the byte order is not declared')
    check(b'mode=' + case['mode'].encode() in first, 'data mode')
    check(head.count(b'&parameter ') == len(case['params']) and head.count(b'&column ') == len(case['cols']),
          'number of definitions')
    rows = sddsgen.rows_of(case, case['pages'][0])
    if case['mode'] == 'binary':
        check(body == sddsgen.encode_page_binary(case, case['pages'][0]), 'binary data differ from the format')
        return
    lines = body.decode().split('\n')
    check(lines.pop() == '', 'last line is not ended')
    params = sddsgen.var_params(case)
    check(len(lines) == len(params) + (1 + len(rows) if case['cols'] else 0), 'number of lines')
    for p, v, line in zip(params, case['pages'][0]['p'], lines):
        if p['type'] == 'string':
            check(line == v, 'parameter line %r', line)
        else:
            check(sddsgen.same_numbers(np.array([line.strip()]).astype(sddsgen.NUMPY[p['type']]), [v], p['type']),
                  'parameter line %r for %r', line, v)
    if case['cols']:
        check(int(lines[len(params)]) == len(rows), 'row count')
        for row, line in zip(rows, lines[len(params) + 1:]):
            cells = line.split()
            check(len(cells) == len(row), 'row %r', line)
            for c, v, cell in zip(case['cols'], row, cells):
                if c['type'] == 'string':
                    check(cell == v, 'cell %r instead of %r', cell, v)
                else:
                    check(sddsgen.same_numbers(np.array([cell]).astype(sddsgen.NUMPY[c['type']]), [v], c['type']),
                          'cell %r for %r', cell, v)


def rejects(case, scratch):
    """Unknown types, fixed values next to data and columns of different length are never written as data."""
    from rsbeams.rsdata.SDDS import readSDDS, writeSDDS
    out = writeSDDS()
    for kind in ('character', 'float32', ''):
        for create in (out.create_column, out.create_parameter):
            try:
                create('a', 1, kind)
            except Exception:
                continue
            check(False, 'type %r accepted', kind)
    try:
        out.create_parameter('a', case['value'], 'double', parFixedVal=case['value'])
    except Exception:
        pass
    else:
        check(False, 'a parameter with data and a fixed value is accepted')
    check(not out.columns and not out.parameters, 'refused definitions are kept')
    # columns of different length
    for j, n in enumerate(case['lengths']):
        out.create_column('c%d' % j, np.arange(n) + 0.5, 'double')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out.save_sdds('out.sdds', dataMode=case['mode'])
    except Exception:
        return
    try:
        reader = readSDDS('out.sdds')
        reader.read()
    except Exception:
        return
    check(len(set(case['lengths'])) == 1, 'columns of %r rows are written as a page: %r', case['lengths'],
          reader.columns)


SUBS = [
    Sub('round_trip', tables, round_trip, 700, nontrivial=sddsgen.nontrivial, label=sddsgen.labels),
    Sub('many_rows', lambda: tables(sddsgen.BIG_ROW_COUNTS), round_trip, 50, nontrivial=sddsgen.nontrivial,
        label=sddsgen.labels),
    Sub('large', lambda: large_tables(('wide', 'parameters')), large, 20, thorough=600, label=sddsgen.bulk_label),
    Sub('very_many_rows', lambda: large_tables(('rows',)), large, 2, thorough=25, label=sddsgen.bulk_label),
    Sub('file_format', tables, file_text, 350, nontrivial=sddsgen.nontrivial, label=sddsgen.labels),
    Sub('refusals', lambda: st.fixed_dictionaries(dict(value=st.floats(allow_nan=False), mode=_from('ascii', 'binary'),
                                                    lengths=st.lists(_ints(0, 4), min_size=2, max_size=4))), rejects,
        30, label=lambda c: 'different lengths' if len(set(c['lengths'])) > 1 else 'same length'),
]
