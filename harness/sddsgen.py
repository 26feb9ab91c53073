"""Model of SDDS files: generator of file descriptions (plain JSON), an encoder written from the SDDS manual and
independent of rsbeams, and comparison of what the reader returns with the description.

Description of a file:
  mode            'ascii' | 'binary'
  params, cols    [{name, type, attrs: {symbol, units, description, format_string}, [fixed], [field_length]}]
  pages           [{p: [value of every parameter that is not fixed], rows: [[value per column]]}] or, instead of
                  rows, n and s: n rows expanded from the number s
  layout          numbers that choose between equivalent ways to write the file
"""
import functools
import random
import struct

import numpy as np
from hypothesis import strategies as st

TEXT = ''.join(chr(c) for c in range(32, 127) if chr(c) not in '"\\&!')
WORD = ''.join(chr(c) for c in range(33, 127) if chr(c) not in '"\\&!#,')
NAME_START = 'abcxyzABCSXZ'
NAME = NAME_START + "0123456789_./:'"
RESERVED = {'row_counts', 'record_length', 'return', 'file', 'print'}
ATTRS = ('symbol', 'units', 'description', 'format_string')
RANGE = {'short': (-2**15, 2**15 - 1), 'long': (-2**31, 2**31 - 1)}
NUMPY = {'double': '<f8', 'float': '<f4', 'short': '<i2', 'long': '<i4'}
SPECIAL = [0., -0., 1., -1., 0.1, 1 / 3., 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e22, 1e23,
           123456789.123456789, float('inf'), float('-inf'), float('nan'), 9007199254740993., 1e-5, -1.5e-9]


@functools.lru_cache(maxsize=64)
def names(n_max=6, min_size=0):
    return st.lists(st.builds(lambda a, b: a + b, st.sampled_from(NAME_START), st.text(NAME, max_size=8))
                    .filter(lambda s: s not in RESERVED), min_size=min_size, max_size=n_max, unique=True)


def _no_trailing_comma(s):
    return not s.endswith(',')


@functools.lru_cache(maxsize=64)
def attr_text():
    accel = st.sampled_from(['m', 'm$be$nc', "x'", '$gs$r$bx$n', 'sqrt(<x*x>)', "<x*xp'>", '%10s', '%6ld', 'a=b',
                             'name=x', 'units (T*m)', 'type=double, or not', '1/m', '10$a-6$n', 'm, s', 'symbol=',
                             'fixed_value=3', ' padded ', 'h:mm', "don't", "description=x'y", '$sigma'])
    return st.one_of(accel, st.text(TEXT, min_size=1, max_size=12).filter(_no_trailing_comma))


@functools.lru_cache(maxsize=64)
def attrs():
    return st.fixed_dictionaries({}, optional={k: attr_text() for k in ATTRS})


@functools.lru_cache(maxsize=64)
def number(kind):
    if kind == 'double':
        return st.one_of(st.sampled_from(SPECIAL), st.floats(width=64), st.integers(-10**6, 10**6).map(float))
    if kind == 'float':
        return st.floats(width=32)
    lo, hi = RANGE[kind]
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, -1, 10, 13, 2570, 255, 256]),
                     st.integers(-20, 20))


@functools.lru_cache(maxsize=64)
def string(mode, where, length):
    if mode == 'binary':
        return st.text(TEXT + '!"\\', max_size=length)
    if where == 'col':
        return st.text(WORD + '#,', min_size=1, max_size=length)
    return st.builds(lambda a, b, c: (a + b + c)[:length].strip() or a,
                     st.sampled_from(WORD), st.text(TEXT.replace('"', ''), max_size=length), st.sampled_from(WORD))


def _stretch(words, n, size):
    return (' '.join(words) * n if len(words) > 1 else words[0] * n)[:size].strip() or words[0]


@functools.lru_cache(maxsize=64)
def long_string(mode, where, length):
    """Strings much longer than the default of the reader"""
    words = st.lists(st.text(WORD, min_size=1, max_size=20), min_size=1,
                     max_size=1 if mode == 'ascii' and where == 'col' else 4)
    return st.builds(_stretch, words, st.integers(1, length), st.sampled_from([length, length, length - 1, 101]))


@functools.lru_cache(maxsize=64)
def value(mode, where, kind, length=30, long=0):
    if kind == 'string':
        return st.one_of(string(mode, where, length), long_string(mode, where, long)) if long else \
            string(mode, where, length)
    return number(kind)


@functools.lru_cache(maxsize=64)
def expand(mode, col_types, n, seed, length=12):
    """n rows from one number."""
    rnd = random.Random(seed)
    rows = []
    for _ in range(n):
        row = []
        for kind in col_types:
            if kind == 'string':
                chars = TEXT if mode == 'binary' else WORD
                size = rnd.randrange(0 if mode == 'binary' else 1, length + 1)
                row.append(''.join(rnd.choice(chars) for _ in range(size)))
            elif kind == 'double':
                row.append(rnd.choice(SPECIAL) if rnd.random() < 0.05 else
                           rnd.uniform(-1, 1) * 10. ** rnd.randrange(-20, 20))
            elif kind == 'float':
                row.append(float(np.float32(rnd.uniform(-1, 1) * 10. ** rnd.randrange(-20, 20))))
            else:
                lo, hi = RANGE[kind]
                row.append(rnd.choice([rnd.randint(lo, hi), rnd.randint(-100, 100), lo, hi, 10]))
        rows.append(row)
    return rows


def rows_of(case, page):
    if 'rows' in page:
        return page['rows']
    return expand(case['mode'], tuple(c['type'] for c in case['cols']), page['n'], page['s'])


def var_params(case):
    return [p for p in case['params'] if 'fixed' not in p]


ROW_COUNTS = st.one_of(st.integers(0, 4), st.integers(0, 40), st.sampled_from([10, 13, 32, 33, 100]))
BIG_ROW_COUNTS = st.one_of(st.integers(900, 1200), st.integers(2560, 2815), st.sampled_from([3338, 8224, 8448]))


LAYOUT = st.fixed_dictionaries(dict(
    endian=st.booleans(), desc=st.booleans(), attr_order=st.integers(0, 5), quote=st.integers(0, 3),
    split=st.integers(0, 4), head_comments=st.integers(0, 3), blank=st.integers(0, 2),
    data_comments=st.integers(0, 4), trailing=st.integers(0, 2), fmt=st.integers(0, 2), sep=st.integers(0, 2),
    no_row_counts=st.booleans(), end_comma=st.booleans(), final_newline=st.booleans(),
    associate=st.sampled_from([0, 0, 0, 1, 2]), split_data=st.booleans()))


@functools.lru_cache(maxsize=64)
def _from(*values):
    return st.sampled_from(values)


@functools.lru_cache(maxsize=64)
def _ints(lo, hi):
    return st.integers(lo, hi)


@st.composite
def files(draw, modes=('ascii', 'binary'), types=('double', 'long', 'short', 'float', 'string'), max_pages=5,
          big=False, string_length=30, need_cols=False, fixed=True):
    mode = draw(_from(*modes))
    kinds = _from(*types)
    params = [dict(name=n, type=draw(kinds), attrs=draw(attrs())) for n in draw(names(5))]
    if fixed:
        for p in params:
            if draw(_ints(0, 5)) == 0:
                p['fixed'] = draw(_from(0, -3, 12) if p['type'] in ('short', 'long') else
                                  _from(0., 1.5, -2.5e-7) if p['type'] in ('double', 'float') else
                                  attr_text())
    few = draw(_ints(0, 3)) > 0
    col_names = draw(names(5, min_size=1 if need_cols or few else 0))
    numeric_only = draw(st.booleans())
    kinds_c = _from(*[t for t in types if t != 'string']) if numeric_only else kinds
    cols = [dict(name=n, type=draw(kinds_c), attrs=draw(attrs())) for n in col_names]
    long = draw(_from(0, 0, 0, 0, 120, 300)) if any(i['type'] == 'string' for i in params + cols) else 0
    if mode == 'binary' or not long:
        for c in cols:
            if c['type'] == 'string' and draw(_ints(0, 4)) == 0:
                c['field_length'] = draw(_from(string_length, -string_length, string_length + 3) if mode == 'ascii' else
                                         _from(string_length, -string_length, 3, -2))
    layout = draw(LAYOUT)
    if mode == 'binary':
        layout['no_row_counts'] = False
    case = dict(mode=mode, params=params, cols=cols, layout=layout, pages=[], longest=max(long, string_length + 3))
    n_pages = draw(_from(*list(range(1, max_pages + 1)) + [1] * max_pages))
    same = draw(st.booleans())
    counts = BIG_ROW_COUNTS if big else ROW_COUNTS
    n_rows = draw(counts)
    if layout['no_row_counts'] and cols:
        n_rows = max(1, n_rows)
    for i in range(n_pages):
        if not same and i:
            n_rows = draw(counts)
            if layout['no_row_counts'] and cols:
                n_rows = max(1, n_rows)
        page = dict(p=[draw(value(mode, 'par', p['type'], string_length, long)) for p in params if 'fixed' not in p])
        if not cols:
            page['rows'] = []
        elif n_rows <= 4:
            page['rows'] = [[draw(value(mode, 'col', c['type'], string_length, long)) for c in cols]
                            for _ in range(n_rows)]
        else:
            page['n'] = n_rows
            page['s'] = draw(_ints(0, 2**16))
        case['pages'].append(page)
    if not cols and not var_params(case):
        case['pages'] = case['pages'][:1]
    return case


# ------------------------------------------------------------------------------------------- large files

SHAPES = dict(      # parameters, columns, pages, rows
    wide=(_ints(0, 3), _ints(17, 200), _ints(1, 2), _ints(0, 5)),
    parameters=(_ints(17, 150), _ints(0, 3), _ints(1, 2), _ints(0, 5)),
    pages=(_ints(0, 2), _ints(0, 2), _ints(17, 300), _ints(0, 2)),
    rows=(_ints(0, 2), _ints(1, 2), _ints(1, 2), st.one_of(
        _ints(4000, 140000), _from(32768, 65536, 65537, 65538, 66000, 131072))))


@st.composite
def bulk(draw, shapes=('wide', 'parameters', 'pages')):
    """Large files, as numbers from which `unpack` makes the description"""
    shape = draw(_from(*shapes))
    sizes = [draw(s) for s in SHAPES[shape]]
    modes = ('binary', 'binary', 'ascii') if shape == 'rows' else ('ascii', 'binary')
    return dict(shape=shape, sizes=sizes, mode=draw(_from(*modes)), seed=draw(_ints(0, 2**16)),
                strings=draw(st.booleans()), layout=draw(LAYOUT))


def unpack(case, types=('double', 'long', 'short', 'float'), pages=None):
    n_params, n_cols, n_pages, n_rows = case['sizes']
    rnd = random.Random(case['seed'])
    mode = case['mode']
    if case['shape'] != 'rows' and case['strings']:
        types = types + ('string',)
    layout = dict(case['layout'])
    if mode == 'binary' or not n_rows:
        layout['no_row_counts'] = False
    if not n_params + n_cols:
        n_params = 1
    params, cols = [], []
    for items, n, letter in ((params, n_params, 'P'), (cols, n_cols, 'c')):
        for i in range(n):
            items.append(dict(name='%s%d' % (letter, i), type=rnd.choice(types),
                              attrs={} if rnd.random() < 0.7 else dict(units='u%d' % i, description='number %d' % i)))
    out = []
    for i in range(pages or n_pages):
        n = n_rows if i % 3 != 2 or layout['no_row_counts'] else max(0, n_rows - 1)
        page = dict(p=expand(mode, tuple(p['type'] for p in params), 1, case['seed'] + 7 * i + 1)[0])
        if n_cols:
            page.update(n=n, s=case['seed'] + i)
        else:
            page['rows'] = []
        out.append(page)
    return dict(mode=mode, params=params, cols=cols, layout=layout, pages=out, longest=100)


def bulk_label(case):
    return case['shape'] + ' ' + case['mode']


# ------------------------------------------------------------------------------------------------- encoding

def _attr(key, val, quote, numeric=False):
    safe = val and all(ch in WORD and ch not in '<>' for ch in val)
    if quote and safe and not numeric:
        return '%s=%s' % (key, val)
    return '%s="%s"' % (key, val)


def _namelist(kind, fields, layout, index):
    order = layout['attr_order']
    if order and len(fields) > 1:
        k = (order + index) % len(fields)
        fields = fields[k:] + fields[:k]
        if order % 2:
            fields = fields[::-1]
    how = layout['split']
    if how == 1 and len(fields) > 1:
        body = ',\n     '.join(fields)
        return '&%s\n     %s%s\n&end\n' % (kind, body, ',' if layout['end_comma'] else '')
    if how == 4:
        body = ',\n! part of a definition: type=long, &end\n\n  '.join(fields)
        return '&%s\n! name=other\n %s%s\n&end\n' % (kind, body, ',' if layout['end_comma'] else '')
    if how == 2 and len(fields) > 1:
        return '&%s %s,\n  %s, &end\n' % (kind, fields[0], ', '.join(fields[1:]))
    body = ', '.join(fields) if how != 3 else ',  '.join(fields)
    return '&%s %s%s &end\n' % (kind, body, ',' if layout['end_comma'] else '')


def encode_header(case):
    layout = case['layout']
    out = ['SDDS1\n']
    if layout['endian']:
        out.append('!# little-endian\n')
    if layout['desc']:
        out.append('&description text="phase space, all of it", contents="phase space" &end\n')
    for i in range(layout.get('associate', 0)):
        out.append(_namelist('associate', ['filename="run %d, with type=long.twi"' % i, 'path="/data/x=%d"' % i,
                                           'description="optics, of run %d"' % i, 'contents="twiss"', 'sdds=1'],
                             layout, i))
    index = 0
    for kind, items in (('parameter', case['params']), ('column', case['cols'])):
        for item in items:
            index += 1
            if layout['head_comments'] == 1 or layout['head_comments'] == 2 and index % 2:
                out.append('! comment %d: type=string, &ended\n' % index)
            if layout['blank'] == 2:
                out.append('\n')
            quote = (layout['quote'] + index) % 2 if layout['quote'] > 1 else layout['quote']
            fields = ['name=%s' % item['name'], 'type=%s' % item['type']]
            for k in ATTRS:
                if k in item['attrs']:
                    fields.append(_attr(k, item['attrs'][k], quote))
            if 'fixed' in item:
                v = item['fixed']
                fields.append('fixed_value="%s"' % v if item['type'] == 'string' else 'fixed_value=%r' % v)
            if item.get('field_length'):
                fields.append('field_length=%d' % item['field_length'])
            out.append(_namelist(kind, fields, layout, index))
    if layout['head_comments'] == 3:
        out.append('! data follows\n')
    fields = ['mode=%s' % case['mode']]
    if layout['no_row_counts']:
        fields.append('no_row_counts=1')
    if layout['head_comments'] % 2 and case['mode'] == 'ascii':
        fields.append('lines_per_row=1')
    if layout.get('split_data'):
        out.append(_namelist('data', fields, layout, index + 1))
    else:
        out.append('&data %s%s &end\n' % (', '.join(fields), ',' if layout['end_comma'] else ''))
    return ''.join(out).encode('ascii')


def number_text(v, kind, fmt):
    if kind in ('short', 'long'):
        return '%d' % v
    if v != v:
        return 'nan'
    if v in (float('inf'), float('-inf')):
        return 'inf' if v > 0 else '-inf'
    return [repr(float(v)), '%.17e' % v, ('%.17g' % v).replace('e', 'E')][fmt]


def encode_page_ascii(case, page, index, count=None):
    """count: written instead of the number of rows"""
    layout = case['layout']
    sep = ['  ', ' ', '\t'][layout['sep']]
    out = []
    comment = layout['data_comments']
    if comment == 1:
        out.append('! page number %d\n' % (index + 1))
    elif comment >= 3:
        out.append(' \t! page\n! number\n    !%d\n' % (index + 1))
    for p, v in zip(var_params(case), page['p']):
        if p['type'] == 'string':
            out.append(v + '\n')
        else:
            tail = '      ! %s' % p['name'] if comment == 2 else ''
            out.append(number_text(v, p['type'], layout['fmt']) + tail + '\n')
        if comment == 3:
            out.append('!\n  ! 17\n')
    rows = rows_of(case, page)
    if case['cols']:
        if not layout['no_row_counts']:
            out.append(('          %s\n' if layout['sep'] == 0 else '%s\n') % (len(rows) if count is None else count))
        for i, row in enumerate(rows):
            if comment == 1 and i == 1:
                out.append('! between rows 1 2 3\n')
            elif comment == 3 and i % 3 == 1:
                out.append('   ! 4 5 6\n!\n')
            cells = []
            for c, v in zip(case['cols'], row):
                text = v if c['type'] == 'string' else number_text(v, c['type'], layout['fmt'])
                if c.get('field_length'):
                    text = text.ljust(abs(c['field_length']))
                cells.append(text)
            out.append(sep.join(cells) + ('\n' if layout['sep'] != 0 else ' \n'))
    if comment == 4:
        out.append('  ! end of page\n! 1.0 2.0\n')
    return ''.join(out).encode('ascii')


def encode_page_binary(case, page, lengths=None):
    """lengths: list to which the offsets of the row count and of the lengths of strings are added"""
    rows = rows_of(case, page)
    out = [struct.pack('<i', len(rows))]
    if lengths is not None:
        lengths.append(0)

    def put(kind, v):
        if kind == 'string':
            raw = v.encode('ascii')
            if lengths is not None:
                lengths.append(sum(len(o) for o in out))
            return struct.pack('<i', len(raw)) + raw
        if kind == 'float':
            return np.float32(v).astype('<f4').tobytes()
        return struct.pack({'double': '<d', 'short': '<h', 'long': '<i'}[kind], v)

    for p, v in zip(var_params(case), page['p']):
        out.append(put(p['type'], v))
    kinds = [c['type'] for c in case['cols']]
    for row in rows:
        for kind, v in zip(kinds, row):
            out.append(put(kind, v))
    return b''.join(out)


def encode(case):
    """Bytes of the file, and the offset at which each page ends."""
    layout = case['layout']
    out = encode_header(case)
    ends = []
    for i, page in enumerate(case['pages']):
        if case['mode'] == 'binary':
            out += encode_page_binary(case, page)
        else:
            if i and (layout['blank'] or layout['no_row_counts'] and case['cols']):
                out += b'\n' * (1 if layout['no_row_counts'] else layout['blank'])
            out += encode_page_ascii(case, page, i)
        ends.append(len(out))
    if case['mode'] == 'ascii':
        if layout['trailing'] and not (layout['no_row_counts'] and case['cols']):
            out += b'\n' * layout['trailing']
        elif not layout['final_newline'] and not layout['trailing']:
            out = out[:-1]
    return out, ends


# ----------------------------------------------------------------------------------------------- comparison

def text_of(v):
    return v.decode('latin-1') if isinstance(v, bytes) else str(v)


def same_numbers(got, want, kind):
    want = np.array(want, dtype=NUMPY[kind])
    got = np.asarray(got)
    if got.dtype.kind not in ('fi'[kind in ('short', 'long')],):
        return False
    if got.shape != want.shape:
        return False
    if kind in ('double', 'float'):
        if got.dtype != want.dtype:
            return False
        bad = ~((got == want) & (np.signbit(got) == np.signbit(want)) | np.isnan(got) & np.isnan(want))
        return not bad.any()
    return bool((got.astype(np.int64) == want.astype(np.int64)).all())


def compare_table(check, what, items, got, rows, page):
    """got: structured array of one page; rows: list of rows of the description."""
    got = np.atleast_1d(got)
    named = [n for n in got.dtype.names if n not in ('record_length', 'row_counts')]
    check(named == [i['name'] for i in items], '%s of page %d: names %r instead of %r', what, page, named,
          [i['name'] for i in items])
    check(len(got) == len(rows), '%s of page %d: %d rows instead of %d', what, page, len(got), len(rows))
    for j, item in enumerate(items):
        want = [r[j] for r in rows]
        data = got[item['name']]
        if item['type'] == 'string':
            data = [text_of(v) for v in data]
            check(data == want, '%s %s of page %d: %r instead of %r', what, item['name'], page, data[:5], want[:5])
        else:
            check(same_numbers(data, want, item['type']), '%s %s of page %d: %r instead of %r', what, item['name'],
                  page, data[:5], want[:5])


def compare(check, case, reader, pages=None):
    """Whole result of a read with the description; pages: numbers of the pages that were asked for."""
    wanted = range(len(case['pages'])) if pages is None else pages
    wanted = [i for i in wanted if i < len(case['pages'])]
    if case['cols']:
        check(reader.columns is not None and len(reader.columns) == len(wanted), '%s pages of columns instead of %d',
              None if reader.columns is None else len(reader.columns), len(wanted))
        rows = [len(rows_of(case, case['pages'][i])) for i in wanted]
        if len(set(rows)) == 1:
            check(np.shape(reader.columns) == (len(wanted), rows[0]), 'columns of %d pages of %d rows have shape %r',
                  len(wanted), rows[0], np.shape(reader.columns))
        for k, i in enumerate(wanted):
            compare_table(check, 'column', case['cols'], reader.columns[k], rows_of(case, case['pages'][i]), i)
    else:
        check(reader.columns is None or len(reader.columns) == 0, 'columns in a file without columns')
    params = var_params(case)
    if params:
        check(reader.parameters is not None and len(reader.parameters) == len(wanted),
              '%s pages of parameters instead of %d',
              None if reader.parameters is None else len(reader.parameters), len(wanted))
        check(not wanted or np.shape(reader.parameters) == (len(wanted), 1), 'parameters of %d pages have shape %r',
              len(wanted), np.shape(reader.parameters))
        for k, i in enumerate(wanted):
            compare_table(check, 'parameter', params, reader.parameters[k], [case['pages'][i]['p']], i)


def labels(case):
    out = [case['mode']]
    counts = [len(p['rows']) if 'rows' in p else p['n'] for p in case['pages']]
    if len(counts) > 1:
        out.append('pages>1')
        if len(set(counts)) > 1:
            out.append('uneven pages')
    if case['cols'] and 0 in counts:
        out.append('empty page')
    if 1 in counts:
        out.append('single row')
    if max(counts) > 1000:
        out.append('rows>1000')
    if any(c['type'] == 'string' for c in case['cols']):
        out.append('string column')
    if any(p['type'] == 'string' for p in case['params']):
        out.append('string parameter')
    if case.get('longest', 0) > 100:
        out.append('long strings')
    if any('fixed' in p for p in case['params']):
        out.append('fixed value')
    if not case['cols']:
        out.append('no columns')
    if not case['params']:
        out.append('no parameters')
    if case['layout']['no_row_counts']:
        out.append('no row counts')
    return out


def nontrivial(case):
    counts = [len(p['rows']) if 'rows' in p else p['n'] for p in case['pages']]
    return bool(case['cols'] and max(counts) > 0 or var_params(case))
