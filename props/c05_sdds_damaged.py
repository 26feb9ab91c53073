"""C05: malformed SDDS input is refused or read truthfully, and reading always ends."""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from harness import sddsgen
from harness.core import Sub, check
from harness.sddsgen import _from, _ints

ID = 'C05'
RULE = ('Generated valid files are cut at a generated point (within the header, at and around page ends, anywhere) or '
        'get bytes changed, inserted or removed; reading must end, header damage must be refused, and complete pages '
        'before a cut must be right when the read succeeds. Non-trivial: the damaged file is not empty and differs '
        'from the valid one.')
ASSUMPTIONS = ['bounded time: at most 60 s of CPU time for files of a few kB']


def _read(data, buffer):
    """The reader after reading, or None if it refused the file."""
    from rsbeams.rsdata.SDDS import readSDDS
    with open('f.sdds', 'wb') as f:
        f.write(data)
    try:
        reader = readSDDS('f.sdds', buffer=buffer, max_string_length=400)
    except Exception:
        return None
    try:
        reader.read()
    except Exception:
        return None
    finally:
        if hasattr(getattr(reader, 'openf', None), 'close'):
            reader.openf.close()
    return reader


@st.composite
def header_cuts(draw):
    f = draw(sddsgen.files(max_pages=1))
    return dict(file=f, buffer=draw(st.booleans()), cut=draw(_ints(0, 10**6)))


def header_cut(case, scratch):
    head = sddsgen.encode_header(case['file'])
    # the definition is complete once its end marker is there
    last = head.rstrip().rindex(b'&end')
    cut = case['cut'] % (last + 4)
    check(_read(head[:cut], case['buffer']) is None, 'header cut at byte %d of %d is accepted', cut, len(head))


@st.composite
def page_cuts(draw):
    f = draw(sddsgen.files(modes=('binary', 'binary', 'ascii'), max_pages=4))
    return dict(file=f, buffer=draw(st.booleans()), cut=draw(_ints(0, 10**6)), near=draw(_ints(-9, 9)),
                how=draw(_from('any', 'page', 'page')))


def page_cut(case, scratch):
    f = case['file']
    data, ends = sddsgen.encode(f)
    head = len(sddsgen.encode_header(f))
    if case['how'] == 'any':
        cut = head + case['cut'] % max(1, len(data) - head + 1)
    else:
        cut = min(len(data), max(head, ends[case['cut'] % len(ends)] + case['near']))
    reader = _read(data[:cut], case['buffer'])
    complete = [i for i, e in enumerate(ends) if e <= cut]
    boundary = cut in ends
    if f['mode'] == 'binary':
        if reader is None:
            check(not boundary, 'file of complete pages is refused')
            return
        # every complete page has its true values; what follows the cut may be missing or partial
        n_cols = len(reader.columns) if reader.columns is not None else 0
        if f['cols']:
            check(n_cols >= len(complete), '%d pages of %d complete ones', n_cols, len(complete))
            for i in complete:
                sddsgen.compare_table(check, 'column', f['cols'], reader.columns[i],
                                      sddsgen.rows_of(f, f['pages'][i]), i)
        if sddsgen.var_params(f):
            for i in complete:
                sddsgen.compare_table(check, 'parameter', sddsgen.var_params(f), reader.parameters[i],
                                      [f['pages'][i]['p']], i)


@st.composite
def damages(draw):
    f = draw(sddsgen.files(max_pages=3))
    edits = draw(st.lists(st.tuples(_from('flip', 'insert', 'delete', 'truncate', 'copy'), _ints(0, 10**6),
                                    _ints(0, 255), _ints(1, 40)), min_size=1, max_size=4))
    return dict(file=f, buffer=draw(st.booleans()), edits=[list(e) for e in edits], part=draw(_from('head', 'any')))


def damage(case, scratch):
    """Reading ends, with data or an exception, whatever the bytes are."""
    data, _ = sddsgen.encode(case['file'])
    limit = len(sddsgen.encode_header(case['file'])) if case['part'] == 'head' else len(data)
    data = bytearray(data)
    row_counts = case['file']['mode'] == 'binary'
    for kind, where, byte, size in case['edits']:
        at = where % max(1, min(limit, len(data)))
        if kind == 'flip' and data:
            data[at] = byte
        elif kind == 'insert':
            data[at:at] = bytes([byte]) * size
        elif kind == 'delete':
            del data[at:at + size]
        elif kind == 'truncate':
            del data[at:]
        else:
            data[at:at] = data[at:at + size]
    _read(bytes(data), case['buffer'])


HOSTILE = [-1, -2, -4, -5, -9, -100, -2**31, -2**31 + 1, 2**31 - 1, 2**31 - 5, 2**31 - 9, 2**30, 10**6, -572662307]


@st.composite
def hostile_lengths(draw):
    f = draw(sddsgen.files(modes=('binary', 'binary', 'ascii'), max_pages=3))
    return dict(word=draw(st.sampled_from(['', '', 'x', 'rows', '-', '--1', 'nan', '0x3', 'three'])), file=f, buffer=draw(st.booleans()), at=draw(_ints(0, 10**6)), rows=draw(_ints(0, 2)),
                value=draw(st.one_of(st.sampled_from(HOSTILE), st.integers(-40, -1))))


def hostile_length(case, scratch):
    """Row counts and string lengths that cannot be: negative, or beyond the end of the file"""
    f = case['file']
    data, ends = sddsgen.encode(f)
    if f['mode'] == 'ascii':
        if not f['cols'] or f['layout']['no_row_counts'] or case['value'] >= 0 and not case['word']:
            return
        i = case['at'] % len(ends)
        count = case['word'] or '%d' % case['value']
        start = ends[i - 1] if i else len(sddsgen.encode_header(f))
        if i and f['layout']['blank']:
            start += f['layout']['blank']
        data = data[:start] + sddsgen.encode_page_ascii(f, f['pages'][i], i, count) + data[ends[i]:]
        check(_read(data, case['buffer']) is None, 'a row count of %s is accepted', count)
        return
    spots = []
    start = len(sddsgen.encode_header(f))
    for page, end in zip(f['pages'], ends):
        lengths = []
        sddsgen.encode_page_binary(f, page, lengths)
        spots += [start + i for i in (lengths[:1] if case['rows'] == 0 else lengths[1:])]
        start = end
    if not f['cols'] and case['rows'] == 0 or not spots:
        return
    at = spots[case['at'] % len(spots)]
    data = data[:at] + struct.pack('<i', case['value']) + data[at + 4:]
    reader = _read(data, case['buffer'])
    if case['value'] < 0:
        check(reader is None, 'a %s of %d is accepted', 'row count' if case['rows'] == 0 else 'string length',
              case['value'])


# first lines that do not start with the identifier
NEARLY = ['SDDS', 'SDDS2', 'SDDS3', 'SDDS5', 'sdds1', 'XSDDS1', ' SDDS1', 'SDDS 1', '# SDDS1', 'data of SDDS1', 'SSDDS1',
          'SDS1', 'DDS1', 'SDDSX', '&data SDDS1', 'HDF5', 'Sdds1']


UNKNOWN_TYPES = ['quadruple', '', 'longdouble', 'ulong', 'ushort', 'long64', 'ulong64', 'quad', 'int', 'integer', 'Double',
                 'DOUBLE', 'doubl', 'doubles', 'float64', 'f8', 'real', 'bool', 'Long', 'strings', 'str', 'String', 'shor']


@st.composite
def not_sdds(draw):
    f = draw(sddsgen.files(max_pages=1))
    how = draw(_from('identifier', 'unknown line', 'empty', 'text', 'unknown type', 'nothing defined'))
    return dict(file=f, buffer=draw(st.booleans()), how=how, text=draw(st.text(sddsgen.TEXT, min_size=1, max_size=40)),
                at=draw(_ints(0, 10**4)))


def refused(case, scratch):
    data, _ = sddsgen.encode(case['file'])
    how, text = case['how'], case['text'].encode()
    if how == 'identifier':
        word = NEARLY[case['at'] % (2 * len(NEARLY))] if case['at'] % (2 * len(NEARLY)) < len(NEARLY) else case['text']
        if word.startswith('SDDS1'):
            return
        data = data.replace(b'SDDS1\n', word.encode() + b'\n', 1)
    elif how == 'unknown line':
        lines = data.split(b'\n')
        starts = [i for i, l in enumerate(lines) if l.startswith(b'&') and not l.startswith(b'&end')]
        head_end = next(i for i in starts if lines[i].startswith(b'&data'))
        starts = [i for i in starts if i <= head_end]
        i = starts[case['at'] % len(starts)]
        if case['at'] % 3:
            # now and then it looks like a definition
            word = [b'x', b'&columns', b'&paramter', b'&unknown', b'&', b'column', b'&end', b'#', b'&Data', b'&COLUMN'][
                case['at'] // 3 % 10]
            lines.insert(i, word + b' ' + text.replace(b'&', b'') + [b'', b' &end', b' name=q, type=double &end'][
                case['at'] % 3])
        else:
            # in front of a definition
            lines[i] = text.lstrip() + b' ' + lines[i]
            if text.strip() == b'':
                return
        data = b'\n'.join(lines)
    elif how == 'nothing defined':
        # content that belongs to no definition: reading ends, without values
        f = dict(case['file'], cols=[], params=[])
        data = sddsgen.encode_header(f) + data[len(sddsgen.encode_header(case['file'])):] + text
        reader = _read(data, case['buffer'])
        for table in [] if reader is None else [reader.columns, reader.parameters]:
            names = [] if table is None or not len(table) else np.atleast_1d(table[0]).dtype.names
            check(not [n for n in names if n != 'row_counts'], 'values of %r without a definition', names)
        return
    elif how == 'empty':
        data = b'' if case['at'] % 2 else b'\n' * (case['at'] % 7)
    elif how == 'text':
        data = text + b'\n'
        if data.startswith(b'SDDS1'):
            return
    else:
        # a type that does not exist
        head = sddsgen.encode_header(case['file'])
        items = [i for i in case['file']['params'] + case['file']['cols'] if 'fixed' not in i]
        if not items:
            return
        f = dict(case['file'])
        target = items[case['at'] % len(items)]
        kind = UNKNOWN_TYPES[case['at'] // 7 % len(UNKNOWN_TYPES)] if case['at'] % 7 else case['text']
        if kind.rstrip(',') in sddsgen.NUMPY or any(ch in '", ' for ch in kind):
            kind = 'quadruple'
        f['params'] = [dict(i, type=kind) if i is target else i for i in f['params']]
        f['cols'] = [dict(i, type=kind) if i is target else i for i in f['cols']]
        data = sddsgen.encode_header(f) + data[len(head):]
    check(_read(data, case['buffer']) is None, '%s is accepted as SDDS file', how)


SUBS = [
    Sub('header_cut', header_cuts, header_cut, 500, nontrivial=lambda c: c['cut'] > 6,
        label=lambda c: c['file']['mode']),
    Sub('page_cut', page_cuts, page_cut, 500, nontrivial=lambda c: sddsgen.nontrivial(c['file']),
        label=lambda c: c['file']['mode'] + ' ' + c['how']),
    Sub('damage', damages, damage, 500, label=lambda c: c['part']),
    Sub('lengths', hostile_lengths, hostile_length, 200, label=lambda c: c['file']['mode'] + (' rows' if c['rows'] == 0 or c['file']['mode'] == 'ascii' else ' strings')),
    Sub('refused', not_sdds, refused, 250, label=lambda c: c['how']),
]
