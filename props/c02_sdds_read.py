"""C02: the SDDS reader decodes every conforming SDDS file."""
from hypothesis import strategies as st

from harness import sddsgen
from harness.core import Sub, check

ID = 'C02'
RULE = ('Files are generated from a model of the SDDS format (parameters, columns, types, pages, rows, layout, '
        'comments) by an encoder that is independent of rsbeams, read with rsbeams and compared value by value. '
        'Non-trivial: the file holds at least one row of columns or one parameter value.')
ASSUMPTIONS = ['little-endian files of SDDS version 1 with parameters and columns of type short, long, float, double '
               'and string; printable ASCII text; lines_per_row=1']


def read(case, scratch, **kwargs):
    from rsbeams.rsdata.SDDS import readSDDS
    data, _ = sddsgen.encode(case)
    with open('f.sdds', 'wb') as f:
        f.write(data)
    reader = readSDDS('f.sdds', **kwargs)
    reader.read()
    return reader


def decode(case, scratch):
    reader = read(case, scratch, buffer=case['buffer'], max_string_length=max(100, case['longest']))
    sddsgen.compare(check, case, reader)


def with_buffer(files):
    return st.builds(lambda f, b: dict(f, buffer=b), files, st.booleans())


def decode_large(case, scratch):
    decode(dict(sddsgen.unpack(case), buffer=case['buffer']), scratch)


SUBS = [
    Sub('mixed', lambda: with_buffer(sddsgen.files()), decode, 700, nontrivial=sddsgen.nontrivial,
        label=sddsgen.labels),
    Sub('numeric', lambda: with_buffer(sddsgen.files(types=('double', 'long', 'short', 'float'), max_pages=14)),
        decode, 400, nontrivial=sddsgen.nontrivial, label=sddsgen.labels),
    Sub('many_rows', lambda: with_buffer(sddsgen.files(types=('double', 'double', 'long', 'string'), max_pages=3,
                                                       big=True, need_cols=True)),
        decode, 16, thorough=400, nontrivial=sddsgen.nontrivial, label=sddsgen.labels),
    Sub('large', lambda: with_buffer(sddsgen.bulk()), decode_large, 15, thorough=500, label=sddsgen.bulk_label),
    Sub('very_many_rows', lambda: with_buffer(sddsgen.bulk(('rows',))), decode_large, 1, thorough=25,
        label=sddsgen.bulk_label),
]
