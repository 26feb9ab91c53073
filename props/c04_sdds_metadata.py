"""C04: metadata accessors report what the header declares."""
from hypothesis import strategies as st

from harness import sddsgen
from harness.core import Sub, check, refuses

ID = 'C04'
RULE = ('Headers with generated attributes in any order, quoting and layout; every accessor is compared with the '
        'declared value. Non-trivial: at least one attribute is declared.')


def accessors(case, scratch):
    from rsbeams.rsdata.SDDS import readSDDS
    data, _ = sddsgen.encode(case)
    with open('f.sdds', 'wb') as f:
        f.write(data)
    for read_first in (False, True):
        reader = readSDDS('f.sdds', buffer=case['buffer'])
        if read_first:
            reader.read()
        for what, items in (('parameter', case['params']), ('column', case['cols'])):
            for item in items:
                for k in sddsgen.ATTRS:
                    got = getattr(reader, '%s_%s' % (what, k))(item['name'])
                    want = item['attrs'].get(k, '')
                    check(got == want, '%s %s of %s is %r instead of %r', what, k, item['name'], got, want)
                got = getattr(reader, what + '_type')(item['name'])
                check(got == item['type'], 'type of %s is %r', item['name'], got)
                if what == 'parameter':
                    got, want = reader.parameter_fixed_value(item['name']), item.get('fixed')
                    check(type(got) is type(want) and got == want, 'fixed value of %s is %r instead of %r',
                          item['name'], got, want)
            known = [i['name'] for i in items]
            others = [i['name'] for i in case['params'] + case['cols']]
            near = [f(n) for n in known for f in (lambda n: n + '_', str.lower, str.upper, str.swapcase, str.title,
                                                 lambda n: n[:-1], lambda n: n[1:], lambda n: n + ' ',
                                                 lambda n: ' ' + n, lambda n: n + '.', lambda n: n.split('.')[0])]
            for name in ['no such name', '', None, 0] + others + near:
                if name in known:
                    continue
                for k in sddsgen.ATTRS + ('type',) + (('fixed_value',) if what == 'parameter' else ()):
                    check(refuses(getattr(reader, '%s_%s' % (what, k)), name), 'unknown %s %r has %s', what, name, k)


def nontrivial(case):
    return any(i['attrs'] or 'fixed' in i for i in case['params'] + case['cols'])


@st.composite
def long_texts(draw):
    f = draw(sddsgen.files(max_pages=1, modes=('ascii',), types=('double',)))
    items = f['params'] + f['cols']
    texts = draw(st.lists(sddsgen.attr_text(), min_size=1, max_size=5))
    for item in items:
        for k in sddsgen.ATTRS:
            if draw(st.booleans()):
                n = draw(st.sampled_from([40, 100, 128, 200, 255, 256, 257, 300, 512, 1000, 1025, 4097]))
                text = (' '.join(texts) * n)[:n].strip(' ,')
                if text:
                    item['attrs'][k] = text
    return dict(f, buffer=draw(st.booleans()))


SUBS = [Sub('long_texts', long_texts, accessors, 60, nontrivial=nontrivial,
            label=lambda c: 'longest %d' % max([len(t) for i in c['params'] + c['cols'] for t in i['attrs'].values()]
                                               or [0])),
        Sub('large', lambda: st.builds(lambda f, b: dict(f, buffer=b), sddsgen.bulk(('wide', 'parameters')),
                                       st.booleans()),
            lambda case, scratch: accessors(dict(sddsgen.unpack(case), buffer=case['buffer']), scratch), 8, thorough=200,
            label=sddsgen.bulk_label),
        Sub('accessors', lambda: st.builds(lambda f, b: dict(f, buffer=b), sddsgen.files(max_pages=1), st.booleans()),
            accessors, 800, nontrivial=nontrivial,
            label=lambda c: 'quote%d split%d' % (c['layout']['quote'], c['layout']['split']))]
