"""C28: nonlinear inserts."""
import math
import re

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, refuses

ID = 'C28'
RULE = ('Histories of 1 to 5 changes of a nonlinear insert (length, phase advance, strength, aperture, slices), each '
        'followed by a generation and a MAD-X text, against the beta function of a drift with the given phase advance. '
        'Non-trivial: at least two slices and one change.')


def lengths():
    return st.one_of(st.sampled_from([1., 2, 1.8, 0.1, 10]), st.floats(1e-3, 100.))


def phases():
    # not within 0.005 of a multiple of one half
    return st.one_of(st.sampled_from([0.25, 0.3, 0.123, 0.75, 0.9, 1.3, -0.2, 2.49, 0.01]),
                     st.tuples(st.integers(-4, 6), st.floats(0.005, 0.495)).map(lambda x: x[0] / 2. + x[1]))


def strengths():
    return st.one_of(st.sampled_from([0.1, 0.4, -0.25, 0., 0.49, 1]), st.floats(-2., 2.).map(lambda v: round(v, 9)))


def apertures():
    return st.one_of(st.sampled_from([0.01, 1e-3, 0.009, 1., 2]), st.floats(1e-6, 10.))


def slices():
    return st.one_of(st.sampled_from([1, 2, 3, 20, 10]), st.integers(1, 60), st.integers(1, 300))


FIELDS = dict(length=lengths, phase=phases, t=strengths, c=apertures, num_slices=slices)


@st.composite
def cases(draw):
    start = {k: draw(s()) for k, s in FIELDS.items()}
    given = [k for k in ('t', 'c', 'num_slices') if draw(st.booleans())]
    changes = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(list(FIELDS) + ['refused']))
        changes.append([k, draw(FIELDS[k]() if k in FIELDS else st.sampled_from([-1., -1e-9, -3, -1e-300]))])
    return dict(start=start, given=given, changes=changes)


def close(got, want, what, case, scale=0.):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    check(got.shape == want.shape, '%s has shape %r, not %r', what, got.shape, want.shape)
    check(np.all(np.abs(got - want) <= 1e-9 * np.abs(want) + scale), '%s: %r instead of %r for %r', what, got, want,
          case)


def verify(insert, p):
    from scipy.constants import pi
    n, length = p['num_slices'], p['length']
    # waist in the middle: half of the phase advance is atan(L / 2 / beta*)
    waist = length / 2. / abs(math.tan(pi * p['phase']))
    s = np.array([(i + 0.5) * length / n for i in range(n)])

    def beta(at):
        return waist + (at - length / 2.) ** 2 / waist
    close(insert.s_vals, s, 's of the slices', p)
    close(insert.betas, beta(s), 'beta', p)
    close(insert.beta0, beta(0.), 'initial beta', p)
    cnll = p['c'] * np.sqrt(beta(s))
    close(insert.cnll, cnll, 'cnll', p)
    close(insert.knll, p['t'] * length / n / beta(s) ** 2 * cnll ** 2, 'knll', p)


def numbers(text, name):
    found = re.findall(r'\b%s\s*:?=\s*([-+.\deE]+|nan|inf)' % name, text)
    check(len(found) == 1, '%d values of %s in %r', len(found), name, text)
    return float(found[0])


def verify_text(insert):
    text = insert.create_madx()
    check(len(text) == len(insert.knll), '%d MAD-X elements for %d slices', len(text), len(insert.knll))
    for i, line in enumerate(text):
        check(re.match(r'\s*(\w+\s*:)?\s*nllens\s*,', line) and line.strip().endswith(';'), 'MAD-X element %r', line)
        for name, values in (('knll', insert.knll), ('cnll', insert.cnll)):
            check(numbers(line, name) == values[i], '%s of slice %d is %r in %r', name, i, values[i], line)


def run_insert(case, scratch):
    from rsbeams.rslattice.nonlinear import NonlinearInsert
    p = dict(case['start'])
    for k, default in (('t', 0.1), ('c', 0.01), ('num_slices', 20)):
        if k not in case['given']:
            p[k] = default
    insert = NonlinearInsert(p['length'], p['phase'], **{k: p[k] for k in case['given']})
    insert.generate_sequence()
    verify(insert, p)
    verify_text(insert)
    for k, v in case['changes']:
        if k == 'refused':
            check(refuses(setattr, insert, 'c', v), 'an aperture of %r is accepted', v)
            check(insert.c == p['c'], 'the aperture is %r after a refused change, not %r', insert.c, p['c'])
        else:
            setattr(insert, k, v)
            check(getattr(insert, k) == v, '%s is %r after it was set to %r', k, getattr(insert, k), v)
            p[k] = v
        insert.generate_sequence()
        verify(insert, p)
        verify_text(insert)
    for k in FIELDS:
        check(getattr(insert, k) == p[k], '%s is %r, not %r', k, getattr(insert, k), p[k])


SUBS = [Sub('insert', cases, run_insert, 600, label=lambda c: [k for k, _ in c['changes']] or ['no change'],
            nontrivial=lambda c: bool(c['changes']) and c['start']['num_slices'] > 1)]
ASSUMPTIONS = ['Phase advances stay 0.005 away from multiples of one half, where no such drift exists.']
