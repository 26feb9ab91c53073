"""C10: the converter against 40-digit relativistic kinematics."""
import functools
import math

from hypothesis import strategies as st

from harness import relativity as rel
from harness.core import Sub, check

ID = 'C10'
RULE = ('One quantity of any kind, for speeds from 1e-5 c to gamma = 1e6 and masses from 1 eV to 1e12 eV (or the '
        'default electron), compared with a 40-digit evaluation; tolerances follow from the rounding of beta and '
        'gamma. Non-trivial: the speed is neither below 1e-3 c nor above 0.999999 c.')
M_E = 510998.95

MASSES = st.one_of(st.none(), st.sampled_from([510998.95, 938272088.16, 1., 1e12, 1.5e9, 0.25, 1e-4]),
                   st.floats(0., 12.).map(lambda x: 10. ** x), st.floats(-9., 15.).map(lambda x: 10. ** x))
BG = st.one_of(st.floats(-5., 6.).map(lambda x: 10. ** x), st.floats(0.1, 10.), st.sampled_from([1., 0.5, 2., 1e3]))


def given(kind, bg, mass):
    """The double nearest to this state."""
    m = M_E if mass is None else mass
    g = math.sqrt(1. + bg * bg)
    return dict(momentum=bg * m, velocity=bg / g * rel.C, energy=g * m, kenergy=bg * bg / (g + 1.) * m,
                betagamma=bg, brho=bg * m / rel.C, beta=bg / g, gamma=g)[kind]


def possible(c):
    """velocities and betas that are not rounded to the speed of light; gammas not rounded to 1"""
    kind, bg = c['kind'], c['bg']
    if kind in ('beta', 'velocity'):
        return bg < 1e4
    if kind in ('gamma', 'energy'):
        return bg > 1e-4
    return True


@functools.lru_cache(maxsize=None)
def cases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(rel.KINDS), bg=BG, mass=MASSES)).filter(possible)


def mass_of(converter_out, mass):
    return converter_out['mass'] if mass is None else mass


def compare(out, want, tol, what):
    for n in rel.KINDS:
        check(float(abs(out[n] - want[n])) <= tol[n] * float(abs(want[n])), '%s from %s: %r instead of %r', n, what,
              out[n], float(want[n]))


def convert(case, scratch):
    from rsbeams.rsstats.kinematic import Converter
    kind, mass = case['kind'], case['mass']
    value = given(kind, case['bg'], mass)
    kw = {} if mass is None else dict(mass=mass)
    out = dict(Converter(**{kind: value}, **kw)(silent=True))
    m = mass_of(out, mass)
    check(abs(m / M_E - 1.) < 1e-7 if mass is None else m == mass, 'mass %r', out['mass'])
    bg = rel.state(kind, value, m)
    want = rel.quantities(bg, m)
    tol = rel.tolerance(kind, bg)
    compare(out, want, tol, '%s = %r' % (kind, value))
    check(out['input'] == value and out['input_type'] == kind, 'input %r %r', out['input_type'], out['input'])
    for n in ('beta', 'gamma'):
        if kind == n:
            check(out[n] == value, 'the given %s was changed to %r', n, out[n])
    b, g = rel.mpmath.mpf(float(out['beta'])), rel.mpmath.mpf(float(out['gamma']))
    check(0. <= b <= 1. and g >= 1., 'beta %r gamma %r', out['beta'], out['gamma'])
    # any returned quantity leads back to the same state
    back = case['back']
    if not possible(dict(kind=back, bg=float(bg))):
        return
    again = Converter(**{back: out[back]}, **kw)(silent=True)
    bg2 = rel.state(back, float(out[back]), m)
    compare(again, rel.quantities(bg2, m), rel.tolerance(back, bg2), '%s = %r' % (back, out[back]))
    both = rel.tolerance(back, bg, extra=tol[back])
    compare(again, want, both, '%s fed back from %s' % (back, kind))


def back_cases():
    return st.builds(lambda c, b: dict(c, back=b), cases(), st.sampled_from(rel.KINDS))


def order(case, scratch):
    """Faster particles have more of everything."""
    from rsbeams.rsstats.kinematic import Converter
    kind, mass = case['kind'], case['mass']
    kw = {} if mass is None else dict(mass=mass)
    low, high = case['bg'], case['bg'] * (1. + case['step'])
    if not possible(dict(kind=kind, bg=high)):
        return
    a = dict(Converter(**{kind: given(kind, low, mass)}, **kw)(silent=True))
    b = dict(Converter(**{kind: given(kind, high, mass)}, **kw)(silent=True))
    t1, t2 = rel.tolerance(kind, low), rel.tolerance(kind, high)
    for n in rel.KINDS:
        check(b[n] >= a[n] * (1. - t1[n] - t2[n]), '%s falls from %r to %r with larger %s', n, a[n], b[n], kind)
        if n not in ('beta', 'velocity', 'gamma', 'energy') and max(t1[n], t2[n]) < case['step'] / 1e3:
            check(b[n] > a[n], '%s stays %r with larger %s', n, a[n], kind)


def order_cases():
    return st.builds(lambda c, s: dict(c, step=s), cases(), st.sampled_from([1e-3, 0.1, 1., 100.]))


def rest(case, scratch):
    from rsbeams.rsstats.kinematic import Converter
    m = case['mass']
    value = dict.fromkeys(rel.KINDS, 0.)
    value.update(gamma=1., energy=m)
    out = Converter(**{case['kind']: value[case['kind']]}, mass=m)(silent=True)
    for n in rel.KINDS:
        want = dict(gamma=1., energy=m).get(n, 0.)
        check(abs(out[n] - want) <= 4 * rel.EPS * want, '%s of a particle at rest is %r', n, out[n])


def rest_cases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(rel.KINDS),
                                      mass=st.one_of(st.sampled_from([1., 510998.95, 938272088.16]),
                                                     st.floats(1., 1e12))))


SIGNED = ['momentum', 'velocity', 'betagamma', 'brho', 'beta']


def backwards(case, scratch):
    """A particle that moves the other way has the same energies and the opposite momenta."""
    from rsbeams.rsstats.kinematic import Converter
    kind, mass = case['kind'], case['mass']
    value = given(kind, case['bg'], mass)
    kw = {} if mass is None else dict(mass=mass)
    ahead = dict(Converter(**{kind: value}, **kw)(silent=True))
    back = dict(Converter(**{kind: -value}, **kw)(silent=True))
    for n in rel.KINDS:
        sign = -1. if n in SIGNED else 1.
        check(abs(back[n] - sign * ahead[n]) <= 4 * rel.EPS * abs(ahead[n]), '%s of %s = %r is %r, ahead %r', n, kind,
              -value, back[n], ahead[n])
    check(back['input'] == -value, 'input %r', back['input'])


def backward_cases():
    return cases().filter(lambda c: c['kind'] in SIGNED)


def middle(case):
    return 1e-3 < case['bg'] < 700.


SUBS = [Sub('convert', back_cases, convert, 2500, nontrivial=middle, label=lambda c: c['kind'] + '>' + c['back']),
        Sub('order', order_cases, order, 1000, nontrivial=middle, label=lambda c: c['kind']),
        Sub('backwards', backward_cases, backwards, 300, nontrivial=middle, label=lambda c: c['kind']),
        Sub('at-rest', rest_cases, rest, 200, label=lambda c: c['kind'])]
