"""C20: phase advance and tune."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check

ID = 'C20'
RULE = ('Vectors of any direction and length rotated by a known angle; sinusoids of known tune, phase, amplitude, '
        'length and window. Non-trivial: angle that is no multiple of a quarter turn; tune at least one bin away from '
        '0 and 0.5.')


def advance_cases():
    angle = st.one_of(st.sampled_from([0., math.pi / 2, math.pi, 1.5 * math.pi, 1e-9, 6.2831, 3.5, 0.25]),
                      st.floats(0., 2. * math.pi).map(lambda v: round(v, 12)))
    length = st.one_of(st.sampled_from([1., 1e-6, 1e3]), st.floats(-9., 9.).map(lambda e: 10.**e))
    return st.fixed_dictionaries(dict(start=angle, turn=angle, lengths=st.tuples(length, length).map(list),
                                      kind=st.sampled_from(['list', 'array', 'tuple']), named=st.booleans()))


def vector(angle, length, kind):
    v = [length * math.cos(angle), length * math.sin(angle)]
    return dict(list=list, array=np.array, tuple=tuple)[kind](v)


def advance(case, scratch):
    from rsbeams.rsptcls.phases import phase_advance
    start, turn = case['start'], case['turn']
    a = vector(start, case['lengths'][0], case['kind'])
    b = vector(start - turn, case['lengths'][1], case['kind'])
    clock = float(phase_advance(a, b))
    check(float(phase_advance(a, b, clockwise=True)) == clock, 'default sense')
    counter = float(phase_advance(a, b, clockwise=False) if case['named'] else phase_advance(a, b, False))
    for got, want in ((clock, turn), (counter, -turn)):
        check(0. <= got <= 2. * math.pi, 'angle %r', got)
        miss = (got - want + math.pi) % (2. * math.pi) - math.pi
        check(abs(miss) <= 1e-12, 'angle %r instead of %r', got, want)
    check(abs(clock + counter - 2. * math.pi) <= 1e-12, 'angles %r and %r of both senses', clock, counter)
    back = float(phase_advance(b, a))
    miss = (clock + back + math.pi) % (2. * math.pi) - math.pi
    check(abs(miss) <= 1e-12, 'angles %r there and %r back', clock, back)
    # other lengths
    again = float(phase_advance(vector(start, 2.5, 'list'), vector(start - turn, 1e4, 'list')))
    miss = (again - clock + math.pi) % (2. * math.pi) - math.pi
    check(abs(miss) <= 1e-12, 'angle %r depends on the lengths (%r)', clock, again)


def rotation_cases():
    return st.fixed_dictionaries(dict(angle=st.floats(0.01, 6.27).map(lambda v: round(v, 9)),
                                      alpha=st.floats(-2., 2.).map(lambda v: round(v, 6)),
                                      beta=st.sampled_from([0.5, 1., 3., 20.]),
                                      start=st.floats(0., 6.28).map(lambda v: round(v, 9))))


def rotation(case, scratch):
    """A transfer matrix with this phase advance, seen in normalised coordinates."""
    from rsbeams.rsptcls.phases import phase_advance
    mu, alpha, beta = case['angle'], case['alpha'], case['beta']
    m = np.array([[math.cos(mu) + alpha * math.sin(mu), beta * math.sin(mu)],
                  [-(1. + alpha**2) / beta * math.sin(mu), math.cos(mu) - alpha * math.sin(mu)]])
    x = np.array([math.cos(case['start']), math.sin(case['start'])]) * 1e-3
    norm = np.array([[1. / math.sqrt(beta), 0.], [alpha / math.sqrt(beta), math.sqrt(beta)]])
    got = phase_advance(norm @ x, norm @ (m @ x))
    check(abs(got - mu) <= 1e-9, 'phase advance %r instead of %r', got, mu)


def tune_cases():
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(16, 80), st.sampled_from([100, 256, 1000, 1001, 2500, 8192, 10007])),
        where=st.one_of(st.sampled_from([0.25, 0.4999, 0.001, 1. / 3.]), st.floats(0., 1.).map(lambda v: round(v, 9))),
        high=st.booleans(), phase=st.floats(0., 6.28).map(lambda v: round(v, 6)),
        amplitude=st.sampled_from([1., 1e-6, 1e5, 0.003, 1e-60, 1e60]), cut=st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list),
        window=st.sampled_from(['default', 'start', 'end', 'both', 'positional', 'from end', 'past end']), junk=st.booleans()))


def tune(case, scratch):
    from rsbeams.rsptcls.phases import tune_fft
    n = case['n']
    first, last = case['cut']
    if case['window'] == 'default':
        used, lo, hi = n - 1, 1, n
        args, kw = (), {}
    elif case['window'] == 'start':
        used, lo, hi = n - first, first, n
        args, kw = (), dict(t_i=first)
    elif case['window'] == 'end':
        lo, hi = 1, n - last
        used = hi - lo
        args, kw = (), dict(t_f=hi)
    elif case['window'] == 'from end':
        # indices count from the end as in slices
        lo, hi = n - (n // 2 + 8 + first) if n > 40 else 0, n - 1 - last
        used = hi - lo
        args, kw = (), dict(t_i=lo - n, t_f=hi - n)
    elif case['window'] == 'past end':
        lo, hi = first, n
        used = hi - lo
        args, kw = (), dict(t_i=first, t_f=n + last)
    else:
        lo, hi = first, n - last
        used = hi - lo
        args, kw = ((lo, hi), {}) if case['window'] == 'positional' else ((), dict(t_i=lo, t_f=hi))
    # keep away from 0 and 0.5, where the peak merges with its mirror image
    q = 1.5 / used + case['where'] * (0.5 - 3. / used)
    x = case['amplitude'] * np.cos(2. * math.pi * ((1. - q) if case['high'] else q) * np.arange(n) + case['phase'])
    if case['junk']:
        # turns outside the window do not matter
        x[:lo] = 1e3 * case['amplitude']
        x[hi:] = -1e3 * case['amplitude']
    copy = x.copy()
    got = tune_fft(x, *args, **kw)
    check(np.array_equal(x, copy), 'the coordinates were changed')
    check(0. <= got <= 0.5, 'tune %r', got)
    check(abs(got - q) <= 1.0000001 / used, 'tune %r instead of %r with %d turns', got, q, used)


def exact_cases():
    return st.builds(lambda n, k, p, a: dict(n=n, k=k, phase=p, amplitude=a), st.integers(8, 200), st.integers(0, 10**6),
                     st.floats(0., 6.28).map(lambda v: round(v, 6)), st.sampled_from([1., 1e-3, 2e4]))


def on_bin(case, scratch):
    """A whole number of periods in the window is found exactly."""
    from rsbeams.rsptcls.phases import tune_fft
    n = case['n']
    k = case['k'] % (n // 2 + 1)
    phase = case['phase']
    if k == 0 or 2 * k == n:
        phase = phase % 1.2       # away from the phase at which all values are zero
    x = case['amplitude'] * np.cos(2. * math.pi * k / n * np.arange(n + 1) + phase)
    got = tune_fft(x)
    check(abs(got - k / n) <= 1e-12, 'tune %r instead of %r', got, k / n)


def edge_cases():
    return st.fixed_dictionaries(dict(n=st.integers(16, 300), off=st.floats(0., 1.5).map(lambda v: round(v, 9)),
                                      half=st.booleans(), high=st.booleans(),
                                      amplitude=st.sampled_from([1., 1e-3, 2e4])))


def edges(case, scratch):
    """Tunes less than two bins from 0 and 0.5; the phase is such that peak and mirror image add up."""
    from rsbeams.rsptcls.phases import tune_fft
    n = case['n']
    off = case['off'] / n
    q = 0.5 - off if case['half'] else off
    turns = np.arange(n + 1)
    middle = 1. + (n - 1) / 2.
    slow = np.cos(2. * math.pi * off * (turns - middle))
    x = case['amplitude'] * (slow * (-1.)**turns if case['half'] else slow)
    got = tune_fft(x)
    check(abs(got - q) <= 1.0000001 / n, 'tune %r instead of %r with %d turns', got, q, n)


SUBS = [Sub('advance', advance_cases, advance, 1200, nontrivial=lambda c: c['turn'] % (math.pi / 2) > 1e-6),
        Sub('rotation', rotation_cases, rotation, 400),
        Sub('tune', tune_cases, tune, 800, label=lambda c: c['window']),
        Sub('edges', edge_cases, edges, 400, label=lambda c: 'near half' if c['half'] else 'near zero'),
        Sub('on-bin', exact_cases, on_bin, 400)]
