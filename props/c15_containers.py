"""C15: phase-space containers, Twiss data and derived beam quantities."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, refuses

ID = 'C15'
RULE = ('Histories of size changes, arrays, names, saves, loads and refused calls on a phase-space container run '
        'against a model; Twiss data and beam quantities are compared with their definitions. Non-trivial: histories '
        'of at least 3 steps that contain an array, alpha that is not 0, speeds between 0.01 c and 0.9999 c.')

NAMES = ['ps6d', 'a', 'beam_1', 'beam.v2', 'beam.v3', 'x' * 40, 'my beam', ' ', '0', 'ps6d.npz', '.hidden', 'B', 'b']


def array(spec):
    r = random.Random(spec[1])
    a = np.array([[r.choice([0., r.gauss(0, 1), 1e-300, -1e200, 3.]) for _ in range(spec[0])] for _ in range(6)])
    kind = spec[1] % 7
    if kind == 0:
        return np.asfortranarray(a)
    if kind == 1:
        with np.errstate(all='ignore'):
            return np.clip(a, -1e30, 1e30).astype(np.float32)
    if kind == 2:
        return np.round(np.clip(a, -9., 9.)).astype(int)
    if kind == 3:
        return np.repeat(a, 2, axis=1)[:, ::2]
    if kind == 4:
        a[r.randrange(6), r.randrange(spec[0])] = r.choice([float('nan'), float('inf')])
    return a


def histories():
    arr = st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(100, 300)), st.integers(0, 10**6))
    bad = st.sampled_from([[5, 4], [7, 3], [6], [6, 0], [2, 6, 3], [0, 6], [1, 6], [12], [6, 2, 2]])
    op = st.one_of(
        st.tuples(st.just('number'), st.integers(1, 12)),
        st.tuples(st.just('bad number'), st.sampled_from([0, -1, -12])),
        st.tuples(st.just('array'), arr), st.tuples(st.just('array'), arr),
        st.tuples(st.just('bad array'), bad),
        st.tuples(st.just('name'), st.sampled_from(NAMES)), st.tuples(st.just('bad name'), st.just('')),
        st.tuples(st.just('save'), st.just(0)), st.tuples(st.just('save'), st.just(0)),
        st.tuples(st.just('load'), st.booleans()), st.tuples(st.just('load'), st.booleans()),
        st.tuples(st.just('edit'), st.integers(0, 5)), st.tuples(st.just('clear'), st.just(0)))
    return st.builds(lambda n, ops: dict(n=n, ops=[[w, list(v) if isinstance(v, tuple) else v] for w, v in ops]),
                     st.integers(1, 8), st.lists(op, min_size=1, max_size=14))


def observe(ps, model, number, name, what):
    got = ps.get_array_6d()
    check(np.shape(got) == model.shape and np.array_equal(got, model, equal_nan=True) and
          np.asarray(got).dtype == model.dtype, '%s: array %r instead of %r', what, got, model)
    check(ps.get_num_ptcls() == number, '%s: %r particles instead of %d', what, ps.get_num_ptcls(), number)
    check(ps.get_file_name() == name, '%s: file name %r instead of %r', what, ps.get_file_name(), name)
    for i, c in enumerate(('x', 'xp', 'y', 'yp', 's', 'dp')):
        v = getattr(ps, 'get_array_' + c)()
        check(np.shape(v) == (number,) and np.array_equal(v, model[i], equal_nan=True), '%s: %s is %r', what, c, v)


def container(case, scratch):
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    for bad in (0, -3):
        check(refuses(RsPhaseSpace6D, bad), '%d particles are accepted', bad)
    ps = RsPhaseSpace6D(case['n'])
    model, name, saved = np.zeros((6, case['n'])), 'ps6d', {}
    ps.check_array()
    observe(ps, model, case['n'], name, 'new container')
    for what, value in case['ops']:
        if what == 'number':
            ps.set_num_ptcls(value)
            model = np.zeros((6, value))
        elif what == 'bad number':
            check(refuses(ps.set_num_ptcls, value), '%d particles are accepted', value)
        elif what == 'array':
            given = array(value)
            model = given.copy()
            ps.set_array_6d(given)
            ps.check_array()
            check(np.array_equal(given, model, equal_nan=True), 'the given array was changed')
        elif what == 'bad array':
            before = ps.get_num_ptcls()
            ps.set_array_6d(np.ones(value))
            check(refuses(ps.check_array), 'shape %r is accepted', value)
            check(ps.get_num_ptcls() == before, 'particle number changed to %r', ps.get_num_ptcls())
            ps.set_array_6d(model.copy())
            ps.check_array()
        elif what == 'name':
            ps.set_file_name(value)
            name = value
        elif what == 'bad name':
            check(refuses(ps.set_file_name, value), 'an empty name is accepted')
        elif what == 'save':
            ps.write_array()
            saved[name] = model.copy()
        elif what == 'load':
            if name not in saved:
                check(refuses(ps.read_array), 'a missing file is read')
            elif value:
                ps.read_array()
                model = saved[name].copy()
            else:
                fresh = RsPhaseSpace6D(3)
                fresh.set_file_name(name)
                fresh.read_array()
                observe(fresh, saved[name], saved[name].shape[1], name, 'loaded by another container')
        elif what == 'edit':
            # the array is handed out, not a copy of it
            i = value % 6
            ps.get_array_6d()[i, 0] = 5
            model[i, 0] = 5
        else:
            ps.initialize_array()
            model = np.zeros(model.shape)
        observe(ps, model, model.shape[1], name, what)


def twiss_cases():
    return st.builds(lambda a, b, e: [a, b, e],
                     st.one_of(st.sampled_from([0., 1., -1., 0.5]), st.floats(-50., 50.), st.floats(-1e5, 1e5)),
                     st.one_of(st.sampled_from([1., 0.1, 10.]), st.floats(-6., 6.).map(lambda x: 10.**x)),
                     st.floats(-12., 3.).map(lambda x: 10.**x))


def twiss(case, scratch):
    from rsbeams.rsptcls.RsTwiss2D import RsTwiss2D
    alpha, beta, emit = case
    t = RsTwiss2D(alpha, beta, emit)
    check([t.get_alpha_rms(), t.get_beta_rms(), t.get_emit_rms()] == case, 'values %r', case)
    left = beta * t.get_gamma_rms() - alpha * alpha
    check(abs(left - 1.) <= 1e-14 * (1. + alpha * alpha), 'beta * gamma - alpha**2 = %r', left)


def beam_cases():
    return st.fixed_dictionaries(dict(
        p=st.floats(3., 12.).map(lambda x: 10.**x), mass=st.sampled_from([510998.95, 938272088.16, 1e9, 1.]),
        charge=st.one_of(st.sampled_from([1e-9, 0., -1e-9, 3.2e-10]), st.floats(0., 1e-6)),
        type=st.sampled_from(['uniform', 'gaussian']), n=st.integers(12, 25), seed=st.integers(0, 2**31),
        alpha=st.sampled_from([0., 0.5, -1.]), beta=st.floats(0.1, 10.), emit=st.floats(-9., 0.).map(lambda x: 10.**x),
        offset=st.sampled_from([0., 1e-3, -2.]), factor=st.sampled_from([1., 3., 0.1])))


def beam(case, scratch):
    from rsbeams.rsptcls.RsPtclBeam6D import RsPtclBeam6D
    np.random.seed(case['seed'])
    b = RsPtclBeam6D(case['n'], case['p'], case['charge'], case['mass'], case['type'], 4., 0.1, 1., 1e-6, 0.2, 2., 2e-6,
                     case['alpha'], case['beta'], case['emit'])
    check(b.get_design_p_ev() == case['p'] and b.get_total_charge_c() == case['charge'] and
          b.get_mass_ev() == case['mass'], 'given values')
    bg = case['p'] / case['mass']
    gamma = math.hypot(1., bg)
    close(b.get_beta0_gamma0(), bg, 'beta * gamma')
    close(b.get_gamma0(), gamma, 'gamma')
    close(b.get_beta0(), bg / gamma, 'beta')
    d = b.get_distrib6d()
    d.offset_component(case['offset'], 4)
    d.multiply_component(case['factor'], 4)
    s = np.array(d.get_phase_space_6d().get_array_6d()[4])
    rms = math.sqrt(np.mean((s - s.mean())**2))
    if rms > 1e-7 * abs(s.mean()):
        time = rms / (bg / gamma * 299792458.)
        close(b.get_peak_current_rms(), case['charge'] / time, 'peak current', 1e-12 + 1e-14 * (s.mean() / rms)**2)


def close(a, b, what, tol=1e-13):
    check(abs(a - b) <= tol * abs(b), '%s: %r instead of %r', what, a, b)


SUBS = [Sub('container', histories, container, 500,
            nontrivial=lambda c: len(c['ops']) > 2 and any(o[0] == 'array' for o in c['ops']),
            label=lambda c: sorted({o[0] for o in c['ops']})),
        Sub('twiss', twiss_cases, twiss, 500, nontrivial=lambda c: c[0] != 0.),
        Sub('beam', beam_cases, beam, 150, nontrivial=lambda c: 0.01 < c['p'] / c['mass'] < 70.)]
