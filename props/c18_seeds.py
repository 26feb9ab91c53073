"""C18: reproducibility of bunches."""
import random

import numpy as np
from hypothesis import strategies as st

from harness import bunches
from harness.core import Sub, check

ID = 'C18'
RULE = ('Pairs of bunches made with the same seed and calls after different use of both random generators, for every '
        'class and distribution, and with different seeds. Non-trivial: the generators were in different states '
        'before.')


def disturb(state):
    """Leaves both generators in a state that depends on `state`."""
    random.seed(state)
    np.random.seed(state % 2**32)
    for _ in range(state % 7):
        random.random()
        np.random.randn(3)


SEEDS = st.one_of(st.sampled_from([0, 1, 2, 42, 2**32 - 1, 2**32, 2**40, 1234567890123, 2**64 + 5, 0.5, 1.5, 1.25, 2.75]),
                  st.integers(0, 2**33), st.floats(0., 1e6).map(lambda v: round(v, 3)))
KINDS = ['standard Gaussian', 'standard KV', 'nonlinear KV', 'nonlinear waterbag', 'nonlinear Gaussian']


def cases():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(1, 15).map(lambda k: 4 * k), quiet=st.booleans(), seed=SEEDS,
        other=SEEDS, states=st.tuples(st.integers(0, 10**9), st.integers(0, 10**9)).map(list), beta=bunches.BETA,
        alpha=bunches.ALPHA, calls=st.lists(st.sampled_from(['t', 'z', 'zz']), min_size=1, max_size=4)))


def make(case, seed):
    from rsbeams.rsptcls.bunch import NonlinearBunch, StandardBunch
    cls, dist = case['kind'].split()
    kw = dict(betax=case['beta'], betay=case['beta'], alphax=case['alpha'], quiet=case['quiet'], seed=seed, stdz=2.,
              dpop=1e-3, emitx=1e-5, emity=1e-5)
    b = (StandardBunch if cls == 'standard' else NonlinearBunch)(case['n'], dist=dist, **kw)
    for c in case['calls']:
        if c == 't':
            b.set_transverse_coordinates()
        else:
            b.set_longitudinal_coordinates(**(dict(stdz=1.) if c == 'zz' else {}))
    return b, np.array(b.particles)


def same_seed(case, scratch):
    disturb(case['states'][0])
    b, first = make(case, case['seed'])
    check(b.seed == case['seed'], 'seed %r', b.seed)
    disturb(case['states'][1])
    second = make(case, case['seed'])[1]
    check(first.tobytes() == second.tobytes(), 'two bunches with seed %r differ', case['seed'])
    third = make(case, case['seed'])[1]
    check(first.tobytes() == third.tobytes(), 'a third bunch with seed %r differs', case['seed'])
    if case['other'] != case['seed']:
        columns = ([0, 1, 2, 3] if 't' in case['calls'] else []) + ([4, 5] if set(case['calls']) - {'t'} else [])
        other = make(case, case['other'])[1]
        for c in columns:
            check(not np.array_equal(first[:, c], other[:, c]), 'seeds %r and %r give the same coordinate %d',
                  case['seed'], case['other'], c)
        # no seed: the state of the generators is new each time
        free = [make(case, None)[1] for _ in range(2)]
        if 't' in case['calls'] and case['kind'] != 'standard Gaussian':
            check(not np.array_equal(free[0][:, :4], free[1][:, :4]), 'bunches without a seed are equal')


def distrib_cases():
    return st.fixed_dictionaries(dict(n=st.integers(12, 30), type=st.sampled_from(['uniform', 'gaussian']),
                                      seed=st.integers(0, 2**32 - 1), other=st.integers(0, 2**32 - 1),
                                      states=st.tuples(st.integers(0, 10**9), st.integers(0, 10**9)).map(list),
                                      beam=st.booleans()))


def distrib(case, scratch):
    from rsbeams.rsptcls.RsDistrib6D import RsDistrib6D
    from rsbeams.rsptcls.RsPtclBeam6D import RsPtclBeam6D
    arrays = []
    for i, seed in enumerate([case['seed'], case['seed'], case['other']]):
        disturb(case['states'][i % 2])
        np.random.seed(seed)
        random.seed(seed)
        if case['beam']:
            d = RsPtclBeam6D(case['n'], 1e8, 1e-9, 5.11e5, case['type'], 4., 0.1, 1., 1e-6, -0.2, 2., 1e-6, 0., 1.,
                             1e-6).get_distrib6d()
        else:
            d = RsDistrib6D(case['n'], case['type'], 4.)
        arrays.append(np.array(d.get_phase_space_6d().get_array_6d()))
    check(arrays[0].tobytes() == arrays[1].tobytes(), 'distributions with the same seed differ')
    if case['seed'] != case['other']:
        check(not np.array_equal(arrays[0], arrays[2]), 'distributions with different seeds are equal')


def draw_cases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), n=st.sampled_from([4, 8, 40]), quiet=st.booleans(),
                                      seed=st.one_of(SEEDS, st.none()), calls=st.integers(2, 5)))


def draws(case, scratch):
    """Every call for coordinates draws new ones."""
    from rsbeams.rsptcls.bunch import NonlinearBunch, StandardBunch
    cls, dist = case['kind'].split()
    b = (StandardBunch if cls == 'standard' else NonlinearBunch)(case['n'], dist=dist, seed=case['seed'], dpop=1e-3,
                                                                 quiet=case['quiet'])
    seen = [set() for _ in range(6)]
    for i in range(case['calls']):
        b.set_transverse_coordinates()
        b.set_longitudinal_coordinates()
        for c in range(6):
            seen[c].add(np.array(b.particles[:, c]).tobytes())
    check(min(len(s) for s in seen) == case['calls'], 'calls repeat coordinates')


def seed_cases():
    return st.fixed_dictionaries(dict(
        dist=st.sampled_from(['Gaussian', 'Gaussian', 'KV']), first=st.one_of(
            st.integers(0, 2**40), st.sampled_from([0, 2**32 - 500, 2**31 - 500])),
        step=st.sampled_from([1, 1, 7, 2**16, 2**32, 0.25, 10**9]), cls=st.sampled_from(['Standard', 'Standard', 'Nonlinear'])))


def many_seeds(case, scratch):
    """Bunches with different seeds rarely agree in any coordinate (32 random bits: 1e-4 pairs are expected)."""
    from rsbeams.rsptcls import bunch
    count = 1000 if case['dist'] == 'Gaussian' and case['cls'] == 'Standard' else 150
    seen = [set() for _ in range(6)]
    for i in range(count):
        b = getattr(bunch, case['cls'] + 'Bunch')(2, dist=case['dist'], seed=case['first'] + i * case['step'], dpop=0.1)
        b.set_transverse_coordinates()
        b.set_longitudinal_coordinates()
        for c in range(6):
            seen[c].add(np.array(b.particles[:, c]).tobytes())
    check(min(len(s) for s in seen) >= count - 3, 'only %r different coordinates for %d seeds', [len(s) for s in seen],
          count)


SUBS = [Sub('bunches', cases, same_seed, 350, nontrivial=lambda c: c['states'][0] != c['states'][1],
            label=lambda c: c['kind']),
        Sub('draws', draw_cases, draws, 100, label=lambda c: c['kind']),
        Sub('many-seeds', seed_cases, many_seeds, 4, thorough=120, label=lambda c: c['dist']),
        Sub('distributions', distrib_cases, distrib, 120, nontrivial=lambda c: c['states'][0] != c['states'][1])]
