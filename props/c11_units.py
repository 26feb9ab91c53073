"""C11: unit systems, repeated calls and the command line of the converter."""
import re
import sys

from hypothesis import strategies as st

from harness import relativity as rel
from harness.core import Sub, check, refuses
from props import c10_kinematics as kin

ID = 'C11'
RULE = ('One input quantity with independently chosen input, mass and output units; results are compared with a '
        '40-digit evaluation converted by e and c, with the same request in eV units, with a second call and with '
        'the printed text of the command line. Non-trivial: at least one of the three units is SI.')

E = 1.602176634e-19
SI = dict(momentum=E / rel.C, energy=E, kenergy=E)       # SI value of one eV-based unit
KG = E / rel.C ** 2
UNIT = 1e-8        # electron mass and charge constants of the code are rounded to about 1e-10


def cases():
    unit = st.sampled_from(['eV', 'SI'])
    return st.builds(lambda c, i, m, o, n: dict(c, unit=i, mass_unit=m, output_unit=o, calls=n), kin.cases(), unit,
                     unit, unit, st.integers(1, 3))


def arguments(case):
    kind, mass = case['kind'], case['mass']
    value = kin.given(kind, case['bg'], mass)
    if case['unit'] == 'SI':
        value *= SI.get(kind, 1.)
    if mass is not None and case['mass_unit'] == 'SI':
        mass *= KG
    return kind, value, mass


def verify(out, case, kind, value, mass):
    """The physical state, each number in its unit."""
    ev = value / SI.get(kind, 1.) if case['unit'] == 'SI' else value
    m = kin.M_E if mass is None else mass / KG if case['mass_unit'] == 'SI' else mass
    bg = rel.state(kind, ev, m)
    want = rel.quantities(bg, m)
    tol = rel.tolerance(kind, bg, extra=UNIT if case['unit'] == 'SI' or case['mass_unit'] == 'SI' or mass is None
                        else 0.)
    for n in SI:
        if case['output_unit'] == 'SI':
            want[n] = want[n] * SI[n]
            tol[n] += 1e-9
    kin.compare(out, want, tol, '%s = %r (%s)' % (kind, value, case))


def converter(case, scratch):
    from rsbeams.rsstats.kinematic import Converter
    kind, value, mass = arguments(case)
    kw = dict(input_unit=case['unit'], mass_unit=case['mass_unit'], output_unit=case['output_unit'])
    if mass is not None:
        kw['mass'] = mass
    conv = Converter(**{kind: value}, **kw)
    first = None
    for i in range(case['calls']):
        out = dict(conv(silent=True))
        if first is None:
            first = out
            verify(out, case, kind, value, mass)
        else:
            check(out == first, 'call %d: %r instead of %r', i + 1, out, first)
    check(first['input'] == value and first['input_type'] == kind, 'input %r instead of %r', first['input'], value)
    if mass is None:
        want = kin.M_E if case['mass_unit'] == 'eV' else kin.M_E * KG
        check(abs(first['mass'] / want - 1.) < 1e-7, 'electron mass %r in %s', first['mass'], case['mass_unit'])
    else:
        check(first['mass'] == mass, 'mass %r instead of %r', first['mass'], mass)
    labels(first, case, kind)
    # the same particle with everything in eV
    other = Converter(**{kind: kin.given(kind, case['bg'], case['mass'])},
                      **({} if mass is None else dict(mass=case['mass'])))(silent=True)
    bg = rel.state(kind, kin.given(kind, case['bg'], case['mass']), case['mass'] or kin.M_E)
    tol = rel.tolerance(kind, bg, extra=UNIT)
    for n in rel.KINDS:
        a = first[n] / SI[n] if case['output_unit'] == 'SI' and n in SI else first[n]
        check(abs(a - other[n]) <= (2 * tol[n] + 1e-8) * abs(other[n]), '%s: %r in other units is %r', n, other[n], a)


def squeeze(text):
    return re.sub(r'\s', '', str(text))


def labels(out, case, kind):
    si = case['output_unit'] == 'SI'
    check(squeeze(out['p_unit']) == ('kg*m/s' if si else 'eV/c'), 'momentum unit %r', out['p_unit'])
    check(squeeze(out['e_unit']) == ('J' if si else 'eV'), 'energy unit %r', out['e_unit'])
    check(squeeze(out['mass_unit']) == ('kg' if case['mass_unit'] == 'SI' else 'eV/c^2'), 'mass unit %r',
          out['mass_unit'])
    si = case['unit'] == 'SI'
    want = dict(energy='J' if si else 'eV', kenergy='J' if si else 'eV', momentum='kg*m/s' if si else 'eV/c',
                velocity='m/s')
    if kind == 'brho':
        check(squeeze(out['input_unit']) in ('', 'T*m'), 'input unit %r of %s', out['input_unit'], kind)
    else:
        # numbers without unit have none
        want = dict(want, **dict.fromkeys(('beta', 'gamma', 'betagamma'), ''))
        check(squeeze(out['input_unit']) == want[kind], 'input unit %r of %s', out['input_unit'], kind)


FLAGS = dict(momentum=('-p', '--momentum'), velocity=('-v', '--velocity'), energy=('-E', '--energy'),
             kenergy=('-KE', '--kenergy'), betagamma=('-bg', '--betagamma'), brho=('-r', '--brho'),
             beta=('-b', '--beta'), gamma=('-g', '--gamma'))
LINES = {'velocity': 'velocity', 'beta': 'beta', 'gamma': 'gamma', 'momentum': 'momentum',
         'beta * gamma': 'betagamma', 'energy': 'energy', 'kinetic energy': 'kenergy', 'Brho': 'brho'}


def cli_cases():
    return st.builds(lambda c, l, d, o: dict(c, long=l, defaults=d, order=o), cases(), st.booleans(), st.booleans(),
                     st.permutations(range(5)))


def run_main(argv):
    import contextlib
    import io
    from rsbeams.rsstats import kinematic
    out = io.StringIO()
    old = sys.argv
    sys.argv = ['kinematic'] + argv
    try:
        with contextlib.redirect_stdout(out):
            kinematic.main()
    finally:
        sys.argv = old
    return out.getvalue()


def command_line(case, scratch):
    from rsbeams.rsstats.kinematic import Converter
    kind, value, mass = arguments(case)
    kw = dict(input_unit=case['unit'], mass_unit=case['mass_unit'], output_unit=case['output_unit'])
    parts = [[FLAGS[kind][case['long']], repr(value)]]
    if mass is not None:
        kw['mass'] = mass
        parts.append(['--mass' if case['long'] else '-m', repr(mass)])
    for flag, key in (('--unit', 'input_unit'), ('--mass_unit', 'mass_unit'), ('--output_unit', 'output_unit')):
        if not (case['defaults'] and kw[key] == 'eV'):
            parts.append([flag, kw[key]])
    parts = [parts[i] for i in case['order'] if i < len(parts)]
    text = run_main([a for p in parts for a in p])
    out = Converter(**{kind: value}, **kw)(silent=True)
    seen = {}
    for line in text.splitlines():
        if ':' in line:
            key, _, rest = line.strip().partition(':')
            seen[key] = rest.strip()
    for key, n in LINES.items():
        number, _, unit = seen[key].partition(' ')
        check(abs(float(number) - out[n]) <= 1e-12 * abs(out[n]), '%s printed as %r, Python gives %r', key, number,
              out[n])
        want = dict(velocity='m/s', momentum=out['p_unit'], energy=out['e_unit'], kenergy=out['e_unit'],
                    brho='T*m').get(n, '')
        check(squeeze(unit) == squeeze(want), '%s printed in %r instead of %r', key, unit, want)
    number, _, unit = seen['For a particle with mass'].partition(' ')
    check(abs(float(number) - out['mass']) <= 1e-12 * out['mass'] and squeeze(unit) == squeeze(out['mass_unit']),
          'mass printed as %r', seen['For a particle with mass'])
    head = [l.strip() for l in text.splitlines() if l.strip().startswith('Based on')]
    check(len(head) == 1, 'printed text %r', text)
    words = head[0].split()
    at = words.index(kind)
    check(float(words[at + 2]) == value, 'printed input %r', head[0])
    verify({n: float(seen[k].split(' ')[0]) for k, n in LINES.items()}, case, kind, value, mass)


def constants(case, scratch):
    """Converting by hand, with the constants module"""
    from rsbeams.rsphysics import rsconst
    from rsbeams.rsstats.kinematic import Converter
    kind, value, mass = arguments(case)
    kw = {} if mass is None else dict(mass=mass)
    units = dict(input_unit=case['unit'], mass_unit=case['mass_unit'])
    out = [dict(Converter(**{kind: value}, output_unit=u, **units, **kw)(silent=True)) for u in ('eV', 'SI')]
    ev = out[0]
    kg = ev['mass'] if case['mass_unit'] == 'SI' else ev['mass'] / rsconst.KG_to_EV
    by_hand = dict(energy=kg * rsconst.c_SQ * ev['gamma'], momentum=ev['momentum'] * rsconst.e / rsconst.c,
                   kenergy=ev['kenergy'] * rsconst.e, velocity=ev['beta'] * rsconst.c)
    for n, v in by_hand.items():
        check(abs(v - out[1][n]) <= 1e-8 * abs(v), '%s %r in SI units, by hand %r', n, out[1][n], v)
    check(abs(ev['energy'] * rsconst.EV_to_ERG / (out[1]['energy'] * 1e7) - 1.) < 2e-4, 'energy in erg')
    brho = ev['momentum'] * rsconst.c_INV
    check(abs(ev['brho'] - brho) <= 1e-8 * brho, 'rigidity %r, by hand %r', ev['brho'], brho)
    # the same numbers under their other names
    exact = dict(c=rel.C, e=E, c_SQ=rel.C ** 2, c_INV=1. / rel.C, c_CGS=100 * rel.C, KG_to_EV=rel.C ** 2 / E,
                 C_to_STATC=10 * rel.C, e_CGS=E * 10 * rel.C, EV_to_ERG=E * 1e7)
    for n, v in exact.items():
        check(abs(getattr(rsconst, n) / v - 1.) < (2e-4 if n == 'EV_to_ERG' else 1e-8), 'constant %s is %r', n,
              getattr(rsconst, n))
    for n, kilos in (('m_e', 9.1093837e-31), ('m_p', 1.67262192e-27)):
        check(abs(getattr(rsconst, n) / kilos - 1.) < 1e-6, 'constant %s is %r', n, getattr(rsconst, n))
        check(abs(getattr(rsconst, n + '_EV') / (getattr(rsconst, n) / KG) - 1.) < 1e-7, 'mass %s in eV', n)
        check(abs(getattr(rsconst, n + '_CGS') / getattr(rsconst, n) / 1000. - 1.) < 1e-12, 'mass %s in g', n)
    if mass is None:
        want = rsconst.m_e if case['mass_unit'] == 'SI' else rsconst.m_e_EV
        check(abs(ev['mass'] / want - 1.) < 1e-7, 'electron mass %r, constant %r', ev['mass'], want)


def rest_cases():
    unit = st.sampled_from(['eV', 'SI'])
    return st.builds(lambda c, i, m, o: dict(c, unit=i, mass_unit=m, output_unit=o), kin.rest_cases(), unit, unit, unit)


def at_rest(case, scratch):
    from rsbeams.rsstats.kinematic import Converter
    kind = case['kind']
    if kind in ('gamma', 'energy'):
        return
    mass = case['mass'] * (KG if case['mass_unit'] == 'SI' else 1.)
    kw = dict(input_unit=case['unit'], mass_unit=case['mass_unit'], output_unit=case['output_unit'])
    out = Converter(**{kind: 0.}, mass=mass, **kw)(silent=True)
    energy = case['mass'] * (SI['energy'] if case['output_unit'] == 'SI' else 1.)
    for n in rel.KINDS:
        want = dict(gamma=1., energy=energy).get(n, 0.)
        check(abs(out[n] - want) <= UNIT * want, '%s of a particle at rest is %r', n, out[n])
    check(out['input'] == 0. and out['input_type'] == kind and out['mass'] == mass, 'input %r %r mass %r',
          out['input_type'], out['input'], out['mass'])
    labels(out, case, kind)
    argv = [FLAGS[kind][1], '0', '--mass', repr(mass)]
    for flag, key in (('--unit', 'input_unit'), ('--mass_unit', 'mass_unit'), ('--output_unit', 'output_unit')):
        argv += [flag, kw[key]]
    text = run_main(argv)
    check(re.search(r'(?m)^\s*gamma: 1(\.0*)?\s*$', text) and re.search(r'(?m)^\s*beta: 0(\.0*)?\s*$', text),
          'printed for a particle at rest: %r', text)


def refused_cases():
    values = dict(momentum=1e6, velocity=1e8, energy=1e6, kenergy=1e6, betagamma=2., brho=0.1, beta=0.5, gamma=2.)
    inputs = st.lists(st.sampled_from(rel.KINDS), min_size=0, max_size=8, unique=True)
    unit = st.sampled_from(['eV', 'SI', 'EV', 'si', 'J', '', 'ev', 'MeV', 'S', 'I', 'e'])
    return st.builds(lambda i, u, z: dict(inputs={k: 0. if z >> rel.KINDS.index(k) & 1 and k not in
                                                   ('gamma', 'energy') else values[k] for k in i}, units=u), inputs,
                     st.lists(unit, min_size=3, max_size=3), st.one_of(st.just(0), st.integers(0, 255)))


def refused(case, scratch):
    from rsbeams.rsstats.kinematic import Converter
    kw = dict(zip(('input_unit', 'mass_unit', 'output_unit'), case['units']))
    wrong = len(case['inputs']) != 1
    bad_unit = any(u not in ('eV', 'SI') for u in case['units'])
    if wrong:
        check(refuses(Converter, **case['inputs']), 'inputs %r are accepted', case['inputs'])
        argv = [a for k, v in case['inputs'].items() for a in (FLAGS[k][1], repr(v))]
        check(exits(argv), 'the command line accepts %r', argv)
    if bad_unit:
        check(refuses(Converter, gamma=2., **kw), 'units %r are accepted', kw)
        argv = ['-g', '2.', '--unit', case['units'][0], '--mass_unit', case['units'][1], '--output_unit',
                case['units'][2]]
        check(exits(argv), 'the command line accepts %r', argv)
    if not wrong and not bad_unit and any(case['inputs'].values()):
        Converter(**case['inputs'], **kw)(silent=True)


def exits(argv):
    try:
        run_main(argv)
    except SystemExit as e:
        return bool(e.code)
    except Exception:
        return True
    return False


def si(case):
    return 'SI' in (case['unit'], case['mass_unit'], case['output_unit'])


def wrong(case):
    return len(case['inputs']) != 1 or any(u not in ('eV', 'SI') for u in case['units'])


def label(case):
    return '%s %s/%s/%s' % (case['kind'], case['unit'], case['mass_unit'], case['output_unit'])


SUBS = [Sub('units', cases, converter, 2000, nontrivial=si, label=label),
        Sub('constants', cases, constants, 300, nontrivial=si, label=label),
        Sub('command-line', cli_cases, command_line, 600, nontrivial=si, label=lambda c: c['kind']),
        Sub('at-rest', rest_cases, at_rest, 200, nontrivial=si, label=label),
        Sub('refused', refused_cases, refused, 400, nontrivial=wrong, label=lambda c: "%d inputs" % len(c["inputs"]))]
