"""Reference kinematics in 40 digits and the accuracy a double computation can have."""
import mpmath

EPS = 2.**-52
C = 299792458
E = mpmath.mpf('1.602176634e-19')
KINDS = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'brho', 'beta', 'gamma']
mpmath.mp.dps = 40


def state(kind, value, mass):
    """beta*gamma of an input in eV units (mass in eV/c^2)."""
    v, m = mpmath.mpf(value), mpmath.mpf(mass)
    if kind == 'betagamma':
        return v
    if kind == 'momentum':
        return v / m
    if kind == 'brho':
        return v * C / m
    if kind in ('beta', 'velocity'):
        b = v if kind == 'beta' else v / C
        return b / mpmath.sqrt(1 - b * b)
    g = dict(gamma=v, energy=v / m, kenergy=v / m + 1)[kind]
    return mpmath.sqrt((g - 1) * (g + 1))


def quantities(bg, mass):
    """Everything in eV units."""
    m = mpmath.mpf(mass)
    g = mpmath.sqrt(1 + bg * bg)
    b = bg / g
    return dict(momentum=bg * m, velocity=b * C, energy=g * m, kenergy=bg * bg / (g + 1) * m, betagamma=bg,
                brho=bg * m / C, beta=b, gamma=g)


def tolerance(kind, bg, k=16., extra=0.):
    """Relative accuracy of each output for an input of this kind whose rounding is (1 + extra / EPS) units.

    A state is kept as (beta, gamma), both rounded, so slow particles lose digits of the kinetic energy and fast
    ones given by their velocity lose digits of gamma."""
    bg = float(bg)
    if bg == 0.:
        return dict.fromkeys(KINDS, 0.)
    g2 = 1. + bg * bg
    b2 = bg * bg / g2
    eps = EPS + extra
    gam, beta = eps, eps
    if kind in ('beta', 'velocity'):
        gam = eps * (1. + bg * bg)
    elif kind in ('gamma', 'energy', 'kenergy'):
        beta = eps * (1. + 1. / b2)
    kin = gam * (1. + g2 ** .5 * (g2 ** .5 + 1.) / (bg * bg))
    t = dict(beta=beta, velocity=beta, gamma=gam, energy=gam, betagamma=beta + gam, momentum=beta + gam,
             brho=beta + gam, kenergy=kin)
    return {n: k * v for n, v in t.items()}
