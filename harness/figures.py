"""Figures drawn without a screen, and the text of symbols."""
import contextlib
import re

GREEK = dict(a='alpha', b='beta', g='gamma', d='delta', e='varepsilon', z='zeta', c='eta', G='Gamma', D='Delta',
             Q='Theta', q='theta', i='iota', k='kappa', l='lambda', m='mu', n='nu', x='xi', L='Lambda', X='Xi', P='Pi',
             p='pi', r='rho', s='sigma', t='tau', S='Sigma', U='Upsilon', F='Phi', u='upsilon', f='phi', v='chi',
             y='psi', w='omega', Y='Psi', W='Omega')


def symbol(text, matplotlib=True):
    """What a symbol in the notation of SDDS looks like in mathtext."""
    want, letters, i = '', {}, 0
    while i < len(text):
        if text[i] == '$':
            c = text[i + 1]
            i += 2
            if c in 'abn':
                want += dict(a='^{', b='_{', n='}')[c]
            else:
                letters = dict(g={k: '\\' + v + ' ' for k, v in GREEK.items()}, s={'a': '\\pm '}, r={}, e={})[c]
            continue
        want += letters.get(text[i], text[i])
        i += 1
    return '$' + want + '$' if matplotlib else want


def tokens(text):
    """Characters and symbols of mathtext (a space only ends the name of a symbol)."""
    return [t.rstrip() if t.startswith('\\') else t for t in re.findall(r'\\[A-Za-z]+ ?|.', text, re.S)]


@contextlib.contextmanager
def figures():
    """Nothing is shown, and all figures are closed in the end."""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    plt.close('all')
    shown = []
    old = plt.show
    plt.show = lambda *args, **kwargs: shown.append(1)
    try:
        yield plt
    finally:
        plt.show = old
        plt.close('all')
