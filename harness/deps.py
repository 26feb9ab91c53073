"""Puts Hypothesis (from the sandbox's offline wheelhouse) on the path of the interpreter that has
radiasoft/rsbeams installed.  The wheels are unpacked once into /verif/.deps (ignored by git)."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, '.deps')
WHEELS = '/opt/veriftools/wheels'


def ensure():
    if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        tmp = tempfile.mkdtemp(prefix='.deps-', dir=ROOT)
        try:
            tag = 'cp%d%d' % sys.version_info[:2]
            for pattern in ('hypothesis-*-%s*.whl' % tag, 'sortedcontainers-*.whl'):
                found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
                if not found and pattern.startswith('hypothesis'):
                    found = sorted(glob.glob(os.path.join(WHEELS, 'hypothesis-*.whl')))
                if not found:
                    raise RuntimeError('no wheel %s in %s' % (pattern, WHEELS))
                with zipfile.ZipFile(found[-1]) as z:
                    z.extractall(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:
                if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
                    raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


if __name__ == '__main__':
    ensure()
    import hypothesis
    print('hypothesis', hypothesis.__version__)
