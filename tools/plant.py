#!/usr/bin/env python3
"""Plants bugs from a definition file and confirms them:  plant.py DEFS.py [ID ...]  |  plant.py --recheck [ID ...]

A definition file calls bug(id, property, [(file, old, new), ...], needs, breaks, demo).  For each bug the edit is made in
/repo, kept as seeded/<id>/patch.diff, and confirmed: it changes lines of the original repository, the stable tests pass,
demo.py exits 0 without and nonzero with it.  Then the quick check of the property is run and must report it.
--recheck runs only the checks against the kept bugs.  /repo is restored after each one."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = '934825a'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


def run(cmd, timeout=900, **kw):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def git(*a):
    rc, out = run(['git', '-C', REPO] + list(a))
    return out


def clean():
    return git('status', '--short').strip() == ''


def original_lines():
    """True if each removed or changed line comes from the original repository"""
    path, ok, seen = None, True, False
    for line in git('diff', '-U0').splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            if n:
                seen = True
                for b in git('blame', '-l', '-L%d,%d' % (start, start + n - 1), 'HEAD', '--', path).splitlines():
                    commit = b.split()[0].lstrip('^')
                    rc, _ = run(['git', '-C', REPO, 'merge-base', '--is-ancestor', commit, BASE])
                    if rc != 0:
                        print('   line of a fix commit:', b)
                        ok = False
    return ok and seen


def tests():
    out = '/tmp/plant_tests.json'
    run(['bash', '/opt/vp/test.sh', out])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(json.load(open(out))['passed'])
    return sorted(stable - passed)


def check(prop):
    env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    t = time.time()
    rc, out = run(['python3', 'check.py', prop, 'quick'], cwd=ROOT, env=env)
    hit = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
    return rc, bool(hit) and rc == 1, time.time() - t, out


def plant(b):
    d = os.path.join(ROOT, 'seeded', b['id'])
    assert clean(), 'repo is not clean'
    try:
        for path, old, new in b['edits']:
            p = os.path.join(REPO, path)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d matches of %r' % (path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(git('diff'))
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exits 0 if the property holds, 1 if it is broken\n'
                                        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        orig = original_lines()
        lost = tests()
        rc1, o1 = run(['bash', d + '/demo.sh'], cwd=REPO, timeout=300)
        _, caught, t, out = check(b['prop'])
        crc = _
    finally:
        git('checkout', '--', '.')
    rc0, o0 = run(['bash', d + '/demo.sh'], cwd=REPO, timeout=300)
    ok = orig and not lost and rc0 == 0 and rc1 not in (0, 'timeout')
    if not ok:
        shutil.rmtree(d)
    print('%s %s: %s; original=%s lost=%s demo=%s/%s; check %s (rc %s, %.0f s)' % (
        b['id'], b['prop'], 'OK' if ok else 'BAD', orig, lost[:3], rc0, rc1, 'CAUGHT' if caught else 'MISSED', crc, t), flush=True)
    if rc0 != 0:
        print(o0[-1500:])
    if rc1 == 0 or 'Assertion' not in o1:
        print('   demo with patch:', o1[-600:])
    if not caught:
        print(out[-800:])
    return ok, caught


def recheck(ids):
    for i in sorted(os.listdir(ROOT + '/seeded')):
        if ids and i not in ids:
            continue
        prop = json.load(open(ROOT + '/seeded/%s/meta.json' % i))['property']
        assert clean()
        rc, out = run(['git', '-C', REPO, 'apply', ROOT + '/seeded/%s/patch.diff' % i])
        assert rc == 0, out
        try:
            rc, caught, t, out = check(prop)
        finally:
            git('checkout', '--', '.')
        print(i, prop, 'CAUGHT' if caught else 'MISSED rc=%s' % rc, '%.0f s' % t, flush=True)


if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        recheck(sys.argv[2:])
    else:
        exec(open(sys.argv[1]).read())
        for b in BUGS:
            if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
                try:
                    plant(b)
                except AssertionError as e:
                    print(b['id'], 'ERROR', e)
