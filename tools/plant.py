"""Maintainer tool: (re)create the planted bugs of /verif/seeded from tools/plants.py.

For each plant: scratch copy of /repo, apply the substitution(s), check that only original lines change, that the
sources import, that the baseline tests pass and that the demo tells the two trees apart.  Nothing here is used by
the checks."""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plants import PLANTS

BASE = json.load(open('/opt/vp/BASELINE.json'))
SRC = 'databind/src/databind/'
DEMO = '''#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/databind/src"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def stable():
    for k in BASE:
        if isinstance(BASE[k], list):
            return set(BASE[k])
    return set(BASE)


def tests(tree):
    out = tempfile.mktemp(suffix='.xml', dir='/tmp/w')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=tree + '/databind/src', PYTHONHASHSEED='0')
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'src/', '-q', '-p', 'no:cacheprovider', '-x'],
                       cwd=tree + '/databind', env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-1500:]


def demo(d, tree):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=tree, capture_output=True, text=True, timeout=300)
    return r.returncode, r.stdout + r.stderr


def blame(tree):
    """Lines removed by the plant that are not the original repository's."""
    out, f = [], None
    for l in subprocess.run(['git', '-C', tree, 'diff', '-U0'], capture_output=True, text=True).stdout.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                b = subprocess.run(['git', '-C', tree, 'blame', '-l', '-L', f'{a},{a + n - 1}', 'HEAD', '--', f],
                                   capture_output=True, text=True).stdout
                out += [x for x in b.splitlines() if not x.lstrip('^').startswith('de249b9')]
    return out


def main(only):
    clean = '/tmp/w/seed/clean'
    shutil.rmtree(clean, ignore_errors=True)
    shutil.copytree('/repo', clean, symlinks=True)
    for p in PLANTS:
        if only and p['id'] not in only:
            continue
        tree = '/tmp/w/seed/t'
        shutil.rmtree(tree, ignore_errors=True)
        shutil.copytree('/repo', tree, symlinks=True)
        bad = None
        for path, old, new in p['edits']:
            f = os.path.join(tree, SRC, path)
            s = open(f).read()
            if s.count(old) != 1:
                bad = f'{path}: {s.count(old)} matches for {old!r}'
                break
            open(f, 'w').write(s.replace(old, new))
        if bad:
            print(p['id'], 'BAD EDIT', bad); continue
        diff = subprocess.run(['git', '-C', tree, 'diff'], capture_output=True, text=True).stdout
        ours = blame(tree)
        note = ' (touches fix lines: %s)' % ours if ours else ''
        d = os.path.join(V, 'seeded', p['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(p['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        ok, log = tests(tree)
        a, la = demo(d, clean)
        b, lb = demo(d, tree)
        if ok and a == 0 and b != 0 and not ours:
            print(p['id'], 'ok')
        else:
            print(p['id'], 'REJECTED tests=%s clean=%s planted=%s%s' % (ok, a, b, note))
            if not ok: print(log)
            if a: print(la[-800:])
            shutil.rmtree(d)
    shutil.rmtree('/tmp/w/seed', ignore_errors=True)


main(set(sys.argv[1:]))
