"""Maintainer tool: run the checks against every planted bug in scratch copies; print which check catches which.
Usage: catch.py [--all] [--tier T] [ids...]   (--all: run every property's check, not only the bug's own;
--proof: the contracts alone, and print the failed obligations)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
everything, proof = '--all' in args, '--proof' in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
PIDS = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]


def one(i):
    meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
    tree, ver = f'/tmp/w/catch/{i}', f'/tmp/w/catch/{i}.v'
    for d in (tree, ver):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', tree, symlinks=True)
    shutil.copytree(V, ver, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    subprocess.check_call(['git', '-C', tree, 'apply', f'{V}/seeded/{i}/patch.diff'])
    out = []
    for pid in (PIDS if everything else [meta['property']]):
        r = subprocess.run([sys.executable, ver + '/check.py', pid] + ['--no-battery'] * proof, cwd=ver, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1', VERIF_TIER='quick'))
        lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if proof:
            out.append(f"{pid}:{r.returncode} " + '; '.join(l.strip()[19:] for l in r.stdout.splitlines() if 'failed obligation' in l) +
                       (r.stdout.strip()[-150:] if not r.returncode else '') + (r.stderr[-300:] if r.returncode > 1 else ''))
        elif r.returncode != 0:
            ev = {}
            try: ev = json.load(open(f'{ver}/evidence/{pid}.json'))
            except Exception: pass
            ref = [x.get('name') for x in ev.get('detail', {}).get('refuted', [])] if isinstance(ev.get('detail'), dict) else []
            out.append(f"{pid}:{r.returncode}{'*' if any('no-failing' in l for l in lines) else ''}{ref or ''}" + ('' if r.returncode == 1 else r.stderr[-300:]))
    for d in (tree, ver):
        shutil.rmtree(d, ignore_errors=True)
    return i, meta['property'], out


with ThreadPoolExecutor(4) as ex:
    for i, p, out in ex.map(one, ids):
        print(('ok    ' if any(o.startswith(p + ':1') for o in out) else 'MISSED'), i, p, ' '.join(out), flush=True)
shutil.rmtree('/tmp/w/catch', ignore_errors=True)
