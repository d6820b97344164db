"""Maintainer tool: rewrite the planted bugs' patches against /repo's HEAD after a commit there (context lines only)."""
import os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sorted(os.listdir(V + '/seeded')):
    p = f'{V}/seeded/{i}/patch.diff'
    if subprocess.run(['git', '-C', '/repo', 'apply', '--check', p], capture_output=True).returncode == 0:
        continue
    t = '/tmp/w/rebase'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True)
    r = subprocess.run(['patch', '-p1', '-s', '--no-backup-if-mismatch', '-i', p], cwd=t, capture_output=True, text=True)
    if r.returncode:
        print('FAILED', i, r.stdout)
        continue
    d = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
    open(p, 'w').write(d)
    print('rebased', i)
shutil.rmtree('/tmp/w/rebase', ignore_errors=True)
