"""Runs checks against a mutated scratch copy of the package.

  mutate.py [-t] FILE OLD NEW CXX...    (-t: also run the repository's tests)
FILE is relative to swirl_fem; OLD must occur exactly once.
"""
import os, shutil, subprocess, sys, tempfile
args = sys.argv[1:]
tests = args[0] == '-t'
if tests:
  args = args[1:]
f, old, new, *checks = args
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='mut')
try:
  shutil.copytree('/repo/swirl_fem', d + '/swirl_fem')
  p = f'{d}/swirl_fem/{f}'
  s = open(p).read()
  assert s.count(old) == 1, f'{s.count(old)} occurrences'
  open(p, 'w').write(s.replace(old, new))
  for c in checks:
    c, *sub = c.split(':')
    r = subprocess.run(['bash', f'{here}/check.sh', c, 'quick', *sub],
                       env=dict(os.environ, SWIRL_REPO=d), capture_output=True,
                       text=True)
    print(c, 'rc', r.returncode, (r.stdout or r.stderr)[-900:])
  if tests:
    t = p[:-3] + '_test.py'
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', t],
                       cwd=d, capture_output=True, text=True)
    print('tests rc', r.returncode, r.stdout[-300:])
finally:
  shutil.rmtree(d)
