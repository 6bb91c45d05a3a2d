"""Builds and verifies the planted bugs described in tools/seeds/*.py.

  seed.py NAME...     (all if none given; -n: skip the repository's tests)
Each description defines PROPERTY, EDITS [(file, old, new)], DEMO, NEEDS, BREAKS.
"""
import glob, json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '-n']
skip = '-n' in sys.argv
names = args or sorted(os.path.basename(p)[:-3]
                       for p in glob.glob(HERE + '/tools/seeds/*.py'))
COPY = f'/tmp/s/seedrepo{os.getpid()}'


def sh(cmd, **k):
  return subprocess.run(cmd, capture_output=True, text=True, **k)


for name in names:
  d = runpy.run_path(f'{HERE}/tools/seeds/{name}.py')
  out = f'{HERE}/seeded/{name}'
  os.makedirs(out, exist_ok=True)
  if os.path.exists(COPY):
    shutil.rmtree(COPY)
  shutil.copytree('/repo', COPY, symlinks=True)
  with open(out + '/demo.py', 'w') as f:
    f.write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + d['DEMO'])
  with open(out + '/demo.sh', 'w') as f:
    f.write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1'
            f' XLA_FLAGS=--xla_force_host_platform_device_count='
            f'{d.get("DEVICES", 1)}\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  os.chmod(out + '/demo.sh', 0o755)
  with open(out + '/meta.json', 'w') as f:
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'],
               'what_it_breaks': d['BREAKS']}, f, indent=1)
  r0 = sh(['bash', out + '/demo.sh'], cwd=COPY)
  for file, old, new in d['EDITS']:
    p = f'{COPY}/swirl_fem/{file}'
    s = open(p).read()
    assert s.count(old) == 1, (name, file, s.count(old))
    open(p, 'w').write(s.replace(old, new))
  diff = sh(['git', 'diff'], cwd=COPY).stdout
  open(out + '/patch.diff', 'w').write(diff)
  # the changed lines must be the original repository's
  root = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=COPY).stdout.split()[0]
  own = []
  for file in {e[0] for e in d['EDITS']}:
    b = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f'swirl_fem/{file}'],
           cwd=COPY).stdout.splitlines()
    orig = {l.split(') ', 1)[1] for l in b if l.lstrip('^').startswith(root[:39])}
    for l in diff.splitlines():
      if l.startswith('-') and not l.startswith('---'):
        own.append(l[1:] in orig)
  r1 = sh(['bash', out + '/demo.sh'], cwd=COPY)
  tests = 'skipped'
  if not skip:
    sh(['rm', '-f', f'/tmp/s/seed{os.getpid()}.json'])
    env = open('/opt/vp/env.sh').read().replace('/repo', COPY)
    open(f'/tmp/s/env{os.getpid()}.sh', 'w').write(env)
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', f'/tmp/s/env{os.getpid()}.sh')
    open(f'/tmp/s/test{os.getpid()}.sh', 'w').write(t)
    sh(['bash', f'/tmp/s/test{os.getpid()}.sh', f'/tmp/s/seed{os.getpid()}.json'])
    res = json.load(open(f'/tmp/s/seed{os.getpid()}.json'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    tests = f"{len(stable - set(res['passed']))} stable tests fail"
  env = dict(os.environ, SWIRL_REPO=COPY)
  c = sh(['bash', HERE + '/check.sh', d['PROPERTY'], 'quick'], env=env)
  print(f"{name}: demo clean {r0.returncode} patched {r1.returncode}; "
        f"original lines {own}; {tests}; check {d['PROPERTY']} rc {c.returncode}")
  if r0.returncode or not r1.returncode:
    print(r0.stdout[-500:], r0.stderr[-1500:], '|||', r1.stdout[-500:], r1.stderr[-500:])
  print('   ', (c.stdout.splitlines() or [''])[0:2], c.stdout.splitlines()[-1:], c.stderr[-300:])
  shutil.rmtree(COPY)
