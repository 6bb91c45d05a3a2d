"""Runs the harnesses of one property and writes its evidence."""
import importlib
import json
import multiprocessing as mp
import os
import queue as queuelib
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _worker(cid, tier, seed, counter, results, only):
  os.environ['VERIF_WORKER'] = '1'
  warnings.simplefilter('ignore')
  mod = None
  try:
    from vlib import boot
    boot.setup_env(boot.DEVICES.get(cid, 1))
    mod = importlib.import_module(f'checks.{cid.lower()}')
    hs = mod.harnesses(tier)
    if only:
      hs = [x for x in hs if only in x[0]]
  except Exception:                    # pylint: disable=broad-except
    results.put(('fatal', cid, traceback.format_exc(), None))
    return
  from vlib import sym
  results.put(('count', len(hs), None, None))
  while True:
    with counter.get_lock():
      i = counter.value
      counter.value += 1
    if i >= len(hs):
      break
    name, fn = hs[i][0], hs[i][1]
    kw = hs[i][2] if len(hs[i]) > 2 else {}
    t = time.time()
    status, info = run_one(cid, name, fn, kw, tier, seed)
    results.put((status, name, info, time.time() - t))
  results.put(('stats', None, sym.STATS.as_dict(), None))


def run_one(cid, name, fn, kw, tier, seed):
  """Runs one harness: the solver first, then the concrete validation runs."""
  from vlib import harness as hh
  from vlib import query, sym
  h = hh.H(name, tier, seed)
  sym.STATS.harnesses += 1
  known = getattr(sys.modules.get(f'checks.{cid.lower()}'), 'KNOWN', {})
  try:
    fn(h, **kw)
  except hh.Violation as v:
    return 'violation', {'detail': v.detail, 'inputs': v.inputs}
  except (sym.Unsupported, query.Inconclusive) as e:
    r = _smoke(h)
    if r:
      return r
    return 'inconclusive', f'{type(e).__name__}: {e}\n' + traceback.format_exc()
  except hh.Unreproduced as e:
    r = _smoke(h)
    if r:
      return r
    return 'error', f'counterexample does not reproduce: {e}'
  except Exception as e:               # pylint: disable=broad-except
    tb = traceback.format_exc()
    r = _smoke(h, crash=tb)
    if r:
      return r
    return 'error', tb
  r = _smoke(h)
  if r:
    return r
  return 'ok', None


def _smoke(h, crash=None):
  """Concrete runs of the real code against the oracle."""
  from vlib import sym
  for s, times in h.smokes:
    for _ in range(times):
      try:
        r = s()
      except sym.Unsupported as e:     # a stand-in does not fit the code
        print(f'ERROR {h.name}: {e}', file=sys.stderr)
        break
      except Exception as e:           # pylint: disable=broad-except
        return 'violation', {
            'detail': f'{h.name}: the real code raises '
                      f'{type(e).__name__}: {e}',
            'inputs': traceback.format_exc().splitlines()[-8:]}
      sym.STATS.validated += 1
      d, env = r if isinstance(r, tuple) else (r, None)
      if d is not None:
        from vlib.harness import jsonable
        return 'violation', {'detail': f'{h.name}: {d}',
                             'inputs': jsonable(env)}
  return None


def load_known(cid):
  """Listed findings: lines `finding: property=ID key=... text`."""
  path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('finding:') and f'property={cid} ' in line:
        key = line.split('key=', 1)[1].split()[0]
        out.append((key, line.split('key=', 1)[1][len(key):].strip()))
  return out


def main(cid, tier, only=None):
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  sys.path.insert(0, HERE)
  from vlib import boot
  boot.setup_env(boot.DEVICES.get(cid, 1))
  ctx = mp.get_context('fork')
  counter = ctx.Value('i', 0)
  results = ctx.Queue()
  nproc = int(os.environ.get('VERIF_JOBS', '8'))
  nproc = min(nproc, boot.WORKERS.get(cid, 8))
  procs = [ctx.Process(target=_worker,
                       args=(cid, tier, seed, counter, results, only))
           for _ in range(nproc)]
  for p in procs:
    p.start()
  from vlib.sym import Stats
  stats = Stats()
  budget = float(os.environ.get('VERIF_BUDGET',
                                '800' if tier == 'quick' else '14000'))
  total = None
  rows, violations, errors, inconclusive = [], [], [], []
  live = nproc
  while live:
    left = budget - (time.time() - t0)
    if violations:
      # enough is known; do not wait for runs that may not end
      left = min(left, first + 90 - time.time())
    try:
      status, a, b, dt = results.get(timeout=max(0.1, min(left, 5)))
    except queuelib.Empty:
      if left <= 0:
        if not violations:
          errors.append(('budget', 'time budget exhausted'))
        break
      if not any(p.is_alive() for p in procs):
        errors.append(('worker', 'a worker ended without a result'))
        break
      continue
    if status == 'count':
      total = a
    elif status == 'stats':
      stats.merge(b)
      live -= 1
    elif status == 'fatal':
      errors.append((a, b))
      live -= 1
    else:
      rows.append((a, status, dt))
      if status == 'violation':
        first = time.time() if not violations else first
        violations.append((a, b))
      elif status == 'error':
        errors.append((a, b))
      elif status == 'inconclusive':
        inconclusive.append((a, b))
  for p in procs:
    if p.is_alive():
      p.terminate()
    p.join(5)
  wall = time.time() - t0

  known = load_known(cid)
  reported, suppressed = [], []
  for name, info in violations:
    hit = None
    for key, text in known:
      if name == key or name.startswith(key + ':'):
        hit = (key, text)
    (suppressed if hit else reported).append((name, info, hit))

  rep_dir = os.path.join(HERE, 'evidence', 'replays')
  os.makedirs(rep_dir, exist_ok=True)
  lines = []
  for key, text in known:
    lines.append(f'KNOWN-FINDING: property={cid} {text}')
  vio = []
  for k, (name, info, _) in enumerate(reported):
    path = os.path.join(rep_dir, f'{cid}-{k}.json')
    with open(path, 'w') as f:
      json.dump({'property': cid, 'harness': name, 'detail': info['detail'],
                 'inputs': info['inputs'], 'tier': tier,
                 'rerun': f'bash /verif/check.sh {cid} {tier} "{name}"'}, f,
                indent=1)
    vio.append({'replay': path, 'what': info['detail'][:2000]})
    lines.append(f'VIOLATION property={cid} replay={path}')
    lines.append('  ' + info['detail'][:1500])
  decided = sum(1 for _, s, _ in rows if s in ('ok', 'violation'))
  cov = {
      'states': max(stats.paths, stats.harnesses),
      'transitions': stats.prims + stats.branches + stats.obligations,
      'traces_validated_against_impl': stats.validated,
      'samples': stats.samples or [{'harness': r[0]} for r in rows[:5]],
      'harnesses': len(rows),
      'harnesses_decided': decided,
      'inconclusive': [f'{n}: {b.splitlines()[0]}' for n, b in inconclusive],
      'undecided_harnesses': [f'{n}: {(b.strip() or "-").splitlines()[-1][:300]}'
                              for n, b in errors],
      'functions_encoded': sorted(stats.functions),
      'primitives_encoded': sorted(stats.prim_names),
      'symbolic_primitive_applications': stats.prims,
      'component_obligations': stats.obligations,
      'meaning': 'states: host-code paths or harnesses; transitions: primitive '
                 'applications executed symbolically, decided branches and '
                 'component obligations; traces: concrete runs of the real '
                 'code compared with the oracle',
      'host_paths': stats.paths,
      'branches': stats.branches,
      'bounds': stats.bounds,
      'queries': stats.queries,
      'queries_unsat': stats.unsat,
      'queries_sat': stats.sat,
      'queries_unknown': stats.unknown,
      'reachability_witnesses': stats.witnesses,
      'solver_s': round(stats.solver_s, 3),
  }
  ev = {
      'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
      'coverage': cov, 'wall_s': round(wall, 2),
      'assumptions': stats.assumptions, 'violations': vio,
  }
  if not only:
    with open(os.path.join(HERE, 'evidence', f'{cid}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for l in lines:
    print(l)
  for n, b in inconclusive:
    print(f'INCONCLUSIVE {cid} {n}: {b[:1500] if only else b.splitlines()[0]}')
  for n, b in errors:
    print(f'ERROR {cid} {n}: {b[-3000:]}')
  if os.environ.get('VERIF_TIMES'):
    for r in sorted(rows, key=lambda r: -(r[2] or 0))[:15]:
      print(f'  {r[2]:7.2f}s {r[1]:10s} {r[0]}')
  print(f'{cid} {tier}: {len(rows)} harnesses, {decided} decided, '
        f'{stats.queries} queries ({stats.unsat} unsat, {stats.sat} sat), '
        f'solver {stats.solver_s:.1f}s, validated {stats.validated}, '
        f'wall {wall:.1f}s')
  if reported:
    return 1
  fatal = any(n in ('budget', 'worker', cid) for n, _ in errors)
  if fatal or not rows or decided * 2 <= len(rows):
    return 2
  return 0


if __name__ == '__main__':
  sys.path.insert(0, HERE)
  sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick',
                sys.argv[3] if len(sys.argv) > 3 else None))
