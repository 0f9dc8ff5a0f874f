"""Runs the suites of one property over 8 worker processes."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/tmp/vp_hypothesis")
sys.path.insert(0, os.path.join(ROOT, 'vendor'))
SHARDS = 8


def setup_repo():
  """Makes `import meterstick` resolve to /repo's working tree."""
  repo = os.environ.get('VP_REPO', '/repo')
  import tempfile, atexit, shutil
  d = tempfile.mkdtemp(prefix='vp_pkg_')
  os.symlink(repo, os.path.join(d, 'meterstick'))
  sys.path.insert(0, d)
  pid = os.getpid()
  atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, True))
  return d


def canon(spec):
  return json.dumps(spec, sort_keys=True, default=str)


def load(pid):
  return importlib.import_module('vp.props.%s' % pid.lower())


def known_findings(pid):
  path = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == pid]


def run_suite(suite, n, seed, budget_s, stats):
  """Returns None or (spec, message)."""
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  from vp.core import Skip, Violation
  state = {'fail': None, 'error': None, 'start': time.time(), 'shrink_t0': None}

  def one(spec):
    try:
      labels = list(suite.run(spec) or ())
    except Skip as e:
      if state['fail'] is None:
        stats['labels']['%s:skip:%s' % (suite.name, e)] += 1
      return
    except Violation as e:
      if state['fail'] is None:
        state['shrink_t0'] = time.time()
        stats['evals'] += 1
      state['fail'] = (spec, str(e))
      raise
    if state['fail'] is not None:
      return
    stats['evals'] += 1
    for lab in labels:
      stats['labels']['%s:%s' % (suite.name, lab)] += 1
    if 'nontrivial' in labels:
      h = hashlib.sha1((suite.name + canon(spec)).encode()).hexdigest()[:16]
      stats['hashes'].add(h)
      if len(stats['samples']) < 4 and len(canon(spec)) < 3000:
        stats['samples'].append({'suite': suite.name, 'case': spec,
                                 'labels': labels})

  for spec in suite.fixed:
    try:
      one(spec)
    except Violation:
      return state['fail']

  if n <= 0:
    return None

  @hypothesis.seed(seed)
  @settings(max_examples=n, deadline=None, database=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
            print_blob=False)
  @given(suite.strategy())
  def test(spec):
    now = time.time()
    if state['fail'] is None and now - state['start'] > budget_s:
      stats['labels']['%s:not_run_time_budget' % suite.name] += 1
      return
    if state['shrink_t0'] and now - state['shrink_t0'] > 60:
      # Stop shrinking: everything but the best failure so far "passes".
      if canon(spec) != canon(state['fail'][0]):
        return
    one(spec)

  try:
    test()
  except Violation:
    pass
  except Exception as e:  # pylint: disable=broad-except
    if state['fail'] is None:
      raise
    stats['labels']['flaky:%s' % type(e).__name__] += 1
  return state['fail']


def worker(pid, shard, tier, seed, q, only):
  stats = {'evals': 0, 'labels': collections.Counter(), 'hashes': set(),
           'samples': []}
  out = {'shard': shard, 'fail': None, 'error': None}
  real_stdout = os.dup(1)
  try:
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VP_STDERR'):
      os.dup2(devnull, 2)
    import warnings
    warnings.simplefilter('ignore')
    mod = load(pid)
    for k, suite in enumerate(mod.SUITES):
      if only and suite.name != only:
        continue
      n = suite.quick if tier == 'quick' else suite.thorough
      scale = float(os.environ.get('VP_SCALE', '1'))
      n = max(1, int(n * scale / SHARDS + 0.5)) if n else 0
      budget = (240 if tier == 'quick' else 6000) / len(mod.SUITES) * 2
      if shard:
        suite.fixed = []
      t0 = time.time()
      fail = run_suite(suite, n, seed * 1000003 + shard * 101 + k, budget,
                       stats)
      stats['labels']['time:%s' % suite.name] += int(time.time() - t0)
      if fail:
        out['fail'] = {'suite': suite.name, 'spec': fail[0], 'message': fail[1]}
        break
  except BaseException as e:  # pylint: disable=broad-except
    e.__notes__ = [str(n)[:1500] for n in getattr(e, '__notes__', [])]
    out['error'] = traceback.format_exc()
  stats['labels'] = dict(stats['labels'])
  out['stats'] = stats
  q.put(out)
  q.close()
  q.join_thread()
  os._exit(0)


def run_one(mod, suite_name, spec):
  """Runs a single case; returns None or the violation message."""
  from vp.core import Skip, Violation
  suite = [s for s in mod.SUITES if s.name == suite_name][0]
  try:
    suite.run(spec)
  except Violation as e:
    return str(e)
  except Skip:
    return None
  return None


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--replay')
  ap.add_argument('--suite')
  args = ap.parse_args()
  pid = args.property
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  setup_repo()
  t0 = time.time()
  import warnings
  warnings.simplefilter('ignore')
  mod = load(pid)  # imports the code under test: an import error is an error

  if args.replay:
    with open(args.replay) as f:
      rec = json.load(f)
    msg = run_one(mod, rec['suite'], rec['spec'])
    if msg:
      print(msg)
      print('VIOLATION property=%s replay=%s' % (pid, args.replay))
      return 1
    print('no violation')
    return 0

  known = known_findings(pid)
  for k in known:
    msg = run_one(mod, k['suite'], k['spec'])
    if msg:
      print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

  ctx = mp.get_context('fork')
  q = ctx.Queue()
  procs = [ctx.Process(target=worker, args=(pid, s, tier, seed, q, args.suite))
           for s in range(SHARDS)]
  for p in procs:
    p.start()
  limit = 780 if tier == 'quick' else 6 * 3600
  outs = []
  import queue
  fail_deadline = None
  while len(outs) < SHARDS:
    try:
      outs.append(q.get(timeout=2))
      if outs[-1]['fail'] and fail_deadline is None:
        fail_deadline = time.time() + 20
    except queue.Empty:
      pass
    if fail_deadline and time.time() > fail_deadline:
      break
    if time.time() - t0 > limit:
      break
    if not any(p.is_alive() for p in procs) and q.empty():
      time.sleep(0.5)
      if q.empty():
        break
  incomplete = SHARDS - len(outs)
  for p in procs:
    if p.is_alive():
      p.kill()
  for p in procs:
    p.join(5)

  outs.sort(key=lambda o: o['shard'])
  labels = collections.Counter()
  hashes = set()
  samples = []
  evals = 0
  for o in outs:
    evals += o['stats']['evals']
    labels.update(o['stats']['labels'])
    hashes |= o['stats']['hashes']
    if len(samples) < 8:
      samples += o['stats']['samples'][:2]
  fails = [o['fail'] for o in outs if o['fail']]
  errors = [o['error'] for o in outs if o['error']]

  evidence = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': evals, 'distinct_nontrivial': len(hashes),
          'rule': mod.RULE, 'samples': samples,
          'classes': dict(sorted(labels.items())),
          'exhaustive': False,
          'known_findings_checked': len(known),
      },
      'assumptions': getattr(mod, 'ASSUMPTIONS', []),
      'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
  }
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1, default=str)

  if fails:
    fails.sort(key=lambda x: len(canon(x['spec'])))
    f0 = fails[0]
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', '%s-%s.json' % (
        pid, hashlib.sha1(canon(f0).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
      json.dump(f0, f, indent=1, default=str)
    print('suite %s: %s' % (f0['suite'], f0['message']))
    print('case: %s' % canon(f0['spec'])[:4000])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  if errors:
    print('HARNESS ERROR in %d shard(s):\n%s' % (len(errors), errors[0]))
    return 3
  if incomplete:
    print('HARNESS ERROR: %d shard(s) gave no answer' % incomplete)
    return 3
  print('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
      pid, evals, len(hashes), time.time() - t0))
  if os.environ.get('VP_LABELS'):
    for k, v in sorted(labels.items()):
      print('   %-60s %d' % (k, v))
  return 0


if __name__ == '__main__':
  rc = main()
  sys.stdout.flush()
  sys.exit(rc)
