"""Helper: mk(id, property, file, old, new, needs, breaks, demo) writes seeded/<id>."""
import json, os, subprocess, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/pl/work/meterstick'
PRE = '''import atexit, os, sys, tempfile, warnings
warnings.simplefilter('ignore')
_d = tempfile.mkdtemp()
_l = os.path.join(_d, 'meterstick')
os.symlink(os.getcwd(), _l)
atexit.register(lambda: (os.unlink(_l), os.rmdir(_d)))
sys.dont_write_bytecode = True
sys.path.insert(0, _d)
import numpy as np, pandas as pd
from meterstick import *
from meterstick import metrics, operations, models, diversity, utils, sql

'''

SQL = '''sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bq


def run(m, data, split=None, mode=None, **kw):
  """Computes m through SQL on a table held in Python."""
  e = bq.from_spec({'n': len(next(iter(data.values()))), 'cols': data}, 'T')
  return m.compute_on_sql('T', split, bq.execute(e), mode=mode, **kw)


def near(a, b, tol=1e-6):
  a, b = np.asarray(a, float), np.asarray(b, float)
  print(a.tolist(), b.tolist())
  return a.shape == b.shape and np.allclose(a, b, tol, tol, equal_nan=True)


'''


def mk(sid, prop, edits, needs, breaks, demo):
  subprocess.check_call(['git', '-C', W, 'fetch', '-q'])
  subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD'])
  for f, old, new in edits:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (sid, f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
  d = os.path.join(V, 'seeded', sid)
  os.makedirs(d, exist_ok=True)
  diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
  base = ''.join(subprocess.check_output(
      ['git', '-C', W, 'show', 'fef921c:' + f]).decode() for f, _, _ in edits)
  lost = [l[1:] for l in diff.splitlines()
          if l.startswith('-') and not l.startswith('---')]
  new = [l for l in lost if l.strip() and l + '\n' not in base]
  if new:
    print(sid, 'NOT IN THE ORIGINAL:', new)
  open(d + '/patch.diff', 'w').write(diff)
  demo = textwrap.dedent(demo)
  if 'run(' in demo or 'near(' in demo:
    demo = SQL + demo.strip()
    open(d + '/bq.py', 'w').write(open(V + '/vp/bq.py').read())
  open(d + '/demo.py', 'w').write(PRE + textwrap.dedent(demo).strip() + '\n')
  open(d + '/demo.sh', 'w').write(
      '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python '
      '"$(dirname "$0")/demo.py"\n')
  json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
            open(d + '/meta.json', 'w'), indent=1)
  subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
