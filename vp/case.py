"""Running a (table, tree, split) case through compute_on and the reference."""
import math

from vp import dsl, obs, ref, table, tree
from vp.core import Skip, require, sut


def expected(m, rows, split):
  """Reference result; Skip where the documentation leaves things open."""
  if split and not rows:
    raise Skip('no slices')
  return tree.ev(m, rows, split)


def guard(m, rows, split):
  """Cases with an empty filtered table are outside the domain of slicing."""
  for n in tree.walk(m):
    if isinstance(n, dict) and n['t'] == 'Nth' and False:
      raise Skip('x')


def has(m, *types):
  return any(isinstance(n, dict) and n['t'] in types for n in tree.walk(m))


def broadcasts(m):
  for n in tree.walk(m):
    if isinstance(n, dict) and n['t'] == 'op':
      a, b = tree.extra_idx(n['a']), tree.extra_idx(n.get('b', -1))
      if a != b and not isinstance(n['a'], (int, float)) and not isinstance(
          n.get('b', -1), (int, float)):
        return True
  return False


def tol(m):
  return (1e-6, 1e-6) if has(m, 'StandardDeviation', 'CV', 'Correlation') or any(
      isinstance(n, dict) and n['t'] == 'op' and n['op'] == '**'
      for n in tree.walk(m)) else (1e-7, 1e-8)


def nontrivial(want, n):
  return n >= 2 and any(
      hasattr(v, 'members') or (not ref.isnull(v) and math.isfinite(v) and v)
      for r in want.rows.values() for v in r)


def labels(m, want, rows, split):
  out = ['split%d' % len(split), m['t']]
  kinds = sorted({n['t'] if n['t'] != 'op' else n['op']
                  for n in tree.walk(m) if isinstance(n, dict)})
  out += ['has:' + k for k in kinds if k != m['t']]
  if any(isinstance(n, dict) and n.get('w') for n in tree.walk(m)):
    out.append('filtered')
  if nontrivial(want, len(rows)):
    out.append('nontrivial')
  return out


def check(got_df, m, want, what='compute_on', **kw):
  rtol, atol = tol(m)
  kw.setdefault('rtol', rtol)
  kw.setdefault('atol', atol)
  obs.compare(got_df, want, what, missing_is_nan=True,
              any_level_order=broadcasts(m), **kw)


def run_tree(spec):
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  want = expected(m, rows, split)
  with sut('compute_on'):
    metric = dsl.build(m)
    df = table.to_df(spec['table'])
    got = metric.compute_on(df, list(split))
    check(got, m, want)
  return labels(m, want, rows, split)
