"""Turning meterstick output into plain comparable data."""
import numpy as np
import pandas as pd

from vp.core import Violation, close, isnull, require
from vp.ref import is_any


def plain(v):
  if isinstance(v, np.generic):
    return v.item()
  return v


def observe(df):
  """DataFrame -> (index names, column labels, {key: [values]})."""
  require(isinstance(df, pd.DataFrame), 'result is %s, not a DataFrame',
          type(df).__name__)
  cols = [tuple(c) if isinstance(c, tuple) else c for c in df.columns]
  names = list(df.index.names)
  if names == [None] and len(df.index) == 1:
    return [], cols, {(): [plain(v) for v in df.iloc[0].tolist()]}
  rows = {}
  for key, vals in zip(df.index.tolist(), df.values.tolist()):
    key = key if isinstance(key, tuple) else (key,)
    key = tuple(plain(k) for k in key)
    require(key not in rows, 'duplicate index key %s in result', key)
    rows[key] = [plain(v) for v in vals]
  return names, cols, rows


def reorder(got, idx):
  """Permutes the index levels of an observed result."""
  names, cols, rows = got
  if names != list(idx) and sorted(map(str, names)) == sorted(map(str, idx)):
    p = [names.index(c) for c in idx]
    rows = {tuple(k[i] for i in p): v for k, v in rows.items()}
    names = list(idx)
  return names, cols, rows


def compare(got, want, what='', rtol=1e-7, atol=1e-8, order=False, cols=True,
            missing_is_nan=False, any_level_order=False):
  """got: observe() triple or DataFrame; want: ref.Res. Raises Violation."""
  if isinstance(got, pd.DataFrame):
    got = observe(got)
  if any_level_order:
    got = reorder(got, want.idx)
  names, gcols, rows = got
  if want.idx != names:
    if not (not want.idx and names == [None]):
      raise Violation('%s: index levels %s, expected %s' % (what, names,
                                                            want.idx))
  if cols and gcols != want.cols:
    raise Violation('%s: columns %s, expected %s' % (what, gcols, want.cols))
  require(len(gcols) == len(want.cols), '%s: %d columns, expected %d', what,
          len(gcols), len(want.cols))
  wrows = want.rows
  if missing_is_nan:
    wrows = {k: v for k, v in wrows.items() if k in rows or any(
        not isnull(x) for x in v)}
    rows = {k: v for k, v in rows.items() if k in wrows or any(
        not isnull(x) for x in v)}
  if set(rows) != set(wrows):
    raise Violation('%s: rows %s unexpected, %s missing' % (
        what, sorted(set(rows) - set(wrows), key=str)[:5],
        sorted(set(wrows) - set(rows), key=str)[:5]))
  ties = {}
  for k, v in wrows.items():
    for j, (c, a, b) in enumerate(zip(want.cols, rows[k], v)):
      if hasattr(b, 'members'):
        ties.setdefault((j, b.key), (b, []))[1].append(a)
        continue
      if hasattr(b, 'lo'):
        require(not isnull(a) and b.lo <= a <= b.hi,
                '%s: at %s, %s is %r, not within [%r, %r]', what, k, c, a, b.lo,
                b.hi)
      if not is_any(b) and not close(a, b, rtol, atol):
        raise Violation('%s: at %s, %s is %r, expected %r' % (what, k, c, a, b))
  for b, seen in ties.values():
    for x, y in zip(sorted(seen), sorted(b.members())):
      if not close(x, y, rtol, atol):
        raise Violation('%s: tied values give %s, expected %s in any order' % (
            what, sorted(seen), sorted(b.members())))
  if order and list(rows) != list(wrows):
    raise Violation('%s: row order %s, expected %s' % (what, list(rows),
                                                       list(wrows)))
