"""Table specs -> DataFrames / row lists."""
import numpy as np
import pandas as pd


def to_df(t, cols=None):
  data = {}
  n = t['n']
  for name, vals in t['cols'].items():
    if cols and name not in cols:
      continue
    data[name] = series(vals)
  df = pd.DataFrame(data)
  for c in t.get('cat', []):
    cats = sorted(set(df[c])) + ([t['cat_extra']] if 'cat_extra' in t else [])
    df[c] = pd.Categorical(df[c], categories=cats)
  kind = t.get('index', 'range')
  if kind == 'dup':
    df.index = [0] * n
  elif kind == 'rev':
    df.index = list(range(n))[::-1]
  elif kind == 'str':
    df.index = ['r%d' % (i % 5) for i in range(n)]
  return df


def series(vals):
  if any(v is None for v in vals):
    if all(v is None or isinstance(v, (int, float)) for v in vals):
      return pd.Series([np.nan if v is None else float(v) for v in vals],
                       dtype=float)
    return pd.Series(vals, dtype=object)
  if not vals:
    return pd.Series(vals, dtype=float)
  if any(isinstance(v, float) for v in vals):
    return pd.Series([float(v) for v in vals], dtype=float)
  return pd.Series(vals)


def to_rows(t):
  names = list(t['cols'])
  return [dict(zip(names, vals)) for vals in zip(*(t['cols'][c] for c in names))
         ] if t['n'] else []


def take(t, idx):
  r = {k: v for k, v in t.items()}
  r['cols'] = {c: [v[i] for i in idx] for c, v in t['cols'].items()}
  r['n'] = len(idx)
  return r
