"""Reference semantics, written from the documentation, on plain row lists.

A table is a list of dicts; a missing value is None. A result is a Res: index
level names, column labels, and {index key tuple: [values]}.
Nothing here imports pandas or the code under test.
"""
import contextlib
import math

import numpy as np

NAN = float('nan')


class AnyFloat(float):
  """A value the documentation leaves open (e.g. division by exactly zero
  degrees of freedom): any observed number is accepted."""


ANY = AnyFloat('nan')


# In SQL, where NULL takes the place of pandas' conventions for empty sums and
# divisions by zero, the value of these is left open.
SQL = False
ROUNDED = False  # Whether 0/0 may come out as something else.


@contextlib.contextmanager
def sql():
  global SQL
  old, SQL = SQL, True
  try:
    yield
  finally:
    SQL = old


def is_any(v):
  return isinstance(v, AnyFloat)


def isnull(v):
  return v is None or (isinstance(v, float) and math.isnan(v))


class Within(AnyFloat):
  """Any value between lo and hi (an approximate quantile)."""

  def __new__(cls, lo, hi):
    self = super().__new__(cls, 'nan')
    self.lo, self.hi = lo, hi
    return self


def approx_quantile(vals, q):
  v = sorted(float(a) for a in vals)
  if not v:
    return NAN
  pos = round(100 * q) * (len(v) - 1)
  lo, hi = v[pos // 100], v[-(-pos // 100)]
  return lo if lo == hi else Within(lo, hi)


class Res:

  def __init__(self, idx, cols, rows):
    self.idx = list(idx)
    self.cols = list(cols)
    self.rows = rows

  def __repr__(self):
    return 'Res(%s, %s, %s)' % (self.idx, self.cols, self.rows)


def nn(rows, *cols):
  """Rows in which no column is null."""
  return [r for r in rows if not any(isnull(r[c]) for c in cols)]


def fsum(vals):
  return math.fsum(float(v) for v in vals)


def div(a, b):
  if is_any(a) or is_any(b) or SQL and b == 0:
    return ANY
  with np.errstate(all='ignore'):
    return float(np.float64(a) / np.float64(b))


def mean(vals):
  vals = list(vals)
  return div(fsum(vals), len(vals)) if vals else NAN


def quantile(vals, q, interp):
  v = sorted(float(a) for a in vals)
  if not v:
    return NAN
  pos = q * (len(v) - 1)
  if abs(pos - round(pos)) < 1e-9:
    return v[int(round(pos))]
  lo, hi = int(math.floor(pos)), int(math.ceil(pos))
  frac = pos - lo
  if interp == 'linear':
    return v[lo] + (v[hi] - v[lo]) * frac
  if interp == 'lower':
    return v[lo]
  if interp == 'higher':
    return v[hi]
  if interp == 'midpoint':
    return (v[lo] + v[hi]) / 2
  if interp == 'nearest':
    if abs(frac - 0.5) < 1e-9:
      return ANY
    return v[int(np.round(pos))]
  raise ValueError(interp)


def wquantile(rows, var, w, q):
  """Weighted percentile (https://en.wikipedia.org/wiki/Percentile)."""
  agg = {}
  for r in nn(rows, var, w):
    agg[float(r[var])] = agg.get(float(r[var]), 0.0) + r[w]
  if not agg:
    return NAN
  vs = sorted(agg)
  total = fsum(agg.values())
  p, c = [], 0.0
  for v in vs:
    c += agg[v]
    p.append((c - agg[v] / 2) / total)
  if q <= p[0]:
    return vs[0]
  if q >= p[-1]:
    return vs[-1]
  for i in range(len(vs) - 1):
    if p[i] <= q <= p[i + 1]:
      if p[i + 1] == p[i]:
        return vs[i + 1]
      return vs[i] + (vs[i + 1] - vs[i]) * (q - p[i]) / (p[i + 1] - p[i])
  raise AssertionError('unreachable')


def variance(vals, ddof):
  v = [float(a) for a in vals]
  if len(v) - ddof <= 0:
    return NAN
  m = mean(v)
  return fsum((a - m) ** 2 for a in v) / (len(v) - ddof)


def wvariance(rows, var, w, ddof):
  rs = nn(rows, var, w)
  sw = fsum(r[w] for r in rs)
  if abs(sw - ddof) <= 1e-9:
    return ANY
  if sw - ddof < 0:
    return NAN
  m = fsum(r[w] * r[var] for r in rs) / sw
  return fsum(r[w] * (r[var] - m) ** 2 for r in rs) / (sw - ddof)


def ranks(v):
  s = sorted(v)
  first, last = {}, {}
  for i, a in enumerate(s):
    first.setdefault(a, i)
    last[a] = i
  return [(first[a] + last[a]) / 2 + 1 for a in v]


def pearson(a, b, w=None):
  # 0/0, up to rounding
  degenerate = NAN if w is None and not ROUNDED else ANY
  w = w or [1.0] * len(a)
  sw = fsum(w)
  if len(a) < 1 or sw == 0:
    return NAN
  ma = fsum(x * k for x, k in zip(a, w)) / sw
  mb = fsum(x * k for x, k in zip(b, w)) / sw
  va = fsum(k * (x - ma) ** 2 for x, k in zip(a, w))
  vb = fsum(k * (x - mb) ** 2 for x, k in zip(b, w))
  if va < 1e-12 or vb < 1e-12:
    return degenerate
  c = fsum(k * (x - ma) * (y - mb) for x, y, k in zip(a, b, w))
  return c / math.sqrt(va * vb)


def kendall(a, b):
  n = len(a)
  conc = ta = tb = 0
  for i in range(n):
    for j in range(i):
      sa = (a[i] > a[j]) - (a[i] < a[j])
      sb = (b[i] > b[j]) - (b[i] < b[j])
      conc += sa * sb
      ta += sa != 0
      tb += sb != 0
  if not ta or not tb:
    return NAN
  return conc / math.sqrt(ta * tb)


def cov(rows, var, var2, bias, ddof, weight, fweight):
  """numpy.cov semantics, written out."""
  rs = nn(rows, *[c for c in (var, var2, weight, fweight) if c])
  if not rs:
    return NAN
  d = ddof if ddof is not None else (0 if bias else 1)
  f = [r[fweight] if fweight else 1 for r in rs]
  a = [r[weight] if weight else 1.0 for r in rs]
  w = [i * j for i, j in zip(f, a)]
  sw = fsum(w)
  mx = fsum(k * r[var] for k, r in zip(w, rs)) / sw
  my = fsum(k * r[var2] for k, r in zip(w, rs)) / sw
  c = fsum(k * (r[var] - mx) * (r[var2] - my) for k, r in zip(w, rs))
  if not weight:
    fact = sw - d
  else:
    fact = sw - d * fsum(k * j for k, j in zip(w, a)) / sw
  if abs(fact) <= 1e-9:
    return ANY
  return NAN if fact < 0 else c / fact


def simple(m, rows):
  """Value(s) of a simple metric spec on rows: a list, one per column."""
  t, var = m['t'], m['var']
  if t == 'Count':
    vals = [r[var] for r in nn(rows, var)]
    return [float(len(set(vals)) if m.get('distinct') else len(vals))]
  if t == 'Sum':
    vals = [r[var] for r in nn(rows, var)]
    return [fsum(vals) if vals or not SQL else ANY]
  if t == 'Dot':
    p = [r[var] * r[m['var2']] for r in nn(rows, var, m['var2'])]
    if SQL and not p:
      return [ANY]
    return [mean(p) if m.get('normalize') else fsum(p)]
  if t == 'Mean':
    w = m.get('weight')
    if w:
      rs = nn(rows, var, w)
      return [div(fsum(r[var] * r[w] for r in rs), fsum(r[w] for r in rs))]
    return [mean(r[var] for r in nn(rows, var))]
  if t in ('Max', 'Min'):
    vals = [float(r[var]) for r in nn(rows, var)]
    return [(max(vals) if t == 'Max' else min(vals)) if vals else NAN]
  if t == 'Nth':
    n, asc = m['n'], m.get('ascending', True)
    rs = nn(rows, var) if m.get('dropna') else rows
    by = m['sort_by']
    if n < 0:
      n, asc = -n - 1, not asc
    # Rows without a sort key come last.
    rs = sorted([r for r in rs if r[by] is not None], key=lambda r: r[by],
                reverse=not asc) + [r for r in rs if r[by] is None]
    if n >= len(rs):
      return [NAN]
    v = rs[n][var]
    return [NAN if v is None else v]
  if t == 'Quantile':
    qs = m['q'] if isinstance(m['q'], list) else [m['q']]
    if m.get('weight'):
      return [wquantile(rows, var, m['weight'], q) for q in qs]
    vals = [r[var] for r in nn(rows, var)]
    if SQL:
      return [approx_quantile(vals, q) for q in qs]
    return [quantile(vals, q, m.get('interp', 'linear')) for q in qs]
  ddof = 1 if m.get('unbiased', True) else 0
  if t in ('Variance', 'StandardDeviation'):
    if m.get('weight'):
      v = wvariance(rows, var, m['weight'], ddof)
    else:
      v = variance([r[var] for r in nn(rows, var)], ddof)
    return [v if t == 'Variance' or isnull(v) else math.sqrt(v)]
  if t == 'CV':
    vals = [r[var] for r in nn(rows, var)]
    v = variance(vals, ddof)
    return [NAN if isnull(v) else div(math.sqrt(v), mean(vals))]
  if t == 'Correlation':
    w = m.get('weight')
    rs = nn(rows, var, m['var2'], *([w] if w else []))
    a = [float(r[var]) for r in rs]
    b = [float(r[m['var2']]) for r in rs]
    if w:
      return [pearson(a, b, [float(r[w]) for r in rs])]
    meth = m.get('method', 'pearson')
    if len(a) < 2:
      return [NAN]
    if meth == 'pearson':
      return [pearson(a, b)]
    if meth == 'spearman':
      return [pearson(ranks(a), ranks(b))]
    return [kendall(a, b)]
  if t == 'Cov':
    return [cov(rows, var, m['var2'], m.get('bias', False), m.get('ddof'),
                m.get('weight'), m.get('fweight'))]
  raise ValueError(t)


SIMPLE = {'Count', 'Sum', 'Dot', 'Mean', 'Max', 'Min', 'Nth', 'Quantile',
          'Variance', 'StandardDeviation', 'CV', 'Correlation', 'Cov'}


def fmt_num(v):
  return str(v)


def labels(m):
  """Column labels of a simple metric, per the documentation's defaults."""
  t = m['t']
  var = m['var']
  w = m.get('weight')
  pre = '%s-weighted ' % w if w else ''
  if t == 'Quantile' and isinstance(m['q'], list) and len(m['q']) > 1:
    return ['%squantile(%s, %s)' % (pre, var, fmt_num(q)) for q in m['q']]
  if m.get('name'):
    return [m['name']]
  if t == 'Count':
    return ['count(distinct %s)' % var if m.get('distinct') else
            'count(%s)' % var]
  if t in ('Sum', 'Max', 'Min'):
    return ['%s(%s)' % (t.lower(), var)]
  if t == 'Dot':
    return ['%s(%s * %s)' % ('mean' if m.get('normalize') else 'sum', var,
                             m['var2'])]
  if t == 'Mean':
    return ['%smean(%s)' % (pre, var)]
  if t == 'Nth':
    n, asc = m['n'], m.get('ascending', True)
    if n < 0:
      n, asc = -n - 1, not asc
    i = n + 1
    suf = 'th' if 10 <= i % 100 <= 20 else {1: 'st', 2: 'nd', 3: 'rd'}.get(
        i % 10, 'th')
    return ['%d%s(%s) sort by %s %s' % (i, suf, var, m['sort_by'],
                                        'asc' if asc else 'desc')]
  if t == 'Quantile':
    q = m['q'][0] if isinstance(m['q'], list) else m['q']
    return ['%squantile(%s, %s)' % (pre, var, fmt_num(q))]
  if t == 'Variance':
    return ['%svar(%s)' % (pre, var)]
  if t == 'StandardDeviation':
    return ['%ssd(%s)' % (pre, var)]
  if t == 'CV':
    return ['cv(%s)' % var]
  if t == 'Correlation':
    return ['%scorr(%s, %s)' % (pre, var, m['var2'])]
  if t == 'Cov':
    f = m.get('fweight')
    pre = '%s-weighted ' % w if w else ''
    pre = ('%s-fweighted ' % f if f else '') + pre
    return ['%scov(%s, %s)' % (pre, var, m['var2'])]
  raise ValueError(t)


def groups(rows, split_by):
  """{key tuple: rows} in key order."""
  out = {}
  for r in rows:
    k = tuple(r[c] for c in split_by)
    if any(isnull(v) for v in k):
      continue
    out.setdefault(k, []).append(r)
  return {k: out[k] for k in sorted(out)}
