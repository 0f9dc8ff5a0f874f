"""Reference evaluator for metric trees (see ref.py for the leaves).

ev(m, rows, split) -> ref.Res whose index is split + the levels m adds.
A missing value is NaN. No pandas, no code under test.
"""
import math

from vp import conds, ref
from vp.core import Skip
from vp.ref import ANY, NAN, Res, div, is_any, isnull


def name(m):
  """Node name, as used when a parent formats its own name."""
  if isinstance(m, (int, float)):
    return str(m)
  t = m['t']
  if t in ref.SIMPLE:
    if t == 'Quantile' and isinstance(m['q'], list) and len(m['q']) > 1:
      if m.get('name'):
        return m['name']
      raise Skip('name of a multi-quantile in an expression')
    return ref.labels(m)[0]
  if m.get('name'):
    return m['name']
  if t == 'Ratio':
    return 'sum(%s) / sum(%s)' % (m['num'], m['den'])
  if t == 'op':
    return tmpl(m).format(name(m['a']), name(m.get('b', -1)))
  if t == 'List':
    if len(m['c']) == 1:
      return name(m['c'][0])
    return (m.get('tmpl') or 'MetricList({})').format(
        ', '.join(name(c) for c in m['c']))
  return opname(m).format(name(m['child']))


OPNAME = {
    'Distribution': 'Distribution of {}', 'Normalize': 'Distribution of {}',
    'CumulativeDistribution': 'Cumulative Distribution of {}',
    'PercentChange': '{} Percent Change', 'AbsoluteChange': '{} Absolute Change',
    'MH': '{} MH Ratio', 'HHI': 'HHI of {}', 'Entropy': 'Entropy of {}',
    'CUPED': '{} CUPED Change', 'PrePostChange': '{} PrePost Percent Change',
}


def opname(m):
  t = m['t']
  if t == 'TopK':
    return "Top-%s's share of {}" % m['k']
  if t == 'Nxx':
    p = 100 * m['share']
    return 'N(%s) of {}' % (int(p) if p == int(p) else p)
  return OPNAME[t]


def tmpl(m):
  op = m['op']
  if op == 'neg':
    return '-{}'
  if op == '**':
    return 'sqrt({})' if isinstance(m['b'], float) and m['b'] == 0.5 else '{} ^ {}'
  return '{} %s {}' % op


def exact(m):
  """Whether the value is computed without rounding on ints and quarters."""
  if isinstance(m, (int, float)):
    return True
  t = m['t']
  if t == 'List':
    return all(exact(c) for c in m['c'])
  return t in ('Sum', 'Count', 'Max', 'Min', 'Nth') or (
      t == 'Dot' and not m.get('normalize'))


def sdiv(a, b, ex):
  """a / b, left open when b may be zero only up to rounding."""
  if is_any(a) or is_any(b):
    return ANY
  if isnull(a) or isnull(b):
    return NAN
  if not ex and abs(b) < 1e-6:
    return ANY
  if not ex and math.isinf(b):
    return div(a, b)
  return div(a, b)


def arith(op, a, b, ex=True):
  if isinstance(a, Tie) or isinstance(b, Tie):
    raise Skip('arithmetic on shares sorted by value: ties are arbitrary')
  if isnull(a) or isnull(b):
    # pandas: nan ** 0 == 1 and 1 ** nan == 1
    if op == '**' and ((not isnull(b) and b == 0) or (not isnull(a) and a == 1)):
      return ANY
    return ANY if is_any(a) or is_any(b) else NAN
  if op == 'neg':
    return -a
  if op == '+':
    return a + b
  if op == '-':
    return a - b
  if op == '*':
    return a * b
  if op == '/':
    return sdiv(a, b, ex)
  if op == '**':
    if not ex and (abs(a) < 1e-6 or (b != int(b) and a < 1e-6)):
      return ANY
    return power(a, b)
  raise ValueError(op)


def power(a, b):
  import numpy as np
  with np.errstate(all='ignore'):
    v = float(np.power(np.float64(a), np.float64(b)))
  return ANY if ref.SQL and math.isinf(v) else v


def cols(m):
  """Column labels."""
  t = m['t']
  if t in ref.SIMPLE:
    return ref.labels(m)
  if t == 'Ratio':
    return [name(m)]
  if t == 'op':
    if m.get('rename'):
      return list(m['rename'])
    parts = [None if isinstance(c, (int, float)) else cols(c)
             for c in (m['a'], m.get('b', -1))]
    w = max(len(p) for p in parts if p)
    if w == 1:
      return [name(m)]
    lab = [p if p and len(p) == w else [name(nd)] * w
           for p, nd in zip(parts, (m['a'], m.get('b', -1)))]
    return [tmpl(m).format(p, q) for p, q in zip(*lab)]
  if t == 'List':
    if m.get('rename'):
      return list(m['rename'])
    cs = [c for ch in m['c'] for c in cols(ch)]
    return [m['tmpl'].format(c) for c in cs] if m.get('tmpl') else cs
  if t == 'MH' and m['child']['t'] != 'List':
    return [opname(m).format(name(m['child']))]
  return [opname(m).format(c) for c in cols(m['child'])]


def walk(m):
  """All nodes of a spec."""
  yield m
  if isinstance(m, dict):
    for k in ('a', 'b', 'child', 'cov'):
      if isinstance(m.get(k), (dict, int, float)):
        yield from walk(m[k])
    for k in ('c', 'cov'):
      if isinstance(m.get(k), list):
        for c in m[k]:
          yield from walk(c)


def extra_idx(m):
  if isinstance(m, (int, float)):
    return []
  t = m['t']
  if t in ref.SIMPLE or t == 'Ratio':
    return []
  if t == 'op':
    xs = [extra_idx(c) for c in (m['a'], m.get('b', -1))]
    a, b = xs
    if a == b or not b:
      return a
    if not a:
      return b
    return a if len(a) >= len(b) else b
  if t == 'List':
    return extra_idx(m['c'][0])
  if t in ('HHI', 'Entropy', 'TopK', 'Nxx'):
    return []
  own = m['over'] if 'over' in m else m['cond']
  own = [own] if isinstance(own, str) else list(own)
  return own + extra_idx(m['child'])


def ev(m, rows, split=()):
  split = list(split)
  rows = conds.keep(m.get('w') or [], rows)
  t = m['t']
  if t in ref.SIMPLE:
    return Res(split, ref.labels(m), sliced(
        rows, split, lambda r: ref.simple(m, r)))
  if t == 'Ratio':
    return Res(split, [name(m)], sliced(rows, split, lambda r: [
        div(ref.simple({'t': 'Sum', 'var': m['num']}, r)[0],
            ref.simple({'t': 'Sum', 'var': m['den']}, r)[0])]))
  return EV[t](m, rows, split)


def sliced(rows, split, f):
  if not split:
    return {(): f(rows)}
  return {k: f(r) for k, r in ref.groups(rows, split).items()}


def ev_op(m, rows, split):
  parts = [c if isinstance(c, (int, float)) else ev(c, rows, split)
           for c in (m['a'], m.get('b', -1))]
  nodes = [m['a'], m.get('b', -1)]
  op = m['op']
  a, b = parts
  na = [x for x in parts if isinstance(x, Res)]
  ncol = max(len(x.cols) for x in na)
  if any(len(x.cols) not in (1, ncol) for x in na):
    raise Skip('operands of different widths')
  idx = max((x.idx for x in na), key=len)
  keys = set()
  for x in na:
    if x.idx == idx:
      keys |= set(x.rows)
  def cell(x, k, j):
    if not isinstance(x, Res):
      return x
    kk = k if x.idx == idx else tuple(k[idx.index(c)] for c in x.idx)
    if kk not in x.rows:
      return gap(nodes[0] if x is parts[0] else nodes[1])
    v = x.rows[kk]
    return v[j] if len(v) > 1 else v[0]
  ex = exact(nodes[0] if op == '**' else nodes[1])
  full = sorted(keys)
  out = {k: [arith(op, cell(a, k, j), cell(b, k, j), ex) for j in range(ncol)]
         for k in full}
  if ncol == 1:
    cols = [name(m)]
  else:
    lab = [(x.cols if isinstance(x, Res) and len(x.cols) == ncol else
            [name(nd)] * ncol) for x, nd in zip(parts, nodes)]
    cols = [tmpl(m).format(p, q) for p, q in zip(*lab)]
  if m.get('rename'):
    cols = list(m['rename'])
  return Res(idx, cols, out)


def gap(m):
  """Value of a metric in a slice its filters leave without rows."""
  if ref.SQL and any(isinstance(n, dict) and n['t'] in (
      'Count', 'Nxx', 'CumulativeDistribution') for n in walk(m)):
    return ANY  # SQL counts nulls
  return NAN


def ev_list(m, rows, split):
  res = [ev(c, rows, split) for c in m['c']]
  if any(r.idx != res[0].idx for r in res):
    raise Skip('list of different index levels')
  keys = sorted(set().union(*[set(r.rows) for r in res]))
  cols = [c for r in res for c in r.cols]
  if m.get('tmpl'):
    cols = [m['tmpl'].format(c) for c in cols]
  if m.get('rename'):
    cols = list(m['rename'])
  return Res(res[0].idx, cols, {
      k: [v for c, r in zip(m['c'], res)
          for v in r.rows.get(k, [gap(c)] * len(r.cols))]
      for k in keys})


def nsum(vals):
  if any(is_any(v) for v in vals):
    return ANY
  vals = [v for v in vals if not isnull(v)]
  if any(math.isinf(v) for v in vals):
    return float(sum(vals))
  return math.fsum(vals)


def ev_dist(m, rows, split):
  over = [m['over']] if isinstance(m['over'], str) else list(m['over'])
  ch = ev(m['child'], rows, split + over)
  n = len(split)
  tot = {}
  for k, v in ch.rows.items():
    tot.setdefault(k[:n], []).append(v)
  tot = {k: [nsum(c) for c in zip(*vs)] for k, vs in tot.items()}
  ex = exact(m['child'])
  return Res(ch.idx, [opname(m).format(c) for c in ch.cols], {
      k: [sdiv(a, b, ex) for a, b in zip(v, tot[k[:n]])]
      for k, v in ch.rows.items()})


def ev_cum(m, rows, split):
  over = [m['over']] if isinstance(m['over'], str) else list(m['over'])
  d = ev_dist(dict(m, t='Distribution'), rows, split)
  if d.idx != split + over:
    raise Skip('cumulative distribution of an indexed metric')
  n = len(split)
  asc = m.get('ascending', True)
  out = {}
  byslice = {}
  for k in d.rows:
    byslice.setdefault(k[:n], []).append(k)
  cols = ['Cumulative ' + c for c in d.cols]
  for s in sorted(byslice):
    ks = byslice[s]
    if m.get('by_values'):
      for j in range(len(d.cols)):
        vs = [d.rows[k][j] for k in ks]
        if any(isnull(v) or math.isinf(v) for v in vs):
          raise Skip('cumulative distribution with undefined shares')
        for k in ks:
          # members of a tie may come in any order
          v = d.rows[k][j]
          lower = [x for x in vs if (x < v - 1e-12 if asc else x > v + 1e-12)]
          tied = [x for x in vs if abs(x - v) <= 1e-12]
          val = Tie((s, j, round(v, 12)), nsum(lower), v, len(tied)) if len(tied) > 1 else nsum(
              lower) + v
          out.setdefault(k, [None] * len(d.cols))[j] = val
      continue
    if m.get('order'):
      order = list(m['order'])
      ks = [k for k in ks if k[n] in order]
      ks = sorted(ks, key=lambda k: order.index(k[n]), reverse=not asc)
      if any(all(map(isnull, d.rows[k])) and (
          ref.SQL or any(map(is_any, d.rows[k]))) for k in ks):
        raise Skip('cumulative distribution with undefined shares')
      ks = [k for k in ks if not all(isnull(v) and not is_any(v)
                                      for v in d.rows[k])]
    else:
      ks = sorted(ks, key=lambda k: k[n:], reverse=not asc)
    acc = [0.0] * len(d.cols)
    for k in ks:
      row = []
      for j, v in enumerate(d.rows[k]):
        if is_any(v) or is_any(acc[j]):
          acc[j] = ANY
          row.append(ANY)
        elif isnull(v):
          row.append(ANY if ref.SQL else NAN)
        else:
          acc[j] += v
          row.append(acc[j])
      out[k] = row
  return Res(d.idx, cols, out)


class Tie:
  """One of base + i*step for i in 1..n, all n members distinct."""

  def __init__(self, key, base, step, n):
    self.key, self.base, self.step, self.n = key, base, step, n

  def members(self):
    return [self.base + i * self.step for i in range(1, self.n + 1)]

  def __repr__(self):
    return 'Tie(%r, %r, %r)' % (self.base, self.step, self.n)


def ev_change(m, rows, split):
  cond = [m['cond']] if isinstance(m['cond'], str) else list(m['cond'])
  base = m['base']
  base = tuple(base) if isinstance(base, list) else (base,)
  ch = ev(m['child'], rows, split + cond)
  n, c = len(split), len(cond)
  if not any(k[n:n + c] == base for k in ch.rows):
    raise Skip('the baseline never occurs')
  out = {}
  for k, v in ch.rows.items():
    if k[n:n + c] == base and not m.get('include_base'):
      continue
    b = ch.rows.get(k[:n] + base + k[n + c:])
    row = []
    for j, a in enumerate(v):
      bj = NAN if b is None else b[j]
      if isnull(a) or isnull(bj):
        row.append(ANY if is_any(a) or is_any(bj) else NAN)
      elif m['t'] == 'AbsoluteChange':
        row.append(a - bj)
      else:
        q = sdiv(a, bj, exact(m['child']))
        row.append(q if isnull(q) else (q - 1) * 100)
    out[k] = row
  return Res(ch.idx, [opname(m).format(x) for x in ch.cols], out)


def ev_mh(m, rows, split):
  ch = m['child']
  if ch['t'] == 'List':
    parts = [ev_mh(dict(m, child=dict(c, w=(c.get('w') or []) +
                                      (ch.get('w') or []))), rows, split)
             for c in ch['c']]
    keys = sorted(set().union(*[set(r.rows) for r in parts]))
    return Res(parts[0].idx, [c for r in parts for c in r.cols], {
        k: [v for r in parts for v in r.rows.get(k, [NAN])] for k in keys})
  cond = [m['cond']] if isinstance(m['cond'], str) else list(m['cond'])
  strat = [m['strat']] if isinstance(m['strat'], str) else list(m['strat'])
  base = m['base']
  base = tuple(base) if isinstance(base, list) else (base,)
  rows = conds.keep(ch.get('w') or [], rows)
  if ch['t'] == 'Ratio':
    num, den = ({'t': 'Sum', 'var': ch['num']}, {'t': 'Sum', 'var': ch['den']})
  else:
    num, den = ch['a'], ch['b']
  full = split + cond + strat
  a, d = ev(num, rows, full), ev(den, rows, full)
  if a.idx != full or d.idx != full:
    raise Skip('MH over indexed metrics')
  n, c = len(split), len(cond)
  keys = set(a.rows) | set(d.rows)
  if not any(k[n:n + c] == base for k in keys):
    raise Skip('the baseline never occurs')
  get = lambda r, k: r.rows.get(k, [NAN])[0]
  acc = {}
  for k in keys:
    s = acc.setdefault(k[:n + c], [[], []])
    kb = k[:n] + base + k[n + c:]
    ka, na, k0, n0 = get(a, k), get(d, k), get(a, kb), get(d, kb)
    if (k not in a.rows and k not in d.rows) or (
        kb not in a.rows and kb not in d.rows):
      continue  # the stratum lacks one of the arms
    if any(isnull(v) or math.isinf(v) for v in (ka, na, k0, n0)):
      s[0].append(ANY)  # a part of the ratio is undefined in the stratum
      continue
    if abs(na + n0) < 1e-12:
      raise Skip('zero total weight in a stratum')
    s[0].append(ka * n0 / (na + n0))
    s[1].append(k0 * na / (na + n0))
  out = {}
  for k, (p, q) in acc.items():
    if k[n:] == base and not m.get('include_base'):
      continue
    q = ANY if any(map(is_any, p)) else sdiv(math.fsum(p), math.fsum(q), False)
    out[k] = [q if isnull(q) else (q - 1) * 100]
  return Res(split + cond, [opname(m).format(name(ch))], out)


def fit(x, y):
  """(intercept, coefficients) of least squares, or None when not determined."""
  import numpy as np
  n, p = x.shape
  if n < p + 1:
    return None
  mean, ymean = x.mean(axis=0), y.mean()
  xc = x - mean
  scale = np.sqrt((xc**2).sum(axis=0))
  if (scale <= 1e-7 * (1 + abs(x).max())).any():
    return None
  u, s, vt = np.linalg.svd(xc / scale, full_matrices=False)
  if s[-1] < 1e-4:
    return None
  coef = vt.T @ ((u.T @ (y - ymean)) / s) / scale
  return ymean - mean @ coef, coef


def ev_adjusted(m, rows, split):
  """CUPED and PrePostChange: regressions on the strata of each slice."""
  import numpy as np
  cond = [m['cond']] if isinstance(m['cond'], str) else list(m['cond'])
  strat = m.get('strat') or []
  strat = [strat] if isinstance(strat, str) else list(strat)
  base = m['base']
  base = tuple(base) if isinstance(base, list) else (base,)
  cov = {'t': 'List', 'c': m['cov']} if isinstance(m['cov'], list) else m['cov']
  full = split + strat + cond
  y, x = ev(m['child'], rows, full), ev(cov, rows, full)
  if y.idx != full or x.idx != full:
    raise Skip('adjustment of an indexed metric')
  if set(y.rows) != set(x.rows):
    raise Skip('strata where only one of the metrics has rows')
  if any(isnull(v) or math.isinf(v) for r in (x, y) for vs in r.rows.values()
         for v in vs):
    raise Skip('adjustment of nulls')
  n, c = len(split), len(cond)
  slices = {}
  for k in sorted(y.rows):
    slices.setdefault(k[:n], []).append(k)
  if not any(k[-c:] == base for k in y.rows):
    raise Skip('the baseline never occurs')
  out = {}
  for s, ks in slices.items():
    xs = np.array([x.rows[k] for k in ks], dtype=float)
    ys = np.array([y.rows[k] for k in ks], dtype=float)
    xs = xs - xs.mean(axis=0)
    conds_ = {}
    for i, k in enumerate(ks):
      conds_.setdefault(k[-c:], []).append(i)
    for j in range(len(y.cols)):
      pooled = fit(xs, ys[:, j]) if m['t'] == 'CUPED' else None
      val = {}
      for q, i in conds_.items():
        if m['t'] == 'CUPED':
          val[q] = (ANY if pooled is None else
                    ys[i, j].mean() - xs[i].mean(axis=0) @ pooled[1])
        else:
          own = fit(xs[i], ys[i, j])
          val[q] = ANY if own is None else own[0]
      for q, a in val.items():
        if q == base and not m.get('include_base'):
          continue
        b = val.get(base, NAN)
        if is_any(a) or is_any(b):
          r = ANY
        elif isnull(b):
          r = NAN
        elif m['t'] == 'CUPED':
          r = a - b
        else:
          r = sdiv(a, b, False)
          r = r if isnull(r) else (r - 1) * 100
        out.setdefault(s + q, [None] * len(y.cols))[j] = r
  return Res(split + cond, [opname(m).format(l) for l in y.cols], out)


def ev_div(m, rows, split):
  over = [m['over']] if isinstance(m['over'], str) else list(m['over'])
  d = ev_dist(dict(m, t='Distribution'), rows, split)
  if d.idx != split + over:
    raise Skip('diversity of an indexed metric')
  n = len(split)
  by = {}
  for k, v in d.rows.items():
    by.setdefault(k[:n], []).append(v)
  out = {s: [diversity(m, c) for c in zip(*vs)] for s, vs in by.items()}
  if not split and not out:
    raise Skip('diversity of nothing')
  return Res(split, [opname(m).format(c[len('Distribution of '):])
                     for c in d.cols], out)


def diversity(m, shares):
  t = m['t']
  if any(is_any(v) for v in shares):
    return ANY
  s = [v for v in shares if not isnull(v)]
  if not s or any(math.isinf(v) for v in s):
    return ANY
  if t == 'HHI':
    return math.fsum(v * v for v in s)
  if t == 'Entropy':
    if any(v < 0 for v in s):
      return ANY
    return -math.fsum(v * math.log(v) for v in s if v)
  s.sort(reverse=True)
  if t == 'TopK':
    return math.fsum(s[:m['k']])
  if any(v < -1e-12 for v in s):
    return ANY
  for i in range(1, len(s) + 1):
    if 1e-13 < abs(math.fsum(s[:i]) - m['share']) < 1e-7:
      return ANY  # within the tolerance, but not by rounding
    if math.fsum(s[:i]) >= m['share'] - 1e-10:
      return float(i)
  return ANY


EV = {'op': ev_op, 'List': ev_list, 'Distribution': ev_dist,
      'Normalize': ev_dist, 'CumulativeDistribution': ev_cum,
      'PercentChange': ev_change, 'AbsoluteChange': ev_change, 'MH': ev_mh,
      'CUPED': ev_adjusted, 'PrePostChange': ev_adjusted,
      'HHI': ev_div, 'Entropy': ev_div, 'TopK': ev_div, 'Nxx': ev_div}
