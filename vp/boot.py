"""All resamples a bootstrap can draw, and whether a result can stem from them."""
import itertools
import math

from vp import case, conds, obs, ref, sqlcase, tree
from vp.core import Skip, Violation, close, isnull
from vp.props import c02, c11

LIMIT = 30000  # combinations of replicates tried per slice


def draws(n, poisson, most=4):
  """All vectors of copies of n units that can be drawn."""
  if poisson:
    return list(itertools.product(range(most + 1), repeat=n))
  return [v for v in itertools.product(range(n + 1), repeat=n) if sum(v) == n]


def combos(size, n):
  return math.comb(size + n - 1, n)


def blocks(rows, unit):
  """The rows of each unit."""
  if unit is None:
    return [[r] for r in rows]
  out = {}
  for r in rows:
    out.setdefault(r[unit], []).append(r)
  return list(out.values())


def replicates(m, rows, unit, poisson, most, vague=None):
  """The child on every possible resample: a list of {key: values} or 'open'.

  None stands for a resample on which the child is not defined."""
  units = blocks(rows, unit)
  filtered = any(isinstance(n, dict) and n.get('w') for n in tree.walk(m))
  out = []
  for copies in draws(len(units), poisson, most):
    kept = [r for rs, k in zip(units, copies) for _ in range(k) for r in rs]
    if not kept:
      out.append(None)
      if not ref.SQL:
        out.append(nothing(m))
      continue
    if filtered and (c02.emptied(m, kept) or vague and vague(m, kept, [])):
      out.append('open')
      continue
    res = c11.replicate(m, kept, [])
    out.append(res and res.rows)
  return out


def nothing(m):
  """The child on an empty resample, in place of no result."""
  try:
    return tree.ev(m, [], []).rows
  except Skip:
    if m['t'] in ('op', 'List'):
      return 'open'
    return {(): [0.0] * len(tree.cols(m))}


def spread(vals):
  """(standard deviation, number of values), or ANY."""
  if any(ref.is_any(v) or hasattr(v, 'members') for v in vals):
    return ref.ANY, None
  vals = [v for v in vals if not isnull(v)]
  if any(math.isinf(v) for v in vals):
    return ref.ANY, None
  n = len(vals)
  if n < 2:
    return ref.NAN, n
  mean = math.fsum(vals) / n
  return math.sqrt(math.fsum((v - mean) ** 2 for v in vals) / (n - 1)), n


def half_width(se, n, confidence):
  from scipy import stats
  if ref.is_any(se) or isnull(se) or confidence is None:
    return se
  return se * stats.t.ppf((1 + confidence) / 2, n - 1)


def tag(v):
  return 'any' if ref.is_any(v) else repr(v)


def explain(reps, n, cells, confidence):
  """Whether n of the replicates give the observed spreads.

  Args:
    reps: What replicates() returns.
    n: The number of replicates.
    cells: [((key, column number), observed spread)].
    confidence: The level of the interval, or None.

  Returns:
    Whether there are such replicates.
  """
  columns = []
  for (k, j), got in cells:
    col = []
    for r in reps:
      if r == 'open':
        col.append(ref.ANY)
      elif r is None or k not in r:
        col.append(ref.NAN)
      else:
        col.append(r[k][j])
    columns.append((got, col))
  first = {}
  for i, t in enumerate(zip(*[map(tag, c) for _, c in columns])):
    first.setdefault(t, i)
  ids = sorted(first.values())
  if combos(len(ids), n) > LIMIT:
    raise Skip('too many combinations of replicates')
  for pick in itertools.combinations_with_replacement(ids, n):
    for got, col in columns:
      se, k = spread([col[i] for i in pick])
      if ref.is_any(se):
        continue
      if not close(got, half_width(se, k, confidence), 1e-6, 1e-6):
        break
    else:
      return True
  return False


def check(res, spec, want, rows, what, poisson, vague=None, joint=True):
  """Checks the observed result of a bootstrap.

  Args:
    res: The result, as of obs.observe.
    spec: {'child', 'unit', 'split', 'n', 'confidence'}.
    want: The expected point estimates.
    rows: The rows bootstrapped.
    what: Used in messages.
    poisson: Whether it's Poisson bootstrap.
    vague: Tells whether the child is left open on a resample.
    joint: Whether all columns need to stem from the same draws.

  Returns:
    The number of cells with a positive spread.
  """
  m, split, unit = spec['child'], spec['split'], spec['unit']
  prefix = 'Poisson Bootstrap' if poisson else 'Bootstrap'
  sub = ['Value', prefix + ' SE'] if spec['confidence'] is None else [
      'Value', prefix + ' CI-lower', prefix + ' CI-upper']
  full = ref.Res(want.idx, [(c, s) for c in want.cols for s in sub], {
      k: [y for x in v for y in [x] + [ref.ANY] * (len(sub) - 1)]
      for k, v in want.rows.items()})
  obs.compare(res, full, what, rtol=1e-6, atol=1e-6, missing_is_nan=True,
              any_level_order=case.broadcasts(m))
  got = obs.reorder(res, want.idx)[2]
  slices = ref.groups(rows, split) if split else {(): rows}
  positive = 0
  for key, part in slices.items():
    cells, j = {}, len(sub)
    for k in want.rows:
      if k[:len(split)] != key or k not in got:
        continue
      for c in range(len(want.cols)):
        cell = got[k][c * j:c * j + j]
        if spec['confidence'] is None:
          half = cell[1]
        else:
          if isnull(cell[0]) or isnull(cell[1]) or ref.is_any(want.rows[k][c]):
            continue
          size = max(1, abs(cell[1]), abs(cell[2]))
          if abs(cell[0] * 2 - cell[1] - cell[2]) > 1e-6 * size:
            raise Violation('%s: interval at %s is not around the value: %s' % (
                what, k, cell))
          half = (cell[2] - cell[1]) / 2
        positive += not isnull(half) and half > 1e-9
        cells.setdefault(0 if joint else c, []).append(
            ((k[len(split):], c), half))
    for most in [5, 9] if poisson else [0]:
      reps = replicates(m, part, unit, poisson, most, vague)
      bad = [v for v in cells.values()
             if not explain(reps, spec['n'], v, spec['confidence'])]
      if not bad:
        break
    if bad:
      raise Violation(
          '%s: in slice %s no %d resamples give the spreads %s' % (
              what, key, spec['n'], bad[0]))
  return positive
