"""C11: jackknife = leave-one-unit-out recomputation."""
import contextlib
import io
import math

from hypothesis import strategies as st

from vp import case, conds, dsl, gen, obs, ref, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02, c10

RULE = ('a random table with a unit column x a random child (leaves, '
        'arithmetic, lists, operations, filters) x split_by x confidence: '
        'Jackknife with and without optimisation against point estimate, '
        'sqrt((n-1)/n * sum of squared deviations) and t-interval of a '
        'brute-force recomputation of the reference evaluator leaving one '
        'unit out at a time; non-trivial = some finite positive standard error')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Dot', 'Max', 'Min', 'Quantile',
          'Variance', 'StandardDeviation', 'CV', 'Correlation', 'Cov']
OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'PercentChange', 'AbsoluteChange', 'AbsoluteChange', 'MH', 'HHI', 'TopK',
       'Nxx', 'Entropy']
PRE = ['Sum', 'Sum', 'Count', 'Mean', 'Dot']
UNITS = [3, 1, 2, 7, 5]
SUNITS = ['r', 'q', 's', 'A', 't']


@st.composite
def gen_case(draw, leaf_sets=(LEAVES, LEAVES, PRE)):
  leaves = draw(st.sampled_from(list(leaf_sets)))
  o = tgen.Opts(leaves, where=draw(st.booleans()), depth=draw(
      st.integers(0, 2)), ops=OPS, broadcast=False, pow_=False)
  child = draw(tgen.any_tree(o, ['h', 'p']))
  if draw(st.integers(0, 11)) == 0:
    child = draw(tgen.twins(o))
  n = draw(st.sampled_from([5, 8, 12, 18]))
  k = draw(st.integers(2, 5))
  t = draw(gen.table(
      min_n=n, max_n=n + 6, g=2, h=draw(st.integers(2, 3)),
      x=draw(st.sampled_from([('int',), ('quarter',), ('posint',)])),
      y=('posint', 'int'),
      extra={'p': st.integers(0, 1), 'u': st.sampled_from(UNITS[:k]),
             'v': st.sampled_from(SUNITS[:k]), 'i': st.integers(0, 1)}))
  c = t['cols']
  if draw(st.integers(0, 7)):  # at least two units in the first slices
    for name, vals in (('u', UNITS), ('v', SUNITS)):
      c[name][:4] = [vals[0], vals[1], vals[0], vals[1]]
    c['g'][:4] = draw(st.sampled_from([['a', 'a', 'b', 'b'],
                                       ['b', 'b', 'b', 'b']]))
  return {'table': t, 'child': child, 'unit': draw(st.sampled_from(['u', 'v', 'u', 'v', 'h'])),
          'split': draw(st.sampled_from([[], [], ['g'], ['g'], ['g', 'i']])),
          'confidence': draw(st.sampled_from([None, None, 0.5, 0.9, 0.95])),
          'w': draw(conds.where(g=False)), 'sym': draw(st.booleans()),
          'melted': draw(st.integers(0, 3)) == 0}


MISSING = 'the baseline never occurs'


def replicate(m, rows, split):
  """The child on a leave-one-out sample; None when it is not defined."""
  try:
    return tree.ev(m, rows, split)
  except Skip as e:
    if str(e) == MISSING:
      return None
    raise


def leaf_rows(m, rows):
  """The rows that every leaf is computed on."""
  rows = conds.keep(m.get('w') or [], rows)
  kids = [m[k] for k in ('a', 'b', 'child') if isinstance(m.get(k), dict)] + (
      m.get('c') or [])
  for c in kids:
    yield from leaf_rows(c, rows)
  if not kids:
    yield rows


def patchy(m, rows, split):
  """Whether filters leave a cell only some of the metric and covariates."""
  for n in tree.walk(m):
    if isinstance(n, dict) and n['t'] in ('CUPED', 'PrePostChange'):
      kept = conds.keep(m.get('w') or [], rows)
      kept = conds.keep(n.get('w') or [], kept)
      by = list(split)
      for c in (n['cond'], n.get('strat')):
        by += [c] if isinstance(c, str) else c or []
      parts = [set(tuple(r[c] for c in by) for r in rs)
               for f in [n['child']] + (n['cov'] if isinstance(
                   n['cov'], list) else [n['cov']])
               for rs in leaf_rows(f, kept)]
      if any(p != parts[0] for p in parts):
        return True
  return False


def uncertain(m):
  """Whether rounding could make the value undefined or jump."""
  return case.has(m, 'StandardDeviation', 'CV', 'Correlation')


def stderr(vals):
  """(SE, dof) of the replicates, or ANY."""
  if any(ref.is_any(v) or hasattr(v, 'members') for v in vals):
    return ref.ANY, None
  vals = [v for v in vals if not isnull(v)]
  if any(math.isinf(v) for v in vals):
    return ref.ANY, None
  n = len(vals)
  if n < 2:
    return ref.NAN, n - 1
  mean = math.fsum(vals) / n
  return math.sqrt((n - 1) / n * math.fsum((v - mean) ** 2 for v in vals)), n - 1


def expected(spec, vague=lambda m, rows, split: False):
  """Res with Value, SE and dof per column of the child."""
  from scipy import stats
  m, split, unit = spec['child'], spec['split'], spec['unit']
  rows = conds.keep(spec['w'] + spec.get('outer', []),
                    table.to_rows(spec['table']))
  if not rows:
    raise Skip('filters leave nothing')
  if len(set(r[unit] for r in rows)) < 2:
    raise Skip('a single unit')
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  pt = case.expected(m, rows, split)
  if not pt.rows:
    raise Skip('an empty result')
  filtered = any(isinstance(n, dict) and n.get('w') for n in tree.walk(m))
  keyof = lambda r: tuple(r[c] for c in split)
  reps = {k: [] for k in pt.rows}
  slices, done, opened = {}, 0, 0
  for r in rows:
    slices.setdefault(keyof(r), set()).add(r[unit])
  for u in sorted(set(r[unit] for r in rows)):
    kept = [r for r in rows if r[unit] != u and u in slices[keyof(r)]]
    res = None
    if kept:
      if filtered and (c02.emptied(m, kept) or split and any(
          c02.emptied(m, [r for r in kept if keyof(r) == k])
          for k in set(map(keyof, kept))) or vague(m, kept, split)):
        # zero or nothing: left open
        res = 'open'
      else:
        res = replicate(m, kept, split)
    if res == 'open':
      opened += 1
    else:
      done += res is not None and bool(res.rows)
    for k in reps:
      if u not in slices[k[:len(split)]]:
        continue
      if res == 'open':
        reps[k].append([ref.ANY] * len(pt.cols))
      elif res is None or k not in res.rows:
        reps[k].append([ref.ANY if filtered else ref.NAN] * len(pt.cols))
      else:
        v = res.rows[k]
        if filtered:
          v = [ref.ANY if isnull(x) else x for x in v]
        reps[k].append(v)
  if not any(len(v) > 1 for v in slices.values()) or done < 1 + filtered:
    raise Skip('a single unit in every slice')
  out = {}
  for k, v in pt.rows.items():
    row = []
    for j, x in enumerate(v):
      se, dof = stderr([r[j] for r in reps[k]])
      if spec['confidence'] is None:
        row += [x, se]
      elif ref.is_any(se) or ref.is_any(x) or hasattr(x, 'members'):
        row += [x, ref.ANY, ref.ANY]
      elif isnull(se) or isnull(x):
        row += [x, ref.NAN, ref.NAN]
      else:
        half = se * stats.t.ppf((1 + spec['confidence']) / 2, dof)
        row += [x, x - half, x + half]
    out[k] = row
  sub = ['Value', 'Jackknife SE'] if spec['confidence'] is None else [
      'Value', 'Jackknife CI-lower', 'Jackknife CI-upper']
  return ref.Res(pt.idx, [(c, s) for c in pt.cols for s in sub], out)


def run(spec):
  with conds.symbols(spec.get('sym')):
    return loo(spec)


def loo(spec):
  import meterstick as ms
  from meterstick import utils
  m, split = spec['child'], spec['split']
  want = expected(spec)
  labels = [m['t'], 'split%d' % len(split)]
  kw = {'confidence': spec['confidence']}
  if spec['w']:
    kw['where'] = conds.to_where(spec['w'])
  tol = 1e-6
  for opt in (True, False):
    with sut('Jackknife(enable_optimization=%s)' % opt), \
        contextlib.redirect_stdout(io.StringIO()):
      jk = ms.Jackknife(spec['unit'], dsl.build(m), enable_optimization=opt,
                        **kw)
      if opt:
        labels.append('precomputed' if jk.can_precompute() else 'general')
      df = table.to_df(spec['table'])
      jk = wrap(jk, spec)
      res = jk.compute_on(df, list(split), melted=spec['melted'])
      if spec['melted']:
        res = utils.unmelt(res)
      obs.compare(obs.observe(res), want, 'Jackknife(optimized=%s)' % opt,
                  rtol=tol, atol=tol, missing_is_nan=True,
                  any_level_order=case.broadcasts(m))
  if spread(want, m):
    labels.append('nontrivial')
  return sorted(set(labels))


def wrap(m, spec):
  """A list that filters everything in it."""
  import meterstick as ms
  if not spec.get('outer'):
    return m
  return ms.MetricList([m], where=conds.to_where(spec['outer']))


def spread(want, m):
  """Whether some standard error is finite and positive."""
  step = len(want.cols) // max(1, len(tree.cols(m)))
  for v in want.rows.values():
    for a, b in zip(v[::step], v[1::step]):
      if not isnull(b) and math.isfinite(b) and (
          b > 0 if step == 2 else a != b):
        return True
  return False


@st.composite
def gen_adjusted(draw):
  m = draw(c10.gen_metric(cov_max=2))
  return {'table': draw(c10.gen_table()), 'child': m,
          'unit': draw(st.sampled_from(['s', 's', 'u'])),
          'split': draw(st.sampled_from([[], [], ['g']])),
          'confidence': draw(st.sampled_from([None, None, 0.9])), 'w': [],
          'melted': draw(st.integers(0, 3)) == 0}


SUITES = [Suite("adjusted", gen_adjusted, run, 480, 10000),
          Suite("loo", gen_case, run, 2400, 80000)]
