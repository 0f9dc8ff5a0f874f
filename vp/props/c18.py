"""C18: resampling in SQL."""
import contextlib
import io

from hypothesis import strategies as st

from vp import boot, bq, case, conds, dsl, gen, obs, ref, sqlcase, table, tgen, tree
from vp.core import Skip, Suite, close, isnull, require, sut
from vp.props import c02, c11, c15

RULE = ('a random table with a unit column x a random child (leaves, '
        'arithmetic, lists, operations, filters) x split_by x confidence x '
        'mode (SQL, mixed, mixed in batches); the generated queries are run by '
        'an own interpreter of BigQuery SQL. Jackknife: point estimate, '
        'standard error or t-interval against brute-force leave-one-unit-out '
        'recomputation with the reference evaluator. non-trivial = some '
        'finite positive standard error')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Dot', 'Max', 'Min', 'Variance',
          'StandardDeviation', 'Cov', 'Quantile']
MODES = [None, None, None, 'mixed', 'batch']


@st.composite
def gen_jackknife(draw):
  spec = draw(c11.gen_case(leaf_sets=[LEAVES, c11.PRE, c11.PRE]))
  c15.supported(spec['child'])
  spec['mode'] = draw(st.sampled_from(MODES))
  spec['tbl'] = draw(st.sampled_from(sorted(sqlcase.TABLES)))
  spec['outer'] = draw(conds.where()) if draw(st.booleans()) else []
  return sqlcase.odd(spec) if draw(st.integers(0, 7)) == 0 else spec


def nested(got, m, spec):
  """In SQL, a list may have the estimate and its error in one level."""
  if not spec.get('outer') or any(isinstance(c, tuple) for c in got[1]):
    return got
  name = 'Bootstrap' if 'poisson' in spec else 'Jackknife'
  want = [(c, s) for c in tree.cols(m)
          for s in ('Value', '%s SE' % name)]
  flat = [c if s == 'Value' else '%s %s' % (c, s) for c, s in want]
  require(list(got[1]) == flat, 'columns %s, expected %s', got[1], flat)
  if spec.get('poisson'):
    want = [(c, s.replace('Boot', 'Poisson Boot')) for c, s in want]
  return got[0], want, got[2]


def run_jackknife(spec):
  import meterstick as ms
  from meterstick import utils
  m, split = spec['child'], spec['split']
  rows = conds.keep(spec['w'] + spec.get('outer', []),
                    table.to_rows(spec['table']))
  if sqlcase.ghosts({'t': 'List', 'c': [m]}, rows, split):
    raise Skip('counts of slices without rows')
  with ref.sql():
    want = c11.expected(spec, lambda m, *a: sqlcase.ghosts(
        {'t': 'Jackknife', 'child': m}, *a, types=None))
  for u in set(r[spec['unit']] for r in rows):
    if c11.patchy(m, [r for r in rows if r[spec['unit']] != u], split):
      raise Skip('replicates with only one of metric and covariate')
  melted = spec['melted'] and not all(
      isnull(v[0]) for v in want.rows.values()) and not spec.get('outer')
  labels = [m['t'], 'split%d' % len(split), 'mode:%s' % spec['mode']]
  kw = {'confidence': spec['confidence']}
  if spec['w']:
    kw['where'] = conds.to_where(spec['w'])
  mkw = {'mode': spec['mode']}
  if spec['mode'] == 'batch' and spec.get('outer'):
    mkw = {'mode': 'mixed'}
  elif spec['mode'] == 'batch':
    mkw = {'mode': 'mixed', 'batch_size': 2}
  for opt in (True, False):
    e = sqlcase.engine(spec['table'], 0)
    what = 'Jackknife(enable_optimization=%s)' % opt
    with sut(what), contextlib.redirect_stdout(io.StringIO()):
      jk = ms.Jackknife(spec['unit'], dsl.build(m), enable_optimization=opt,
                        **kw)
      if opt:
        labels.append('precomputed' if jk.can_precompute() else 'general')
      elif 'precomputed' not in labels:
        break
      res = c11.wrap(jk, spec).compute_on_sql(
          sqlcase.TABLES[spec['tbl']], list(split) or None, bq.execute(e),
          melted=melted, **mkw)
      if melted:
        res = utils.unmelt(res)
      got = obs.reorder(nested(obs.observe(res), m, spec), want.idx)
      got = sqlcase.spare(m, want, got, rows, split)
      obs.compare(got, want, what, rtol=1e-6, atol=1e-6, missing_is_nan=True,
                  any_level_order=case.broadcasts(m))
  if c11.spread(want, m):
    labels.append('nontrivial')
    if spec.get('outer'):
      labels.append('filtered list')
  return sorted(set(labels))



BLEAVES = ['Sum', 'Sum', 'Sum', 'Count', 'Mean', 'Dot', 'Max', 'Min',
           'Variance']
BOPS = [o for o in c11.OPS if o != 'Entropy']


@st.composite
def gen_bootstrap(draw, leaves=tuple(BLEAVES)):
  leaves = draw(st.sampled_from([list(leaves), list(leaves), c11.PRE]))
  o = tgen.Opts(leaves, where=draw(st.integers(0, 3)) == 0, depth=draw(
      st.integers(0, 2)), ops=BOPS, broadcast=False, pow_=False)
  child = c15.supported(draw(tgen.any_tree(o, ['h', 'p'])))
  if draw(st.integers(0, 11)) == 0:
    child = draw(tgen.twins(o))
  unit = draw(st.sampled_from(['u', 'u', 'v', 'u', 'v', 'h', None, None]))
  split = draw(st.sampled_from([[], [], ['g']]))
  poisson = draw(st.booleans())
  n = draw(st.integers(2, 3 if poisson else 4)) if unit is None else draw(
      st.sampled_from([4, 6, 8]))
  k = draw(st.integers(2, 3 if poisson or split else 4))
  t = draw(gen.table(
      min_n=n, max_n=n, g=2, h=2, x=draw(st.sampled_from(
          [('int',), ('quarter',), ('posint',)])), y=('posint', 'int'),
      extra={'p': st.integers(0, 1), 'u': st.sampled_from(c11.UNITS[:k]),
             'v': st.sampled_from(c11.SUNITS[:k])}))
  if unit and draw(st.integers(0, 7)):
    for name, vals in (('u', c11.UNITS), ('v', c11.SUNITS)):
      t['cols'][name][:4] = [vals[0], vals[1], vals[0], vals[1]]
    t['cols']['g'][:4] = draw(st.sampled_from([['a', 'a', 'b', 'b'],
                                               ['b', 'b', 'b', 'b']]))
  odd = sqlcase.odd if draw(st.integers(0, 7)) == 0 else lambda s: s
  outer = draw(conds.where(g=False)) if draw(st.booleans()) else []
  return odd({'table': t, 'child': child, 'outer': outer, 'unit': unit, 'split': split,
          'poisson': poisson, 'n': draw(st.sampled_from([2, 2, 2, 3])),
          'opt': draw(st.booleans()),
          'confidence': draw(st.sampled_from([None, None, 0.5, 0.9])),
          'w': draw(st.sampled_from([[], [], draw(conds.where(g=False))])),
          'mode': draw(st.sampled_from(MODES)), 'seed': draw(
              st.integers(0, 999)),
          'tbl': draw(st.sampled_from(sorted(sqlcase.TABLES)))})


def run_bootstrap(spec):
  import meterstick as ms
  m, split = spec['child'], spec['split']
  rows = conds.keep(spec['w'] + spec.get('outer', []),
                    table.to_rows(spec['table']))
  if not rows or c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  if sqlcase.ghosts({'t': 'List', 'c': [m]}, rows, split):
    raise Skip('counts of slices without rows')
  want = sqlcase.expected(m, rows, split)
  if all(isnull(x) for v in want.rows.values() for x in v):
    raise Skip('an empty result')
  vague = lambda m, *a: sqlcase.ghosts({'t': 'BS', 'child': m}, *a, types=None)
  kw = {'confidence': spec['confidence']}
  if spec['w']:
    kw['where'] = conds.to_where(spec['w'])
  mkw = {'mode': spec['mode']}
  if spec['mode'] == 'batch' and spec.get('outer'):
    mkw = {'mode': 'mixed'}
  elif spec['mode'] == 'batch':
    mkw = {'mode': 'mixed', 'batch_size': 1 + spec['seed'] % 3}
  e = sqlcase.engine(spec['table'], spec['seed'])
  cls = ms.PoissonBootstrap if spec['poisson'] else ms.Bootstrap
  what = cls.__name__
  labels = [m['t'], what, 'mode:%s' % spec['mode'], 'unit:%s' % spec['unit']]
  with sut(what), contextlib.redirect_stdout(io.StringIO()):
    bs = cls(spec['unit'], dsl.build(m), spec['n'], enable_optimization=spec['opt'],
             **kw)
    labels.append('precomputed' if bs.can_precompute() else 'general')
    try:
      res = c11.wrap(bs, spec).compute_on_sql(
          sqlcase.TABLES[spec['tbl']], list(split) or None, bq.execute(e), **mkw)
    except Exception:
      with ref.sql():
        if any(not r or r == 'open' for part in (
            ref.groups(rows, split) if split else {(): rows}).values()
               for r in boot.replicates(m, part, spec['unit'], spec['poisson'],
                                        2, vague)):
          raise Skip('a resample is too sparse')
      raise
    got = obs.reorder(nested(obs.observe(res), m, spec), want.idx)
    got = sqlcase.spare(m, want, got, rows, split)
    with ref.sql():
      if boot.check(got, spec, want, rows, what, spec['poisson'], vague):
        labels.append('nontrivial')
  return labels



@st.composite
def gen_spread(draw):
  unit = draw(st.sampled_from(['u', None]))
  n = draw(st.integers(5, 8))
  cols = {'x': draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
          'u': [c11.UNITS[i % 5] for i in range(n)],
          'g': draw(st.lists(st.sampled_from('ab'), min_size=n, max_size=n))
          if draw(st.booleans()) else ['a'] * n}
  return {'table': {'n': n, 'cols': cols}, 'unit': unit,
          'poisson': draw(st.booleans()), 'seed': draw(st.integers(0, 999)),
          'opt': draw(st.booleans()), 'split': draw(st.sampled_from([[], ['g']])),
          'child': draw(st.sampled_from(
              [{'t': 'Sum', 'var': 'x'},
               {'t': 'op', 'op': '-', 'a': 0, 'b': {'t': 'Sum', 'var': 'x'}}])),
          'batch': draw(st.sampled_from([None, None, 0, 1, 7, 100, 300])),
          'w': draw(st.sampled_from([[], [], [['x', '>', 2]]]))}


N = 300


def variance(rows, unit, poisson):
  """The variance of a bootstrapped sum."""
  totals = [sum(r['x'] for r in rs) for rs in boot.blocks(rows, unit)]
  if poisson:
    return sum(t * t for t in totals)
  mean = sum(totals) / len(totals)
  return sum((t - mean) ** 2 for t in totals)


def run_spread(spec):
  import meterstick as ms
  m, split = spec['child'], spec['split']
  rows = conds.keep(spec['w'], table.to_rows(spec['table']))
  if not rows:
    raise Skip('filters leave nothing')
  kw = {'where': conds.to_where(spec['w'])} if spec['w'] else {}
  mkw = {}
  if spec['batch'] is not None:
    mkw = {'mode': 'mixed', 'batch_size': spec['batch'] or None}
  e = sqlcase.engine(spec['table'], spec['seed'])
  cls = ms.PoissonBootstrap if spec['poisson'] else ms.Bootstrap
  with sut('bootstrap'):
    bs = cls(spec['unit'], dsl.build(m), N, enable_optimization=spec['opt'],
             **kw)
    res = bs.compute_on_sql('T', split or None, bq.execute(e), **mkw)
    got = obs.observe(res)[2]
    for k, part in (ref.groups(rows, split) if split else {(): rows}).items():
      want = variance(part, spec['unit'], spec['poisson']) ** 0.5
      se = got[k][1]
      require(close(se, want, 0.33, 1e-9) or spec['poisson'] and len(
          part) < 3, 'slice %s: the spread of %d replicates is %s, expected '
              'around %s', k, N, se, want)
  return ['nontrivial', cls.__name__, 'unit:%s' % spec['unit'],
          'batch:%s' % spec['batch']]


@st.composite
def gen_adjusted(draw):
  spec = draw(c11.gen_adjusted())
  c15.supported(spec['child'])
  return dict(spec, mode=draw(st.sampled_from(MODES)),
              tbl=draw(st.sampled_from(sorted(sqlcase.TABLES))))


SUITES = [Suite('adjusted', gen_adjusted, run_jackknife, 400, 10000),
          Suite("jackknife", gen_jackknife, run_jackknife, 2000, 60000),
          Suite('bootstrap', gen_bootstrap, run_bootstrap, 2400, 60000),
          Suite('spread', gen_spread, run_spread, 120, 4000)]
