"""C16: SQL of operations."""
from hypothesis import strategies as st

from vp import case, dsl, gen, obs, sqlcase, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02, c10, c15

RULE = ('a random table x a random tree of operations (nested, listed, in '
        'arithmetic, filtered) over simple metrics x split_by: the generated '
        'query, run by an own interpreter of BigQuery SQL, against the '
        'reference evaluator; distributions cumulated in a given order over '
        'operations against compute_on; non-trivial = at least 2 rows and a finite '
        'non-zero expected value')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot', 'Variance',
          'Nth', 'Quantile']
OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'AbsoluteChange', 'MH', 'HHI', 'Entropy', 'TopK', 'Nxx']
MODE = None


@st.composite
def gen_case(draw, ops=OPS, leaves=LEAVES):
  o = tgen.Opts(leaves, where=draw(st.booleans()), depth=draw(
      st.integers(0, 2)), ops=ops)
  m = draw(tgen.any_tree(o, ['g', 'h', 'p']))
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',), ('coarse',)]))
  odd = sqlcase.odd if draw(st.integers(0, 7)) == 0 else lambda s: s
  return odd({'table': draw(gen.table(min_n=1, max_n=16, x=kinds, y=kinds,
                                  extra={'p': st.integers(0, 1),
                                         'i': st.sampled_from(['r', 's'])})),
          'metric': c15.supported(m), 'mode': MODE,
          'tbl': draw(st.sampled_from(sorted(sqlcase.TABLES))),
          'seed': draw(st.integers(0, 9)),
          'split': draw(st.sampled_from([[], [], ['i'], ['i', 'f']]))})


run = c15.run
@st.composite
def gen_adjusted(draw):
  m = c15.supported(draw(c10.gen_metric()))
  return {'table': draw(c10.gen_table()), 'metric': m, 'mode': MODE,
          'tbl': draw(st.sampled_from(sorted(sqlcase.TABLES))),
          'seed': draw(st.integers(0, 9)),
          'split': draw(c10.splits(m))}


def run_adjusted(spec):
  if c02.emptied(spec['metric'], table.to_rows(spec['table'])):
    raise Skip('filters leave nothing')
  return run(spec)


@st.composite
def gen_ordered(draw):
  """A distribution cumulated in a given order over an operation."""
  over, cond, base = draw(st.sampled_from([('v', 'h', 1), ('h', 'v', 'r'),
                                           ('h', 'p', 0), ('v', 'p', 1)]))
  vals = {'h': [1, 2, 3], 'v': ['r', 's', 't']}[over]
  order = list(draw(st.permutations(vals)))
  k = draw(st.integers(0, 3))
  if k == 0:
    order = order[:-1]
  elif k == 1:
    order.insert(1, 'zz' if over == 'v' else 77)
  leaf = draw(tgen.leaf(tgen.Opts(['Sum', 'Count', 'Mean', 'Max'],
                                  where=False, nulls=False)))
  if draw(st.booleans()):
    child = {'t': 'Distribution', 'over': cond, 'child': leaf}
  else:
    child = {'t': 'AbsoluteChange', 'cond': cond, 'base': base,
             'include_base': draw(st.booleans()), 'child': leaf}
  m = {'t': 'CumulativeDistribution', 'over': over, 'order': order,
       'ascending': draw(st.booleans()), 'child': child}
  if draw(st.integers(0, 2)) == 0:
    m = {'t': 'op', 'op': '*', 'a': m, 'b': 2}
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',)]))
  return {'table': draw(gen.table(min_n=3, max_n=20, x=kinds, y=kinds, extra={
      'p': st.integers(0, 1), 'v': st.sampled_from(['r', 's', 't']),
      'i': st.sampled_from(['r', 's'])})),
          'metric': m, 'mode': draw(st.sampled_from([None, None, 'mixed'])),
          'tbl': draw(st.sampled_from(sorted(sqlcase.TABLES))),
          'seed': draw(st.integers(0, 9)),
          'split': draw(st.sampled_from([[], [], ['i']]))}


def run_ordered(spec):
  m, split = spec['metric'], spec['split']
  df = table.to_df(spec['table'])
  if not len(df):
    raise Skip('no rows')
  try:
    with sut('compute_on'):
      a = obs.observe(dsl.build(m).compute_on(df, list(split)))
      c = m['a'] if m['t'] == 'op' else m
      c = dsl.build(dict(c, t='Distribution')).compute_on(df, list(split))
      if c.isna().any().any():
        raise Skip('null shares')
  except Violation:
    raise Skip('compute_on raises (decided by C07 and C08)')
  if any(isnull(v) or abs(v) > 1e9 for r in a[2].values() for v in r):
    raise Skip('null or infinite shares')
  e = sqlcase.engine(spec['table'], spec['seed'])
  with sut('compute_on_sql'):
    b = sqlcase.compute(m, e, split, spec['mode'], spec['tbl'])
    b = obs.reorder(obs.observe(b), a[0])
  extra = {k: v for k, v in b[2].items() if k not in a[2] and not all(
      isnull(x) for x in v)}
  require(not extra, 'rows %s are not in the result of compute_on', extra)
  for k, r in a[2].items():
    require(k in b[2], 'row %s is missing', k)
    for x, y in zip(r, b[2][k]):
      require(close(x, y, 1e-9, 1e-9), 'at %s, %r in compute_on but %r in SQL',
              k, x, y)
  return ['rows%d' % min(len(a[2]), 4)] + (['nontrivial'] if len(a[2]) > 1
                                           else [])


SUITES = [Suite('adjusted', gen_adjusted, run_adjusted, 1500, 30000),
          Suite('ordered', gen_ordered, run_ordered, 1000, 20000),
          Suite('tree', gen_case, run, 8000, 150000)]
