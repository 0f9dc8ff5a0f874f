"""C15: SQL of simple metrics, arithmetic, lists, names and filters."""
from hypothesis import strategies as st

from vp import case, conds, gen, mgen, sqlcase, table, tgen, tree
from vp.core import Skip, Suite, sut

RULE = ('a random table x a random tree of simple metrics, arithmetic, lists, '
        'names and filters x split_by x mode: the generated query, run by an '
        'own interpreter of BigQuery SQL, against the reference evaluator; '
        'non-trivial = at least 2 rows and a finite non-zero expected value')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot', 'Variance',
          'StandardDeviation', 'CV', 'Correlation', 'Cov', 'Nth', 'Quantile']


def supported(m):
  for n in tree.walk(m):
    if isinstance(n, dict):
      if n['t'] == 'Correlation' and n.get('method', 'pearson') != 'pearson':
        n['method'] = 'pearson'
  return m


@st.composite
def gen_case(draw):
  o = tgen.Opts(LEAVES, where=True, depth=draw(st.integers(0, 3)))
  k = draw(st.integers(0, 3))
  if k == 0:
    m = draw(tgen.mlist(o, 2))
  elif k == 1:
    m = draw(tgen.expr(o, 1, a=draw(tgen.mlist(o, 1))))
  else:
    m = draw(tgen.single(o, 3))
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('coarse',)]))
  return {'table': draw(gen.table(min_n=1, max_n=16, x=kinds, y=kinds)),
          'metric': supported(m), 'mode': draw(st.sampled_from([None, None, 'mixed'])),
          'tbl': draw(st.sampled_from(sorted(sqlcase.TABLES))),
          'melted': draw(st.integers(0, 5)) == 0,
          'seed': draw(st.integers(0, 9)),
          'split': draw(st.sampled_from([[], ['g'], ['g', 'h'], ['h']]))}


def run(spec):
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  want = sqlcase.expected(m, rows, split)
  e = sqlcase.engine(spec['table'], spec['seed'])
  with sut('compute_on_sql'):
    got = sqlcase.compute(m, e, split, spec['mode'], spec['tbl'])
    sqlcase.check(got, m, want, rows, split, 'compute_on_sql')
  return case.labels(m, want, rows, split) + ['mode:%s' % spec['mode']]


@st.composite
def gen_quantile(draw):
  n = draw(st.sampled_from([101, 101, 201, 51]))
  x = draw(st.permutations(list(range(n))))
  o = tgen.Opts(['Quantile'], where=False, ratio=False, nulls=False)
  m = draw(tgen.leaf(o))
  m.pop('weight', None)
  m['var'] = 'x'
  if draw(st.integers(0, 2)) == 0:
    m['q'] = draw(st.integers(0, 100)) / 100
  if draw(st.booleans()):
    m = {'t': 'List', 'c': [m, {'t': 'Sum', 'var': 'x'}]}
  return {'table': {'n': n, 'cols': {'x': x, 'g': ['a'] * n}}, 'metric': m,
          'mode': None, 'tbl': 'T', 'seed': 0,
          'split': draw(st.sampled_from([[], ['g']]))}


@st.composite
def gen_weighted(draw):
  other = draw(st.sampled_from(['Quantile'] * 4 + [
      'Mean', 'Variance', 'StandardDeviation', 'Correlation', 'Cov']))
  m = draw(mgen.simple([other]))
  if other == 'Quantile':
    m.update(var=draw(st.sampled_from(['x', 'xn'])), weight='w')
    m.pop('interp', None)
    m['q'] = draw(st.sampled_from([0, 0.25, 0.5, 0.75, 1, 0.125, 0.3, m['q']]))
  w = draw(conds.where())
  if w:
    m['w'] = w
  if draw(st.integers(0, 2)) == 0:
    m = {'t': 'List', 'c': tgen.unique([
        m, draw(tgen.leaf(tgen.Opts(LEAVES, where=True)))])}
    w = draw(conds.where())
    if w:
      m['w'] = w
  t = draw(gen.table(min_n=1, max_n=10, x=('int', 'coarse')))
  t['cols']['w'] = draw(st.lists(st.sampled_from(draw(st.sampled_from(
      [[1], [1, 2], [1, 2, 4, 0.5], [1, 2, 0.5, None]]))), min_size=t['n'], max_size=t['n']))
  return {'table': t, 'metric': supported(m), 'mode': None, 'tbl': 'T',
          'seed': 0, 'split': draw(st.sampled_from([[], ['g'], ['g', 'h']]))}


SUITES = [Suite('tree', gen_case, run, 5000, 100000),
          Suite('quantile', gen_quantile, run, 400, 8000),
          Suite('weighted_quantile', gen_weighted, run, 2000, 40000)]
