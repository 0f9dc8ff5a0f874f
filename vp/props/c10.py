"""C10: CUPED and PrePostChange."""
import copy

from hypothesis import strategies as st

from vp import case, dsl, gen, obs, table, tgen, tree
from vp.core import Skip, Suite, sut
from vp.props import c02

RULE = ('a random table with a pre- and a post-period x CUPED or PrePostChange '
        '(one or two condition columns, zero to two stratifying columns, one '
        'to three covariates, one or more changed metrics) x split_by, against '
        'regressions fitted by an own least-squares solver; also invariance '
        'under row order and shifts and rescaling of covariates; non-trivial = '
        'at least 2 rows and a finite non-zero expected value')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Mean', 'Max', 'Min', 'Dot', 'Variance',
          'Quantile']
DIMS = {'g': ['a', 'b', 'c'], 'h': [1, 2, 3], 'p': [0, 1]}


@st.composite
def gen_table(draw, dims=True):
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([4, 10, 16])), max_n=20,
                     x=kinds, y=kinds, nullable=False, extra={
                         'p': st.integers(0, 1), 'i': st.integers(0, 1),
                         's': st.sampled_from(['k', 'B', 'a', 'c']),
                         'u': st.sampled_from([0, 1, 2])}))
  n = t['n']
  pre = draw(gen.table(min_n=n, max_n=n, x=kinds, y=kinds, nullable=False))
  cols = {}
  for c, v in t['cols'].items():
    v2 = pre['cols'][c] if c in ('x', 'y', 'w', 'f') else v
    if c == 'k':
      v2 = [n + i for i in v]
    cols[c] = list(v) + list(v2)
  cols['pre'] = [0] * n + [1] * n
  return {'cols': cols, 'n': 2 * n, 'index': t['index']}


@st.composite
def leaf(draw, pre, depth=0):
  m = draw(tgen.single(tgen.Opts(LEAVES, False, 1, nulls=False, pow_=False),
                       depth))
  if draw(st.integers(0, 2)):
    m['w'] = [['pre', '==', pre]]
  return m


@st.composite
def gen_metric(draw, cov_max=3, children=True):
  cond = draw(st.permutations(['h', 'p']))[:draw(st.sampled_from([1, 1, 2]))]
  base = [draw(st.sampled_from(DIMS[c][:2])) for c in cond]
  m = {'t': draw(st.sampled_from(['CUPED', 'PrePostChange'])),
       'include_base': draw(st.booleans())}
  if len(cond) == 1:
    m.update(cond=draw(st.sampled_from([cond[0], cond])), base=base[0])
  else:
    m.update(cond=cond, base=base)
  m['strat'] = draw(st.sampled_from(['s', ['s'], ['s', 'u'], ['u', 's'],
                                     ['s', 'u'], ['u', 's'], 'k', 'k', None]))
  if m['strat'] == 'k':
    m['strat'] = ['s', 'u', 'i']
  k = draw(st.integers(0, 5)) if children else 0
  if k <= 3:
    m['child'] = draw(leaf(0, draw(st.integers(0, 1))))
  else:
    m['child'] = {'t': 'List', 'c': tgen.unique(
        [draw(leaf(0)) for _ in range(draw(st.integers(1, 3)))])}
    if draw(st.integers(0, 2)) == 0:
      m['child']['tmpl'] = 'pre {}'
  n = draw(st.sampled_from([1, 1, 1, 2, 3]))
  n = min(n, cov_max)
  cov = tgen.unique([draw(leaf(1)) for _ in range(n)])
  if draw(st.integers(0, 2)) == 0 and n == 1 and m['child']['t'] != 'List':
    cov = [copy.deepcopy(m['child'])]  # the same metric before
    cov[0]['w'] = [['pre', '==', 1]]
    m['child']['w'] = [['pre', '==', 0]]
  m['cov'] = cov if n > 1 or draw(st.booleans()) else cov[0]
  if draw(st.integers(0, 2)) == 0:
    m['w'] = [draw(st.sampled_from([['x', '>', -4], ['f', '<=', 3],
                                    ['h', '!=', 3]]))]
  return m


def splits(m):
  return st.sampled_from([[], ['g']] + (
      [['g', 'i'], ['i', 'g']] if 'i' not in (m['strat'] or []) else []))


@st.composite
def gen_case(draw):
  t = draw(gen_table())
  m = draw(gen_metric())
  return {'table': t, 'metric': m, 'split': draw(splits(m)),
          'shift': draw(st.sampled_from([0, 1, -3.5, 1000])),
          'scale': draw(st.sampled_from([1, 2, -0.5, 100])),
          'perm': draw(st.permutations(list(range(t['n']))))}


def run(spec):
  m, split, t = spec['metric'], spec['split'], spec['table']
  rows = table.to_rows(t)
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  with sut('compute_on'):
    df = table.to_df(t)
    res = dsl.build(m).compute_on(df, list(split))
    case.check(res, m, want, rtol=1e-6, atol=1e-6)
  labels = case.labels(m, want, rows, split)
  m2 = copy.deepcopy(m)
  cov = m2['cov'] if isinstance(m2['cov'], list) else [m2['cov']]
  cov = [{'t': 'op', 'op': '+', 'b': spec['shift'],
          'a': {'t': 'op', 'op': '*', 'a': c, 'b': spec['scale']}} for c in cov]
  m2['cov'] = cov if isinstance(m['cov'], list) else cov[0]
  with sut('covariates moved, rows permuted'):
    df2 = table.to_df(table.take(t, spec['perm']))
    other = dsl.build(m2).compute_on(df2, list(split))
    case.check(other, m, want, 'covariates moved, rows permuted',
               rtol=1e-5, atol=1e-5)
  if isinstance(m['cov'], list):
    labels.append('covariates:%d' % len(m['cov']))
  return labels


SUITES = [Suite('adjusted', gen_case, run, 3000, 60000)]
