"""C17: mixed-mode SQL, and histories of calls over tables, modes and splits."""
import json

from hypothesis import strategies as st

from vp import case, gen, obs, sqlcase, table, tgen
from vp.core import Skip, Suite, Violation, sut
from vp.props import c02, c05, c15, c16

RULE = ('a random table x a random tree of operations, arithmetic, lists and '
        'filters x split_by in mixed mode, and random histories of calls on '
        'the same metric objects over two tables, modes (None, mixed, '
        'DataFrame), splits and caches: the generated queries, run by an own '
        'interpreter of BigQuery SQL, against the reference evaluator; '
        'non-trivial = at least 2 rows and a finite non-zero expected value')


@st.composite
def gen_case(draw):
  spec = draw(c16.gen_case())
  spec['mode'] = 'mixed'
  return spec


run = c15.run
LEAVES = [t for t in c16.LEAVES if t != 'Nth']
MODES = [None, 'mixed', 'df']


@st.composite
def gen_history(draw):
  spec = draw(c16.gen_case(leaves=LEAVES))
  t = spec['table']
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('coarse',)]))
  other = draw(gen.table(min_n=1, max_n=16, x=kinds, y=kinds,
                         extra={'p': st.integers(0, 1),
                                'i': st.sampled_from(['r', 's'])}))
  metrics = [spec['metric']]
  if draw(st.booleans()):
    o = tgen.Opts(LEAVES, where=draw(st.booleans()), depth=1, ops=c16.OPS)
    metrics.append(c15.supported(draw(tgen.any_tree(o, ['g', 'h', 'p']))))
    if draw(st.booleans()):  # Shares a subtree with the first.
      over = 'g'
      metrics[1] = {'t': 'op', 'op': draw(st.sampled_from(['+', '*'])),
                    'a': {'t': 'ref', 'i': 0}, 'b': draw(
                        st.sampled_from([1, 2, 0.5]))}
  steps = draw(st.lists(st.fixed_dictionaries({
      'm': st.integers(0, len(metrics) - 1),
      't': st.integers(0, 1),
      'mode': st.sampled_from(MODES),
      'cache': st.sampled_from([None, None, 0, 1]),
      'tbl': st.sampled_from(['T', 'T', 'sub']),
      'split': st.sampled_from([[], ['i'], ['i', 'f']]),
  }), min_size=2, max_size=5))
  return {'tables': [t, other], 'metrics': metrics, 'steps': steps,
          'seed': draw(st.integers(0, 9))}


def run_history(spec):
  specs = [c05.resolve(m, spec['metrics']) for m in spec['metrics']]
  rows = [table.to_rows(t) for t in spec['tables']]
  wants = {}
  for s in spec['steps']:
    k = (s['m'], s['t'], tuple(s['split']), s['mode'] == 'df')
    if k not in wants:
      if k[3] and c02.emptied(specs[s['m']], rows[s['t']]):
        raise Skip('filters leave nothing')
      expected = case.expected if k[3] else sqlcase.expected
      wants[k] = expected(specs[s['m']], rows[s['t']], s['split'])
  engines = [sqlcase.engine(t, spec['seed']) for t in spec['tables']]
  dfs = [table.to_df(t) for t in spec['tables']]
  with sut('build'):
    objs = []
    for m in spec['metrics']:
      objs.append(c05.build(m, objs))
  caches = [{}, {}]
  labels = []
  for i, s in enumerate(spec['steps']):
    m, split = specs[s['m']], s['split']
    want = wants[(s['m'], s['t'], tuple(split), s['mode'] == 'df')]
    what = 'step %d: %s on table %d by %s' % (
        i, s['mode'] or 'sql', s['t'], split)
    kw = {}
    if s['cache'] is not None:
      # a cache key stands for one table or one DataFrame
      kw = {'cache_key': '%s%d' % (
          'df' if s['mode'] == 'df' else 'table', s['t']), 'cache': caches[s['cache']]}
    with sut(what):
      if s['mode'] == 'df':
        got = objs[s['m']].compute_on(dfs[s['t']], split or None, **kw)
        case.check(got, m, want, what)
      else:
        got = sqlcase.compute(None, engines[s['t']], split, s['mode'],
                              s['tbl'], build=lambda _: objs[s['m']], **kw)
        sqlcase.check(got, m, want, rows[s['t']], split, what)
    labels += ['mode:%s' % s['mode'], 'cache' if kw else 'nocache']
  labels += case.labels(specs[0], want, rows[0], [])
  if all(len(r) > 1 for r in rows) and any(
      isinstance(x, (int, float)) and x == x and x for w in wants.values()
      for v in w.rows.values() for x in v):
    labels.append('nontrivial')
  return sorted(set(labels))


@st.composite
def gen_adjusted(draw):
  return dict(draw(c16.gen_adjusted()), mode='mixed')


SUITES = [Suite('adjusted', gen_adjusted, c16.run_adjusted, 1000, 20000),
          Suite('mixed', gen_case, run, 5000, 100000),
          Suite('history', gen_history, run_history, 2500, 60000)]
