"""C03: filters equal prefiltering."""
import copy

from hypothesis import strategies as st

from vp import case, conds, dsl, gen, obs, ref, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02

RULE = ('a random table x a metric tree with filters (one or several, with '
        '"or" inside) on random nodes x split_by, compared with the reference '
        'evaluator, with prefiltering the table, with add_where and with '
        'pushing the filters to the leaves; non-trivial = some filter is '
        'present, at least 2 rows and a finite non-zero value')
LEAVES = [l for l in tgen.ALL if l != 'Nth']
OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'AbsoluteChange', 'MH', 'HHI', 'TopK']
O = tgen.Opts(LEAVES, depth=3, ops=OPS, broadcast=False)


@st.composite
def gen_case(draw):
  m = draw(tgen.any_tree(O, ['h', 'p']))
  if draw(st.booleans()) and not m.get('w'):
    m['w'] = [draw(conds.cond())]
  t = draw(gen.table(min_n=draw(st.sampled_from([1, 8, 12])), max_n=24,
                     extra={'p': st.integers(0, 1)}))
  return {'table': t, 'metric': m,
          'split': draw(st.sampled_from([[], [], ['g'], ['g']])),
          'outer': draw(conds.where(max_n=3)), 'shuffle': draw(st.randoms(
              use_true_random=False)).randrange(1000)}


def run(spec):
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  with sut('compute_on'):
    df = table.to_df(spec['table'])
    got = dsl.build(m).compute_on(df, list(split))
    case.check(got, m, want)
  out = case.labels(m, want, rows, split)
  if 'filtered' not in out and 'nontrivial' in out:
    out.remove('nontrivial')

  outer = spec['outer']
  if outer:
    kept = conds.keep(outer, rows)
    ok = kept and not c02.emptied(m, kept) and not c02.tie_prone(m)
    if ok and not c02.baseline_missing(m, kept):
      try:
        ok = not any(ref.is_any(v) for r in case.expected(
            m, kept, split).rows.values() for v in r)
      except Skip:
        ok = False
      if not ok:
        return out
      with sut('filtering through add_where'):
        a = dsl.build(m)
        ws = [conds.render(c) for c in outer]
        k = spec['shuffle'] % 3
        if k == 0:
          for w in ws:
            a.add_where(w)
        elif k == 1:
          a.add_where(ws[::-1])
        else:
          a.where = ws + [conds.render(c) for c in m.get('w') or []]
        x = obs.observe(a.compute_on(df, list(split)))
        q = df.query(' and '.join('(%s)' % w for w in ws))
        y = obs.observe(dsl.build(m).compute_on(q, list(split)))
      c02.same(x, y, 'added filters vs prefiltered table', m)
      out.append('outer')
  return out


def run_push(spec):
  """Filters pushed to the leaves."""
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  if c02.emptied(m, rows) or case.has(m, 'Quantile'):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  from meterstick import utils
  with sut('push_filters_to_leaf'):
    metric = dsl.build(m)
    before = [(str(x), x.where) for x in metric.traverse()]
    pushed = utils.push_filters_to_leaf(metric)
    require([(str(x), x.where) for x in metric.traverse()] == before,
            'pushing the filters changed the original metric')
    for n in pushed.traverse():
      require(not n.children or not n.where, '%s still has a filter', n)
    df = table.to_df(spec['table'])
    case.check(pushed.compute_on(df, list(split)), m, want, 'pushed filters')
  return case.labels(m, want, rows, split)


@st.composite
def gen_push(draw):
  o = tgen.Opts([l for l in LEAVES if l != 'Quantile'], depth=3, ops=(
      'Distribution', 'AbsoluteChange'), broadcast=False)
  m = draw(tgen.any_tree(o, ['h', 'p']))
  t = draw(gen.table(min_n=8, max_n=20, extra={'p': st.integers(0, 1)}))
  return {'table': t, 'metric': m, 'split': draw(st.sampled_from([[], ['g']]))}


SUITES = [Suite('filters', gen_case, run, 6000, 150000),
          Suite('push', gen_push, run_push, 2000, 50000)]
