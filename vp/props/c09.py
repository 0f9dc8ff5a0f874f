"""C09: Mantel-Haenszel."""
from hypothesis import strategies as st

from vp import case, dsl, gen, obs, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02

RULE = ('a random table x MH (one or two condition columns, one or two '
        'stratifying columns) of a random ratio or list of ratios x split_by, '
        'against the closed form computed by hand; also invariance under '
        'relabelling and reordering of strata and equality with PercentChange '
        'for a single stratum; non-trivial = at least 2 rows and a finite '
        'non-zero expected value')
O = tgen.Opts(['Sum', 'Count', 'Mean', 'Max', 'Dot', 'Quantile', 'Variance'],
              depth=1, ops=['MH'])
STRAT = {'s': ['k', 'B', 'a'], 'u': [0, 1, 2], 'one': [7]}


@st.composite
def gen_case(draw):
  cond = draw(st.permutations(['h', 'p']))[:draw(st.sampled_from([1, 1, 2]))]
  vals = {'h': [1, 2, 3], 'p': [0, 1]}
  base = [draw(st.sampled_from(vals[c][:2])) for c in cond]
  m = {'t': 'MH', 'include_base': draw(st.booleans())}
  if len(cond) == 1:
    m.update(cond=draw(st.sampled_from([cond[0], cond])), base=base[0])
  else:
    m.update(cond=cond, base=base)
  strat = draw(st.sampled_from(['s', 'u', ['s'], ['u', 's'], ['s', 'u'], 'one',
                                ['one', 'u']]))
  m['strat'] = strat
  tgen.add_where(draw, m, O)
  inner = tgen.Opts(O.leaves, True, 1, (), 1, True, True)
  def ratio():
    k = draw(st.integers(0, 3))
    if k == 0:
      c = {'t': 'Ratio', 'num': draw(st.sampled_from(['x', 'y', 'f'])),
           'den': draw(st.sampled_from(['w', 'f']))}
      if draw(st.booleans()):
        c['name'] = 'ratio'
    else:
      c = {'t': 'op', 'op': '/', 'a': draw(tgen.single(inner, 1)),
           'b': draw(st.sampled_from([
               {'t': 'Sum', 'var': 'w'}, {'t': 'Count', 'var': 'x'},
               {'t': 'Sum', 'var': 'f'},
               {'t': 'Sum', 'var': 'f', 'w': [['x', '>', 0]]},
               {'t': 'Dot', 'var': 'w', 'var2': 'f'}]))}
      if draw(st.integers(0, 4)) == 0:
        c['name'] = 'named'
    return tgen.add_where(draw, c, O)
  if draw(st.booleans()):
    m['child'] = ratio()
  else:
    m['child'] = {'t': 'List', 'c': tgen.unique(
        [ratio() for _ in range(draw(st.integers(1, 3)))])}
    tgen.add_where(draw, m['child'], O)
  split = draw(st.sampled_from([[], ['g'], ['g'], ['g', 'i'], ['i', 'g']]))
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',),
                                ('coarse',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([2, 10, 20])), max_n=32,
                     x=kinds, y=kinds, extra={
                         'p': st.integers(0, 1), 'i': st.integers(0, 1),
                         's': st.sampled_from(STRAT['s']),
                         'u': st.sampled_from(STRAT['u']),
                         'one': st.just(7)}))
  return {'table': t, 'metric': m, 'split': split,
          'perm': draw(st.permutations(list(range(t['n']))))}


def run(spec):
  m, split, t = spec['metric'], spec['split'], spec['table']
  rows = table.to_rows(t)
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  with sut('compute_on'):
    df = table.to_df(t)
    res = dsl.build(m).compute_on(df, list(split))
    got = obs.observe(res)
    case.check(res, m, want)
  labels = case.labels(m, want, rows, split)
  t2 = table.take(t, spec['perm'])
  t2['cols'] = dict(t2['cols'])
  t2['cols']['u'] = [{0: 'z', 1: 'a', 2: 'm'}[v] for v in t2['cols']['u']]
  with sut('compute_on with relabelled strata'):
    other = obs.observe(dsl.build(m).compute_on(table.to_df(t2), list(split)))
  case_m = m
  c02.same(got, other, 'strata relabelled, rows permuted', case_m)
  if m['strat'] == 'one' and m['child']['t'] != 'List' and not any(
      n.get('w') for n in tree.walk(m) if isinstance(n, dict)):
    pc = dict(m, t='PercentChange')
    pc.pop('strat')
    try:
      w2 = case.expected(pc, rows, split)
    except Skip:
      return labels
    with sut('PercentChange with one stratum'):
      other = obs.observe(dsl.build(pc).compute_on(df, list(split)))
    for k, v in got[2].items():
      u = other[2].get(k)
      if u is None or isnull(u[0]) or isnull(v[0]) or abs(u[0]) > 1e9:
        continue
      require(close(u[0], v[0], 1e-6, 1e-6),
              'one stratum: MH gives %r at %s, PercentChange %r', v[0], k, u[0])
      labels.append('one_stratum')
  return labels


SUITES = [Suite('mh', gen_case, run, 5000, 120000)]
