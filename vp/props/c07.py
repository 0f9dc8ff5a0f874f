"""C07: Distribution and CumulativeDistribution."""
from hypothesis import strategies as st

from vp import case, dsl, gen, obs, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02

RULE = ('a random table x Distribution/Normalize/CumulativeDistribution (one or '
        'two over columns, every sort option, explicit orders that omit or '
        'invent values) of a random child x split_by, against the reference '
        'evaluator, plus the order of the rows of the result; non-trivial = at '
        'least 2 rows and a finite non-zero expected value')
O = tgen.Opts([l for l in tgen.ALL if l != 'Nth'], depth=1,
              ops=['Distribution', 'Normalize', 'CumulativeDistribution',
                   'CumulativeDistribution'], broadcast=False)
NEST = ['Distribution', 'AbsoluteChange', 'PercentChange']


@st.composite
def gen_case(draw):
  dims = ['h', 'p', 's']
  m, used = draw(tgen.wrapper(O, ['h', 'p']))
  if draw(st.integers(0, 4)) == 0:
    m.pop('order', None)
    if isinstance(m['over'], str):
      m['over'] = 's'
    else:
      m['over'] = ['s'] + [c for c in m['over'] if c != 's'][:1]
  if m['t'] == 'CumulativeDistribution' and not m.get('by_values') and len(
      m['over']) in (1, len(str(m['over']))) and draw(st.booleans()):
    c = m['over'] if isinstance(m['over'], str) else m['over'][0]
    vals = {'h': [1, 2, 3], 'p': [0, 1], 's': ['k', 'B', 'a', 'm']}[c]
    order = list(draw(st.permutations(vals)))
    k = draw(st.integers(0, 3))
    if k == 0:
      order = order[:-1]
    elif k == 1:
      order.insert(draw(st.integers(0, len(order))), 'zz' if c == 's' else 77)
    m['order'] = order
  if m['t'] != 'CumulativeDistribution' and draw(st.integers(0, 3)) == 0:
    over = [m['over']] if isinstance(m['over'], str) else m['over']
    rest = [c for c in ('h', 'p') if c not in over]
    if rest:
      oo = tgen.Opts(['Sum', 'Count', 'Mean'], ops=NEST, depth=0, width=3)
      m['child'] = draw(tgen.operation(oo, rest, 0))
  if 'child' not in m:
    m['child'] = draw(tgen.base(O))
  split = draw(st.sampled_from([[], ['g'], ['g'], ['g', 'i'], ['i', 'g']]))
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',),
                                ('coarse',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([1, 6, 12])), max_n=28, x=kinds,
                     y=kinds, extra={
                         'p': st.integers(0, 1), 'i': st.integers(0, 1),
                         's': st.sampled_from(['k', 'B', 'a', 'm'])}))
  return {'table': t, 'metric': m, 'split': split}


def run(spec):
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  with sut('compute_on'):
    df = table.to_df(spec['table'])
    res = dsl.build(m).compute_on(df, list(split))
    got = obs.observe(res)
    case.check(res, m, want)
  labels = case.labels(m, want, rows, split)
  if m['t'] != 'CumulativeDistribution' or m.get('w') and False:
    return labels
  n = len(split)
  keys = [k for k in got[2] if not all(isnull(v) for v in got[2][k])]
  slices = [k[:n] for k in keys]
  uniq = list(dict.fromkeys(slices))
  require(len(uniq) == sum(a != b for a, b in zip(slices, slices[1:])) + bool(
      slices), 'rows of a slice are not contiguous: %s', keys)
  if not m.get('by_values'):
    exp = [k for k in want.rows if k in set(keys)]
    for s in uniq:
      a = [k for k in keys if k[:n] == s]
      b = [k for k in exp if k[:n] == s]
      require(a == b, 'rows of slice %s in order %s, expected %s', s, a, b)
    labels.append('order:rows')
  elif len(want.cols) == 1:
    for s in uniq:
      vals = [got[2][k][0] for k in keys if k[:n] == s]
      if any(isnull(v) for v in vals):
        continue
      d = [b - a for a, b in zip([0] + vals, vals)]
      d = d if m.get('ascending', True) else d[::-1]
      require(all(a <= b + 1e-7 for a, b in zip(d, d[1:])),
              'shares of slice %s are not listed in order of value: %s', s, d)
      labels.append('order:values')
  return labels


SUITES = [Suite('distribution', gen_case, run, 8000, 200000)]
