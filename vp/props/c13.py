"""C13: diversity metrics."""
import math

from hypothesis import strategies as st

from vp import case, dsl, gen, obs, ref, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02

RULE = ('a random table x HHI/Entropy/TopK/Nxx over one or two columns of a '
        'random child x split_by, against the definitions evaluated on the '
        'shares of the reference, plus the bounds 1/n <= HHI <= 1 and '
        '0 <= Entropy <= log(n) for non-negative values; non-trivial = at '
        'least 2 rows and a finite non-zero expected value')
O = tgen.Opts([l for l in tgen.ALL if l != 'Nth'], depth=1,
              ops=['HHI', 'Entropy', 'TopK', 'Nxx'], broadcast=False)
POS = tgen.Opts(['Sum', 'Count', 'Mean', 'Max'], depth=1, ops=O.ops,
                broadcast=False, pow_=False)


@st.composite
def gen_case(draw):
  o = draw(st.sampled_from([O, POS, POS]))
  m, used = draw(tgen.wrapper(o, ['h', 's']))
  if m['t'] == 'Nxx':
    m['share'] = draw(st.sampled_from([
        0.1, 0.2, 0.25, 0.3, 0.37, 0.5, 0.6, 0.75, 0.8, 0.9, 0.95, 1.0]))
  m['child'] = draw(tgen.base(o))
  if len(tree.cols(m)) == 1 and draw(st.integers(0, 5)) == 0:
    m = {'t': 'op', 'op': draw(st.sampled_from(['+', '*', '-', '/'])), 'a': m,
         'b': draw(st.sampled_from([1, 2, 0.5]))}
  split = draw(st.sampled_from([[], ['g'], ['g'], ['g', 'i'], ['i', 'g']]))
  kinds = draw(st.sampled_from([('posint',), ('nonneg',), ('posquarter',),
                                ('coarse',), ('int',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([1, 6, 14])), max_n=30, x=kinds,
                     y=kinds, h=3, extra={
                         'i': st.integers(0, 1), 'p': st.integers(0, 1),
                         's': st.sampled_from(['k', 'B', 'a', 'm', 'q'])}))
  return {'table': t, 'metric': m, 'split': split}


def run(spec):
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  with sut('compute_on'):
    df = table.to_df(spec['table'])
    res = dsl.build(m).compute_on(df, list(split))
    got = obs.observe(res)
    case.check(res, m, want)
  labels = case.labels(m, want, rows, split)
  if m['t'] in ('HHI', 'Entropy') and m['child']['t'] in ('Sum', 'Count') and (
      not m.get('w') and not m['child'].get('w')):
    over = [m['over']] if isinstance(m['over'], str) else m['over']
    child = tree.ev(m['child'], rows, split + over)
    for k, v in got[2].items():
      mine = [c[0] for kk, c in child.rows.items() if kk[:len(split)] == k]
      if any(isnull(c) or c < 0 for c in mine) or not sum(mine):
        continue
      n = len(mine)
      lo, hi = (1 / n, 1) if m['t'] == 'HHI' else (0, math.log(n))
      require(lo - 1e-9 <= v[0] <= hi + 1e-9, '%s of %s is %r', m['t'], mine,
              v[0])
      labels.append('bounds')
  return labels


SUITES = [Suite('diversity', gen_case, run, 6000, 150000)]
