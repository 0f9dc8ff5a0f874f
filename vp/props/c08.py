"""C08: PercentChange and AbsoluteChange."""
from hypothesis import strategies as st

from vp import case, dsl, gen, obs, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02

RULE = ('a random table x PercentChange/AbsoluteChange (one or two condition '
        'columns of numbers or strings, with or without the baseline row, '
        'possibly nested or combined) of a random child x split_by, against '
        'the reference evaluator, plus presence of the baseline rows; '
        'non-trivial = at least 2 rows and a finite non-zero expected value')
O = tgen.Opts([l for l in tgen.ALL if l != 'Nth'], depth=1,
              ops=['PercentChange', 'AbsoluteChange'], broadcast=False)
VALS = {'h': [1, 2, 3], 'p': [0, 1], 's': ['k', 'B', 'a'], 'g': ['a', 'b', 'c'],
        'q': [-1, -2, 0.5]}


@st.composite
def gen_case(draw):
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',),
                                ('coarse',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([2, 8, 14])), max_n=28, x=kinds,
                     y=kinds, extra={
                         'p': st.integers(0, 1), 'i': st.integers(0, 1),
                         's': st.sampled_from(VALS['s']),
                         'q': st.sampled_from(VALS['q'])}))
  cond = draw(st.permutations(['h', 'p', 's', 'q']))[:draw(
      st.sampled_from([1, 1, 2, 3]))]
  if draw(st.integers(0, 9)):
    i = draw(st.integers(0, t['n'] - 1))
    base = [t['cols'][c][i] for c in cond]
  else:
    base = [draw(st.sampled_from(VALS[c])) for c in cond]
  m = {'t': draw(st.sampled_from(O.ops)),
       'include_base': draw(st.booleans())}
  if len(cond) == 1 and draw(st.booleans()):
    m.update(cond=cond[0], base=base[0])
  elif len(cond) == 1:
    m.update(cond=cond, base=base[0])
  else:
    m.update(cond=cond, base=base)
  tgen.add_where(draw, m, O)
  rest = [c for c in ('h', 'p') if c not in cond]
  if rest and draw(st.integers(0, 3)) == 0:
    oo = tgen.Opts(['Sum', 'Count', 'Mean'], ops=[
        'Distribution', 'AbsoluteChange', 'PercentChange'], depth=0)
    m['child'] = draw(tgen.operation(oo, rest, 0))
  else:
    m['child'] = draw(tgen.base(O))
  if len(tree.cols(m)) == 1 and draw(st.integers(0, 4)) == 0:
    m = {'t': 'op', 'op': draw(st.sampled_from(['+', '*', '-'])), 'a': m,
         'b': draw(st.sampled_from([1, 0.01, 100]))}
  split = draw(st.sampled_from([[], ['g'], ['g'], ['g', 'i'], ['i', 'g']]))
  return {'table': t, 'metric': m, 'split': split}


def run(spec):
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  with sut('compute_on'):
    df = table.to_df(spec['table'])
    res = dsl.build(m).compute_on(df, list(split))
    got = obs.observe(res)
    case.check(res, m, want)
  labels = case.labels(m, want, rows, split)
  if m['t'] == 'op' or any(n.get('w') for n in tree.walk(m)
                           if isinstance(n, dict)) or tree.extra_idx(m['child']):
    return labels
  # Rows: exactly one per combination present, minus the baseline if unwanted.
  cond = [m['cond']] if isinstance(m['cond'], str) else m['cond']
  base = tuple(m['base']) if isinstance(m['base'], list) else (m['base'],)
  exp = {tuple(r[c] for c in split + cond) for r in rows}
  if not m['include_base']:
    exp = {k for k in exp if k[len(split):] != base}
  elif m['child']['t'] in ('Sum', 'Count') and not m['child'].get('w'):
    for k in exp:
      if k[len(split):] == base:
        v = got[2].get(k, [None])[0]
        require(isnull(v) and m['t'] == 'PercentChange' or v == 0,
                'baseline row %s has %r', k, v)
        labels.append('base_row')
  if not case.has(m, 'Nth', 'Quantile'):
    extra = set(got[2]) - exp
    require(not extra, 'unexpected rows %s', sorted(extra, key=str)[:4])
    if len(m['child'].get('c', [0])) == 1 and m['child']['t'] in (
        'Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot'):
      lost = exp - set(got[2])
      require(not lost, 'rows %s are missing', sorted(lost, key=str)[:4])
      labels.append('rows_exact')
  return labels


SUITES = [Suite('comparison', gen_case, run, 8000, 200000)]
