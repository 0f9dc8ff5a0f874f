"""C02: slicing equals restricting; irrelevant presentation does not matter."""
from hypothesis import strategies as st

from vp import case, conds, custom, dsl, gen, obs, ref, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut

RULE = ('a random table x a random metric tree with operations x split_by; the '
        'sliced result is compared with the same metric on each slice, and '
        'with the result after permuting rows, changing the index, adding '
        'columns and storing split columns as categoricals with unused '
        'categories; the custom suite has user-defined leaves; non-trivial = at least 2 slices and some finite non-zero '
        'value')
OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'AbsoluteChange', 'MH', 'HHI', 'Entropy', 'TopK', 'Nxx']
O = tgen.Opts([l for l in tgen.ALL if l != 'Nth'], depth=2, ops=OPS,
              broadcast=False)
SIMPLE = tgen.Opts(depth=1, ops=())
CUSTOM = tgen.Opts(['Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot'], depth=1,
                   ops=('Distribution', 'AbsoluteChange'), broadcast=False,
                   pow_=False)


@st.composite
def gen_case(draw, o=O):
  split = draw(st.sampled_from([['g'], ['g'], ['g', 'i'], ['i', 'g']]))
  m = draw(tgen.any_tree(o, ['h', 'p']))
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([1, 6, 12])), max_n=24,
                     x=kinds, y=kinds,
                     extra={'p': st.integers(0, 1), 'i': st.integers(0, 1)}))
  return {'table': t, 'metric': m, 'split': split,
          'perm': draw(st.permutations(list(range(t['n'])))),
          'cat': draw(st.booleans())}


def same(a, b, what, m, subset=False):
  """Two observations agree; a row of nothing but nulls equals a missing one."""
  rtol, atol = case.tol(m)
  require(a[0] == b[0], '%s: index levels %s vs %s', what, a[0], b[0])
  require(a[1] == b[1], '%s: columns %s vs %s', what, a[1], b[1])
  for k in set(a[2]) | set(b[2]):
    u, v = a[2].get(k), b[2].get(k)
    n = len(u if u is not None else v)
    u = u if u is not None else [float('nan')] * n
    v = v if v is not None else [float('nan')] * n
    for c, x, y in zip(a[1], u, v):
      if not close(x, y, rtol, atol) and not fragile(x, y):
        raise Violation('%s: at %s, %s is %r vs %r' % (what, k, c, x, y))


def fragile(x, y):
  """inf and nan, or their signs, differ only by the sign of a zero."""
  big = lambda v: isnull(v) or abs(v) > 1e9
  return big(x) and big(y)


def tie_prone(m):
  return any(isinstance(n, dict) and n.get('by_values')
             for n in tree.walk(m))


def run(spec):
  m, split, t = spec['metric'], spec['split'], spec['table']
  rows = table.to_rows(t)
  if emptied(m, rows):
    raise Skip('filters leave nothing')
  if tie_prone(m) and case.has(m, 'op'):
    raise Skip('arithmetic on shares sorted by value: ties are arbitrary')
  groups = {}
  for i, r in enumerate(rows):
    groups.setdefault(tuple(r[c] for c in split), []).append(i)
  try:
    want = tree.ev(m, rows, split)
  except Skip as e:
    if 'baseline never' in str(e) or 'zero total' in str(e):
      raise
    want = None
  anyfloat = want and any(ref.is_any(v) for r in want.rows.values() for v in r)
  if anyfloat:
    raise Skip('value left open')
  with sut('compute_on sliced'):
    metric = dsl.build(m)
    df = table.to_df(t)
    whole = obs.observe(metric.compute_on(df, split))
  n = len(split)
  require(whole[0][:n] == split, 'index levels %s do not start with %s',
          whole[0], split)
  for s, idx in groups.items():
    if emptied(m, [rows[i] for i in idx]):
      continue  # filters leave nothing of this slice for some node
    part = table.to_df(table.take(t, idx))
    try:
      with sut('compute_on of one slice'):
        one = obs.observe(dsl.build(m).compute_on(part))
    except Violation:
      if baseline_missing(m, [rows[i] for i in idx]):
        one = None
      else:
        raise
    mine = {k[n:]: v for k, v in whole[2].items() if k[:n] == s}
    if one is None or (one[1] != whole[1] and baseline_missing(
        m, [rows[i] for i in idx])):
      if m['t'] in ('PercentChange', 'AbsoluteChange', 'MH') and not any(
          n_.get('w') for n_ in tree.walk(m) if isinstance(n_, dict)):
        require(all(isnull(x) for v in mine.values() for x in v),
                'slice %s lacks the baseline but has values %s', s, mine)
      continue
    if tie_prone(m):
      require(set(one[2]) == set(mine), 'slice %s has rows %s vs %s', s,
              sorted(mine), sorted(one[2]))
      one = one[0], one[1], dict(enumerate(zip(*[sorted(c) for c in zip(
          *one[2].values())])))
      mine = dict(enumerate(zip(*[sorted(c) for c in zip(*mine.values())])))
    same((whole[0][n:], whole[1], mine), one, 'slice %s' % (s,), m)
  stray = [k for k in whole[2] if k[:n] not in groups]
  require(not stray, 'slices %s are not in the data', stray[:3])
  if not case.has(m, 'PercentChange', 'AbsoluteChange', 'MH', 'Nth',
                  'CumulativeDistribution') and not any(
      n_.get('w') for n_ in tree.walk(m) if isinstance(n_, dict)):
    lost = set(groups) - {k[:n] for k in whole[2]}
    require(not lost, 'slices %s are lost', sorted(lost)[:3])

  t2 = table.take(t, spec['perm'])
  t2['index'] = 'dup' if spec['cat'] else 'str'
  with sut('compute_on after reordering rows'):
    df2 = table.to_df(t2)
    df2.insert(0, 'unrelated', ['z'] * len(df2))
    other = obs.observe(dsl.build(m).compute_on(df2, split))
  if not tie_prone(m):
    same(whole, other, 'rows permuted, index and columns changed', m)
  if spec['cat']:
    t3 = dict(t, cat=[c for c in split if c == 'g'], cat_extra='zz')
    with sut('compute_on with a categorical split column'):
      other = obs.observe(dsl.build(m).compute_on(table.to_df(t3), split))
    stray = [k for k in other[2] if k[:n] not in groups and
             not all(map(isnull, other[2][k]))]
    require(not stray, 'categorical: slices %s are not in the data', stray[:3])
    same(whole, (other[0], other[1], {
        k: v for k, v in other[2].items()}), 'categorical split column', m)
    stray = [k for k in other[2] if k not in whole[2]]
    require(not stray, 'categorical: rows %s are new', stray[:3])
  out = [m['t'], 'slices%d' % min(len(groups), 4)]
  if len(groups) > 1 and any(not isnull(x) and x for v in whole[2].values()
                             for x in v):
    out.append('nontrivial')
  return out


def emptied(m, rows):
  if not isinstance(m, dict):
    return False
  rows = conds.keep(m.get('w') or [], rows)
  return not rows or any(emptied(c, rows) for c in kids(m))


def baseline_missing(m, rows):
  """Whether some comparison may have no baseline row left in these rows."""
  def visit(m, rows):
    rows = conds.keep(m.get('w') or [], rows)
    if not rows:
      return True
    if m['t'] in ('PercentChange', 'AbsoluteChange', 'MH'):
      cond = [m['cond']] if isinstance(m['cond'], str) else m['cond']
      base = m['base'] if isinstance(m['base'], list) else [m['base']]
      rows = [r for r in rows if [r[c] for c in cond] == list(base)]
      if not rows or sum(n['t'] in ('PercentChange', 'AbsoluteChange', 'MH')
                         for n in tree.walk(m) if isinstance(n, dict)) > 1:
        return True
    return any(visit(c, rows) for c in kids(m))
  return visit(m, rows)


def kids(m):
  for k in ('a', 'b', 'child'):
    if isinstance(m.get(k), dict):
      yield m[k]
  for c in m.get('c', []):
    yield c


@st.composite
def gen_custom(draw):
  """Leaves are replaced by user-defined equivalents, some per slice."""
  spec = draw(gen_case(CUSTOM))

  def visit(m):
    if not isinstance(m, dict):
      return
    if m['t'] in custom.CUSTOM and custom.able(m) and draw(st.integers(0, 2)):
      m['as'] = draw(st.sampled_from(
          [k for k in custom.able(m) if m['t'] != 'Ratio' or k != 'simple']))
    for k in kids(m):
      visit(k)

  visit(spec['metric'])
  return spec


SUITES = [Suite('trees', gen_case, run, 3500, 120000),
          Suite('simple', lambda: gen_case(SIMPLE), run, 3500, 120000),
          Suite('custom', gen_custom, run, 1500, 40000)]
