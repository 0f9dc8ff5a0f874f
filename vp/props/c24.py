"""C24: user-defined metrics and operations work like built-in ones."""
import contextlib
import io
import math

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from vp import case, conds, custom, dsl, gen, obs, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c02, c11

RULE = ('a random metric tree in which leaves, distributions, diversity '
        'indices and changes are replaced by user-defined equivalents '
        '(compute, compute_slices, compute_with_split_by, precompute, '
        'postcompute, compute_children/compute_on_children, util metrics, '
        'subclasses; scalars, Series, frames; cached or not) against the '
        'reference evaluator, per slice and under Jackknife; metrics returning '
        'several rows or columns against a loop over the slices; non-trivial = '
        'at least one custom node and a finite non-zero value')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot']
OPS = ['Distribution', 'Distribution', 'HHI', 'PercentChange', 'AbsoluteChange',
       'AbsoluteChange', 'CumulativeDistribution', 'TopK', 'MH']


def decorate(draw, m, often=2):
  """Chooses user-defined equivalents in the tree."""
  if not isinstance(m, dict):
    return
  if m['t'] == 'MH':
    kids = m['child']['c'] if m['child']['t'] == 'List' else [m['child']]
    for k in kids:
      if k['t'] == 'op':
        decorate(draw, k['a'], often)
        decorate(draw, k['b'], often)
    return
  kinds = custom.able(m)
  if m['t'] == 'Ratio':
    kinds = [k for k in kinds if k != 'simple']
  if kinds and draw(st.integers(0, 2)) < often:
    m['as'] = draw(st.sampled_from(kinds))
  for k in ('a', 'b', 'child'):
    decorate(draw, m.get(k), often)
  for c in m.get('c') or []:
    decorate(draw, c, often)


@st.composite
def gen_tree(draw):
  o = tgen.Opts(LEAVES, where=draw(st.booleans()), depth=draw(
      st.integers(0, 2)), ops=OPS, broadcast=False, pow_=False)
  m = draw(tgen.any_tree(o, ['h', 'p']))
  decorate(draw, m)
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('posint',)]))
  t = draw(gen.table(min_n=draw(st.sampled_from([1, 6, 12])), max_n=20,
                     x=kinds, y=kinds,
                     extra={'p': st.integers(0, 1), 'i': st.integers(0, 1)}))
  return {'table': t, 'metric': m, 'melted': draw(st.integers(0, 3)) == 0,
          'key': draw(st.booleans()), 'cat': draw(st.booleans()),
          'split': draw(st.sampled_from([[], [], ['g'], ['g'], ['i'],
                                         ['g', 'i'], ['i', 'g']]))}


@contextlib.contextmanager
def loud(m):
  """A per-slice custom operation may refuse an empty child."""
  risky = any(n['t'] in ('Distribution', 'HHI') and any(
      k['t'] in ('PercentChange', 'AbsoluteChange', 'MH')
      for k in tree.walk(n['child']) if isinstance(k, dict))
              for n in nodes(m))
  try:
    yield
  except Violation as e:
    if risky and 'No objects to concatenate' in str(e):
      raise Skip('custom operation on an empty child') from e
    raise


def nodes(m):
  return [n for n in tree.walk(m) if isinstance(n, dict) and n.get('as')]


def run(spec):
  from meterstick import utils
  m, split = spec['metric'], list(spec['split'])
  rows = table.to_rows(spec['table'])
  if c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  melted = spec['melted'] and want.rows
  labels = ['split%d' % len(split)] + sorted({
      '%s:%s' % (n['t'] if n['t'] not in custom.CUSTOM else 'leaf', n['as'])
      for n in nodes(m)})
  with loud(m), sut('compute_on'):
    df = table.to_df(spec['table'])
    if spec['cat']:
      for c in split:
        df[c] = df[c].astype('category')
    before = df.copy(deep=True)
    metric = dsl.build(m)
    kw = {'cache_key': 'k'} if spec['key'] else {}
    for i in range(2):
      res = metric.compute_on(df, list(split), melted=bool(melted), **kw)
      if melted:
        res = utils.unmelt(res)
      case.check(res, m, want, 'round %d' % i)
    pd.testing.assert_frame_equal(df, before)
    if hasattr(metric, 'seen'):
      require(list(metric.seen[0]) == split and metric.seen[1] is df,
              'final_compute gets %s', metric.seen)
  if nodes(m) and case.nontrivial(want, len(rows)):
    labels.append('nontrivial')
  return labels


@st.composite
def gen_jackknife(draw):
  s = draw(c11.gen_case(leaf_sets=(LEAVES,)))
  for n in list(tree.walk(s['child'])):
    if isinstance(n, dict) and n['t'] in ('Entropy', 'Nxx'):
      n.pop('share', None)
      n['t'] = 'HHI'
  cs = tree.cols(s['child'])
  if len(set(cs)) != len(cs):
    s['child'] = {'t': 'Sum', 'var': 'x'}
  decorate(draw, s['child'], draw(st.integers(1, 2)))
  return s


def run_jackknife(spec):
  with loud(spec['child']):
    labels = c11.run(spec)
  if not nodes(spec['child']):
    labels = [l for l in labels if l != 'nontrivial']
  return labels


# ------------------------------------------------- several rows or columns

SHAPES = ['groups', 'groups2', 'columns', 'range', 'labels', 'gframe', 'named']


@st.composite
def gen_shape(draw):
  t = draw(gen.table(min_n=4, max_n=20, x=('int', 'quarter'),
                     extra={'p': st.integers(0, 1), 'i': st.integers(0, 1),
                            'u': st.sampled_from([3, 1, 2])}))
  s = {'table': t, 'shape': draw(st.sampled_from(SHAPES)),
       'how': draw(st.sampled_from(['plain', 'plain', 'change', 'jackknife'])),
       'w': draw(conds.where(g=False)) if draw(st.booleans()) else [],
       'split': draw(st.sampled_from([[], [], ['g'], ['g', 'i']])),
       'index': draw(st.booleans())}
  if s['how'] == 'change' and s['shape'] in ('range', 'labels'):
    s['shape'] = 'named'  # rows without level name cannot be matched
  if s['how'] == 'jackknife':
    t['cols']['u'][:4] = [3, 1, 3, 1]
    if draw(st.booleans()):
      t['cols']['g'][:4] = ['a', 'a', 'b', 'b']
  return s


def shape(kind):
  """f(frame) -> what compute() returns."""
  if kind == 'groups':
    return lambda d: d.groupby('h').x.sum()
  if kind == 'groups2':
    return lambda d: d.groupby(['h', 'f']).x.max()
  if kind == 'columns':
    return lambda d: pd.DataFrame({'lo': [d.x.min()], 'hi': [d.x.max()]})
  if kind == 'range':
    return lambda d: pd.DataFrame({'a': [d.x.sum(), len(d)],
                                   'b': [d.x.min(), d.x.max()]})
  if kind == 'labels':
    return lambda d: pd.Series([d.x.sum(), d.x.max()], ['s', 'm'])
  if kind == 'named':
    return lambda d: pd.Series([d.x.sum(), d.x.max()], pd.Index(
        ['s', 'm'], name='what'))
  return lambda d: d.groupby('h')[['x', 'y']].sum()


def pieces(f, rows, split):
  """{slice + inner index: [values]} by a loop over the slices."""
  slices, out, cols, names = {}, {}, None, None
  for r in rows:
    slices.setdefault(tuple(r[c] for c in split), []).append(r)
  for k, rs in slices.items():
    v = f(pd.DataFrame(rs))
    v = v.to_frame('m') if isinstance(v, pd.Series) else v
    cols, names = list(v.columns), list(v.index.names)
    for i, vals in zip(v.index.tolist(), v.values.tolist()):
      i = i if isinstance(i, tuple) else (i,)
      out[k + tuple(map(obs.plain, i))] = [obs.plain(x) for x in vals]
  return names, cols, out


def observe(df):
  cols = [tuple(c) if isinstance(c, tuple) else c for c in df.columns]
  out = {}
  for i, vals in zip(df.index.tolist(), df.values.tolist()):
    i = i if isinstance(i, tuple) else (i,)
    out[tuple(map(obs.plain, i))] = [obs.plain(x) for x in vals]
  require(len(out) == len(df), 'duplicate rows in\n%s', df)
  return list(df.index.names), cols, out


def run_shape(spec):
  import meterstick as ms
  from meterstick import metrics
  f, split = shape(spec['shape']), list(spec['split'])

  class Custom(metrics.Metric):
    def compute(self, df):
      return f(df)

  rows = conds.keep(spec['w'], table.to_rows(spec['table']))
  if not rows:
    raise Skip('filters leave nothing')
  kw = {'where': conds.to_where(spec['w'])} if spec['w'] else {}
  df = table.to_df(spec['table'])
  if spec['index']:
    df.index = [0] * len(df)
  how = spec['how']
  by = split + ['p'] if how == 'change' else split
  names, cols, want = pieces(f, rows, by)
  idx = by + names
  if how == 'change':
    n = len(split)
    if not any(k[n] == 0 for k in want):
      raise Skip('the baseline never occurs')
    base = {k[:n] + k[n + 1:]: v for k, v in want.items() if k[n] == 0}
    want = {k: [a - b for a, b in zip(v, base.get(
        k[:n] + k[n + 1:], [math.nan] * len(v)))]
            for k, v in want.items() if k[n] != 0}
    cols = ['%s Absolute Change' % c for c in cols]
  single = names == [None] and all(k[len(by):] == (0,) for k in want)
  if single:
    want = {k[:-1] or (0,): v for k, v in want.items()} if by else want
    idx = by or [None]
  what = '%s of %s' % (how, spec['shape'])
  with sut(what), contextlib.redirect_stdout(io.StringIO()):
    m = Custom('m', **kw)
    if how == 'change':
      m = ms.AbsoluteChange('p', 0, m)
    if how == 'jackknife':
      return leave_out(table.to_rows(spec['table']), spec, m, f, rows, split, df, want, cols, idx, single)
    got = observe(m.compute_on(df, split))
    same(got, idx, cols, want, what)
  return [how, spec['shape']] + (['nontrivial'] if len(want) > 1 else [])


def same(got, idx, cols, want, what):
  require(got[0] == idx, '%s: index %s, expected %s', what, got[0], idx)
  require(got[1] == cols, '%s: columns %s, expected %s', what, got[1], cols)
  for k in set(got[2]) | set(want):
    a = got[2].get(k, [math.nan] * len(cols))
    b = want.get(k, [math.nan] * len(cols))
    for c, x, y in zip(cols, a, b):
      require(close(x, y, 1e-7, 1e-8), '%s: %s at %s is %s, expected %s', what,
              c, k, x, y)


def leave_out(everything, spec, m, f, rows, split, df, want, cols, idx, single):
  """Jackknife against leaving one unit out at a time."""
  import meterstick as ms
  units = sorted({r['u'] for r in everything})
  slices = {}
  for r in everything:
    slices.setdefault(tuple(r[c] for c in split), set()).add(r['u'])
  if not any(len(v) > 1 for v in slices.values()):
    raise Skip('a single unit')
  reps = {}
  for u in units:
    kept = [r for r in rows if r['u'] != u and u in slices[
        tuple(r[c] for c in split)]]
    found = {tuple(r[c] for c in split) for r in kept}
    if any(u in v and len(v) > 1 and k not in found
           for k, v in slices.items()):
      raise Skip('filters leave nothing of a replicate')
    if kept:
      for k, v in pieces(f, kept, split)[2].items():
        k = (k[:-1] or (0,)) if single and split else k
        reps.setdefault(k, []).append(v)
  out = {}
  for k, v in want.items():
    row = []
    for j, x in enumerate(v):
      row += [x, c11.stderr([r[j] for r in reps.get(k, [])])[0]]
    out[k] = row
  wide = [(c, s) for c in cols for s in ('Value', 'Jackknife SE')]
  res = ms.Jackknife('u', m).compute_on(df, split)
  same(observe(res), idx, wide, out, 'Jackknife of %s' % spec['shape'])
  return ['jackknife', spec['shape']] + (
      ['nontrivial'] if any(v[1] and not isnull(v[1]) for v in out.values())
      else [])


SUITES = [Suite('tree', gen_tree, run, 1500, 40000),
          Suite('shape', gen_shape, run_shape, 500, 15000),
          Suite('jackknife', gen_jackknife, run_jackknife, 500, 15000)]
