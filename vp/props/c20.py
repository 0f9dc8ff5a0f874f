"""C20: output formats are lossless views of the same result."""
import contextlib
import io

from hypothesis import strategies as st

from vp import dsl, gen, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c05, c06

RULE = ('results suite: a random metric tree (operations, lists, arithmetic, '
        'resampling with and without intervals, models) x split_by computed in '
        'every output form (unmelted, melted, as Series/scalar, piped, free '
        'function) and compared; frames suite: random frames of every shape '
        'melted and unmelted; non-trivial = at least one value')


@st.composite
def gen_case(draw):
  o = tgen.Opts(depth=1, ops=c05.OPS)
  k = draw(st.integers(0, 4))
  if k <= 1:
    m = draw(tgen.any_tree(o, ['h', 'p']))
  elif k == 2:
    m = draw(c06.spec())
  else:
    m = {'t': draw(st.sampled_from(['Jackknife', 'Bootstrap',
                                    'PoissonBootstrap'])),
         'unit': 'u', 'opt': draw(st.booleans()), 'n': 4,
         'confidence': draw(st.sampled_from([None, 0.9]))}
    one = tgen.Opts(['Sum', 'Mean', 'Count', 'Max'], depth=1, ops=(
        'Distribution', 'PercentChange', 'AbsoluteChange'), where=False)
    m['child'] = draw(tgen.any_tree(one, ['h', 'p']))
  return {'metric': m, 'table': draw(c06.gen_table()),
          'split': draw(st.sampled_from([[], [], ['g'], ['g', 'v']]))}


def rows(df):
  names = list(df.index.names)
  return names, list(df.index), [list(v) for v in df.values.tolist()]


def full_cols(df):
  return [c if isinstance(c, tuple) else (c,) for c in df.columns]


def comp(m, df, split, *a):
  import numpy as np
  np.random.seed(5)
  with contextlib.redirect_stdout(io.StringIO()):
    return m.compute_on(df, split, *a)


def run(spec):
  import numpy as np
  import meterstick as ms
  import pandas as pd
  from meterstick import utils
  split = spec['split']
  df = table.to_df(spec['table'])
  try:
    u = comp(c06.build(spec['metric']), df, split)
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('raises %s' % type(e).__name__)
  if not isinstance(u, pd.DataFrame) or u.empty:
    raise Skip('nothing')
  if u.columns.has_duplicates or u.index.has_duplicates:
    raise Skip('duplicate labels')
  b = lambda: c06.build(spec['metric'])
  labels = ['m:' + spec['metric']['t'], 'split%d' % len(split)]
  with sut('melted output'):
    m = comp(b(), df, split, True)
    check_melt(u, m, 'melted=True')
    back = utils.unmelt(m)
    same(back, u, 'unmelt of the melted result')
    again = utils.melt(u)
    check_melt(u, again, 'melt of the unmelted result')
    same(again, m, 'melt of the unmelted result vs melted=True')
  with sut('pipelines'):
    np.random.seed(5)
    with contextlib.redirect_stdout(io.StringIO()):
      p = b() | ms.compute_on(df, split)
      np.random.seed(5)
      q = b() | ms.compute_on(df, split, melted=True)
    same(p, u, 'piped compute_on')
    same(q, m, 'piped melted compute_on')
  with sut('return_dataframe=False'):
    r = comp(b(), df, split, False, False)
    raw(r, u)
    if u.shape[1] == 1 and not isinstance(r, (list, tuple, pd.DataFrame)):
      require(isinstance(r, pd.Series) == (list(u.index.names) != [None]),
              'return_dataframe=False is a %s for levels %s',
              type(r).__name__, list(u.index.names))
    labels.append(type(r).__name__)
  labels.append('levels%d' % len(m.index.names))
  if any(isinstance(v, (int, float)) and not isnull(v) and v
         for row in u.values.tolist() for v in row):
    labels.append('nontrivial')
  if u.columns.nlevels > 1:
    labels.append('two_column_levels')
  return labels


def raw(r, u):
  """The scalar, Series, frame or list of them holds the values of u."""
  import pandas as pd
  if isinstance(r, (list, tuple)):
    k = 0
    for x in r:
      n = x.shape[1] if isinstance(x, pd.DataFrame) else 1
      part = u.iloc[:, k:k + n]
      if isinstance(x, (pd.DataFrame, pd.Series)):  # rows of this child only
        part = part.loc[[i for i in part.index if i in x.index]]
        require(len(part) == len(x), 'list element has rows %s', list(x.index))
        x = x.loc[list(part.index)]
      raw(x, part)
      k += n
    require(k == u.shape[1], '%d columns in the list, %d in the frame', k,
            u.shape[1])
    return
  if isinstance(r, pd.DataFrame):
    return c05.same(rows(r), rows(u), 'return_dataframe=False')
  require(u.shape[1] == 1, 'a %s for %d columns', type(r).__name__, u.shape[1])
  if isinstance(r, pd.Series):
    c05.same([list(r.index), r.tolist()], [list(u.index), u.iloc[:, 0].tolist()],
             'return_dataframe=False')
  else:
    require(len(u) == 1, 'a scalar for %d rows', len(u))
    c05.same(c05.plain(r), u.iloc[0, 0], 'return_dataframe=False')


def same(a, b, what):
  require(type(a) is type(b), '%s: %s vs %s', what, type(a), type(b))
  c05.same([full_cols(a), rows(a)], [full_cols(b), rows(b)], what)


def check_melt(u, m, what):
  """m is u with the outermost column level moved to the outermost index level."""
  cols = full_cols(u)
  metrics = list(dict.fromkeys(c[0] for c in cols))
  flat = u.columns.nlevels == 1
  noidx = u.index.names == [None]
  require(m.index.names[0] == 'Metric', '%s: outermost level is %s', what,
          m.index.names[0])
  require(list(m.index.names[1:]) == ([] if noidx else list(u.index.names)),
          '%s: levels %s', what, m.index.names)
  exp_cols = ['Value'] if flat else list(dict.fromkeys(c[1] for c in cols))
  require([c if not isinstance(c, tuple) else c[0] for c in m.columns] ==
          exp_cols, '%s: columns %s, expected %s', what, list(m.columns),
          exp_cols)
  exp = []
  for name in metrics:
    for key, row in zip(u.index, u.values.tolist()):
      key = () if noidx else key if isinstance(key, tuple) else (key,)
      vals = [v for c, v in zip(cols, row) if c[0] == name]
      exp.append([(name,) + key, vals])
  got = [[k if isinstance(k, tuple) else (k,), v]
         for k, v in zip(m.index, m.values.tolist())]
  c05.same(got, exp, what)


NAMES = st.sampled_from(['m1', 'b', 'a', 'Value', 'sum(x)', 'x y', '10', 'Z'])


@st.composite
def gen_frame(draw):
  nidx = draw(st.integers(0, 3))
  cols = draw(st.lists(NAMES, min_size=1, max_size=4, unique=True))
  sub = draw(st.sampled_from([None, None, ['Value', 'Jackknife SE'],
                              ['Value', 'CI-lower', 'CI-upper'], ['z', 'a']]))
  lv = [['q', 'p', 'r'], [2, 1, 3], [0.5, -1, 0]]
  keys = [()]
  if nidx:
    import itertools
    allk = list(itertools.product(*lv[:nidx]))
    keys = draw(st.lists(st.sampled_from(allk), min_size=1, max_size=6,
                         unique=True))
  w = len(cols) * len(sub or [0])
  kind = draw(st.sampled_from(['int', 'float', 'mixed']))
  el = {'int': st.integers(-3, 9), 'float': st.sampled_from(
      [0.5, -1.25, 3.0, 0.0, None]), 'mixed': st.one_of(
          st.integers(0, 5), st.sampled_from([None, 2.5]))}[kind]
  vals = [draw(st.lists(el, min_size=w, max_size=w)) for _ in keys]
  return {'cols': cols, 'sub': sub, 'keys': [list(k) for k in keys],
          'vals': vals, 'tmpl': draw(st.sampled_from(
              ['{}', 'pre {}', '{} post', '<{}>', None]))}


def frame(spec):
  import pandas as pd
  if spec['sub']:
    cols = pd.MultiIndex.from_product([spec['cols'], spec['sub']],
                                      names=['Metric', None])
  else:
    cols = pd.Index(spec['cols'])
  n = len(spec['keys'][0])
  names = ['i%d' % k for k in range(n)]
  if n == 0:
    idx = pd.RangeIndex(1)
  elif n == 1:
    idx = pd.Index([k[0] for k in spec['keys']], name=names[0])
  else:
    idx = pd.MultiIndex.from_tuples([tuple(k) for k in spec['keys']],
                                    names=names)
  return pd.DataFrame(
      [[float('nan') if v is None else v for v in r] for r in spec['vals']],
      index=idx, columns=cols)


def run_frame(spec):
  from meterstick import utils
  u = frame(spec)
  orig = u.copy()
  if len(spec['keys'][0]) == 0 and spec['sub'] is None and spec[
      'cols'] == ['Value']:
    pass
  with sut('melt/unmelt'):
    m = utils.melt(u)
    check_melt(u, m, 'melt')
    same(u, orig, 'melt changed its input')
    m0 = m.copy()
    back = utils.unmelt(m)
    same(back, orig, 'unmelt(melt(x))')
    same(m, m0, 'unmelt changed its input')
    same(utils.melt(back), m0, 'melt(unmelt(melt(x)))')
    # labels only
    for d, melted in ((orig.copy(), False), (m0.copy(), True)):
      t = spec['tmpl']
      r = utils.apply_name_tmpl(t, d.copy(), melted)
      f = (t or '{}').format
      if melted:
        want = [[tuple([f(k[0])] + list(k[1:])) if isinstance(k, tuple)
                 else f(k) for k in d.index], d.values.tolist()]
        require(list(r.index.names) == list(d.index.names), 'names of levels')
      else:
        want = [list(d.index), d.values.tolist()]
        require(full_cols(r) == [(f(c[0]),) + c[1:] for c in full_cols(d)],
                'apply_name_tmpl(%r) gives columns %s', t, list(r.columns))
      c05.same([list(r.index), r.values.tolist()], want,
               'apply_name_tmpl(%r)' % t)
      s = orig.iloc[:, 0].rename('nm')
      if not spec['sub']:
        q = utils.apply_name_tmpl(t, s.copy())
        require(q.name == f('nm'), 'Series named %s', q.name)
        c05.same(q.tolist(), s.tolist(), 'Series')
    for v in (3, 2.5, None, 'a'):
      require(utils.melt(v) == v and utils.unmelt(v) == v,
              'melting a scalar changes it')
  out = ['cols%d' % len(spec['cols']), 'levels%d' % len(spec['keys'][0])]
  if any(v is not None for r in spec['vals'] for v in r):
    out.append('nontrivial')
  return out


SUITES = [Suite('results', gen_case, run, 2400, 60000),
          Suite('frames', gen_frame, run_frame, 4000, 80000)]
