"""C25: computing on Beam collections equals computing through SQL."""
import contextlib
import copy
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from vp import beam, bq, conds, dsl, fit, gen, sqlcase, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c05, c15, c16, c18, c19

RULE = ('metrics suite: a random metric, operation, resampling or model x '
        'split_by x mode x options computed on a collection of a stand-in for '
        'Beam whose queries are executed on exactly the rows of that '
        'collection, compared with compute_on_sql over the same rows, query by '
        'query and value by value; faults suite: the execution fails at one of '
        'the queries; collect suite: random rows and folders, written in '
        'shards, collected to a DataFrame; non-trivial = at least one query '
        'and two rows')


@st.composite
def problem(draw):
  kind = draw(st.sampled_from(['simple', 'ops', 'ops', 'jackknife', 'bootstrap',
                               'models']))
  if kind == 'simple':
    s = draw(c15.gen_case())
  elif kind == 'ops':
    s = draw(c16.gen_case())
  elif kind == 'jackknife':
    s = draw(c18.gen_jackknife())
  elif kind == 'bootstrap':
    s = draw(c18.gen_bootstrap())
  else:
    s = draw(c19.gen_sql())
    cols = s['table']['cols']
    s['table'] = dict(s['table'], cols={
        'g' if k in c19.SPLITS else k: v for k, v in cols.items()})
    s['split'] = ['g' for _ in s['split']]
  s['kind_'] = kind
  if s.get('mode') == 'batch':
    s['mode'] = None
  return s


@st.composite
def gen_metrics(draw):
  s = draw(problem())
  s['batch'] = draw(st.sampled_from([None, None, None, 1, 2])) if (
      s['kind_'] in ('jackknife', 'bootstrap')) else None
  s['piped'] = draw(st.booleans())
  s['scalar_split'] = draw(st.booleans())
  s['kwargs'] = draw(st.sampled_from([None, None, {'dialect': 'zetasql'}]))
  s['cached'] = draw(st.booleans())
  s['clock'] = draw(st.booleans())
  s['other'] = draw(st.booleans())
  return s


def build(s):
  import meterstick as ms
  if s['kind_'] == 'models':
    return fit.build(s)
  if s['kind_'] in ('simple', 'ops'):
    return dsl.build(s['metric'])
  kw = {'confidence': s.get('confidence')}
  if s.get('w'):
    kw['where'] = conds.to_where(s['w'])
  if s['kind_'] == 'jackknife':
    return ms.Jackknife(s['unit'], dsl.build(s['child']), **kw)
  return ms.Bootstrap(s.get('unit'), dsl.build(s['child']), 4, **kw)


class Runner:
  """The execute functions of both sides."""

  def __init__(self, s, fail=None, error=RuntimeError):
    self.s, self.fail, self.error = s, fail, error
    self.queries, self.extra = [], []
    self.pipeline = beam.Pipeline()
    self.pcol = beam.PCollection(self.pipeline, 'rows of the table')

  def step(self, q):
    self.queries.append(q)
    if self.fail is not None and len(self.queries) - 1 == self.fail:
      raise self.error('quota exceeded')

  def engine(self, name):
    t = self.s['table']
    e = bq.from_spec(t, name, 3)
    return e

  def sql(self):
    e = self.engine('PCOLLECTION')
    run = bq.execute(e)
    def f(q):
      self.step(q)
      return run(q)
    return f

  def beam(self):
    e = self.engine('PCOLLECTION')
    run = bq.execute(e)
    def f(p):
      require(isinstance(p, beam.PCollection), 'execute gets %s', type(p))
      require(p.source is self.pcol, 'the query is not applied on the input')
      require(isinstance(p.transform, beam.SqlTransform), 'transform %s',
              p.transform)
      self.extra.append(p.transform.dialect)
      self.step(p.transform.query)
      return run(p.transform.query)
    return f


def attempt(f):
  np.random.seed(7)
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      return f(), None
  except Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    return None, e


def arguments(s, cache):
  kw = {'melted': bool(s.get('melted')), 'mode': s['mode']}
  if s['batch']:
    kw['batch_size'] = s['batch']
  if s['cached']:
    kw.update(cache=cache, cache_key='key')
  split = list(s['split']) or None
  if split and len(split) == 1 and s['scalar_split']:
    split = split[0]
  return split, kw


def same(a, b):
  if type(a) is not type(b):
    return False
  if not isinstance(a, (pd.DataFrame, pd.Series)):
    return close(a, b, 1e-12, 0)
  try:
    f = (pd.testing.assert_frame_equal if isinstance(a, pd.DataFrame) else
         pd.testing.assert_series_equal)
    f(a, b, rtol=1e-9, atol=1e-12)
  except AssertionError:
    return False
  return True


def on_sql(s, r, cache=None):
  split, kw = arguments(s, cache if cache is not None else {})
  return attempt(lambda: build(s).compute_on_sql(
      'PCOLLECTION', split, r.sql(), **kw))


def on_beam(s, r, metric=None, cache=None):
  import meterstick as ms
  split, kw = arguments(s, cache if cache is not None else {})
  if s['kwargs']:
    kw['sql_transform_kwargs'] = s['kwargs']
  metric = metric if metric is not None else build(s)
  if s['piped']:
    return attempt(lambda: metric | ms.compute_on_beam(r.pcol, split, r.beam(),
                                                       **kw))
  return attempt(lambda: metric.compute_on_beam(r.pcol, split, r.beam(), **kw))


def run_metrics(s):
  beam.install()
  try:
    build(s)
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('not a valid metric: %s' % type(e).__name__)
  a = Runner(s)
  want, err = on_sql(s, a)
  b = Runner(s)
  cache = {}
  with sut('compute_on_beam'):
    got, err2 = on_beam(s, b, cache=cache)
    require(b.queries == a.queries, 'queries on Beam:\n%s\non SQL:\n%s',
            '\n;\n'.join(b.queries), '\n;\n'.join(a.queries))
    require(set(b.extra) <= {(s['kwargs'] or {}).get('dialect')},
            'SqlTransform got dialect %s', b.extra)
    labels = ['kind:' + s['kind_'], 'mode:%s' % s['mode']]
    if err is not None:
      require(err2 is not None, 'SQL fails with %r, Beam gives %s', err, got)
      raised(s, err, err2)
      return labels + ['fails']
    if err2 is not None:
      raise err2
    require(same(want, got), 'Beam gives\n%s\nSQL gives\n%s', got, want)
    if s['cached']:
      n = len(b.queries)
      again, err = on_beam(s, b, cache=cache)
      if err is not None:
        raise err
      require(s['kind_'] == 'bootstrap' or same(want, again),
              'from the cache\n%s\nis not\n%s', again, want)
      labels.append('cached' if len(b.queries) == n else 'recomputed')
    if s['other']:  # another collection, same metric object
      m = build(s)
      on_beam(dict(s, cached=False), Runner(s), m)
      t = s['table']
      s2 = dict(s, cached=False, table=table.take(t, list(range(t['n']))[::2]))
      want, err = on_sql(s2, Runner(s2))
      got, err2 = on_beam(s2, Runner(s2), m)
      require((err is None) == (err2 is None), 'SQL: %r, Beam: %r', err, err2)
      if err is None:
        require(same(want, got), 'on another collection Beam gives\n%s\nSQL '
                'gives\n%s', got, want)
        labels.append('other')
  if a.queries and s['table']['n'] > 1:
    labels.append('nontrivial')
  return labels


def raised(s, err, err2):
  if s['mode']:
    require(type(err2) is type(err) and str(err2) == str(err),
            'Beam raises %r for %r', err2, err)
  else:
    require(isinstance(err2, ValueError) and 'mixed' in str(err2),
            'Beam raises %r for %r', err2, err)
    require(type(err2.__cause__) is type(err), 'the cause %r is not %r',
            err2.__cause__, err)


class Quota(Exception):
  pass


@st.composite
def gen_faults(draw):
  s = draw(gen_metrics())
  s['fail'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
  s['error'] = draw(st.sampled_from(['Quota', 'ValueError', 'TypeError']))
  return s


ERRORS = {'Quota': Quota, 'ValueError': ValueError, 'TypeError': TypeError}


def run_faults(s):
  """A failure is reported, and leaves the metric and cache usable."""
  beam.install()
  try:
    m = build(s)
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('not a valid metric: %s' % type(e).__name__)
  good = Runner(s)
  want, err = on_sql(s, good)
  if err is not None:
    raise Skip('fails anyway')
  if s['fail'] >= len(good.queries):
    raise Skip('fewer queries')
  cache = {}
  with sut('compute_on_beam'):
    r = Runner(s, s['fail'], ERRORS[s['error']])
    got, err = on_beam(s, r, m, cache)
    require(err is not None, 'the failure of query %d is ignored: %s',
            s['fail'], got)
    _, err1 = on_sql(s, Runner(s, s['fail'], ERRORS[s['error']]))
    if err1 is not None:
      raised(s, err1, err)
    ok = Runner(s)
    got, err = on_beam(s, ok, m, cache)
    if err is not None:
      raise err
    require(s['kind_'] == 'bootstrap' and s['cached'] or same(want, got),
            'after a failure\n%s\nexpected\n%s', got, want)
    try:
      m.compute_on_beam(table.to_df(s['table']), None, r.beam())
      bad = True
    except ValueError:
      bad = False
    require(not bad, 'a DataFrame is taken for a collection')
  return ['kind:' + s['kind_'], 'nontrivial']


TEXT = st.sampled_from(['a', 'b', 'NA', 'None', 'nan', 'null', 'x y', 'q"q',
                        'c,d', "it's", 'été', 'l1\nl2', 'N/A', '%', 'True x'])
COLS = {'int': st.integers(-5, 10**6), 'float': st.sampled_from(
    [0.5, 1.25, -3.0, 1e-8, 123456.789, None]), 'text': TEXT,
        'opt': st.one_of(TEXT, st.none())}
FOLDERS = ['out', 'with space', 'sub[1]', 'a*b', 'q?', 'ünï', '[!x]', 'a/b']


@st.composite
def gen_collect(draw):
  n = draw(st.integers(1, 9))
  kinds = draw(st.lists(st.sampled_from(sorted(COLS)), min_size=1, max_size=4))
  names = draw(st.permutations(['x', 'g', 'sum(x)', 'a b', 'é', '0']))
  return {'n': n, 'cols': {names[i]: draw(st.lists(COLS[k], min_size=n,
                                                   max_size=n))
                           for i, k in enumerate(kinds)},
          'shards': draw(st.integers(1, 4)), 'cleanup': draw(st.booleans()),
          'dir': draw(st.sampled_from(FOLDERS)), 'twice': draw(st.booleans()),
          'noise': draw(st.booleans())}


def canon(v):
  if isnull(v):
    return None
  return v if isinstance(v, str) else float(v)


def rows_of(df):
  return sorted((tuple(canon(v) for v in r)
                 for r in df.itertuples(index=False, name=None)), key=repr)


def run_collect(s):
  beam.install(s['shards'])
  df = pd.DataFrame({c: table.series(v) for c, v in s['cols'].items()})
  root = tempfile.mkdtemp(prefix='vp-c25-')
  try:
    out = os.path.join(root, s['dir'])
    os.makedirs(out)
    old = []
    if s['noise']:
      for f in ('notes.txt',
                'Meterstick pcollection_to_df_via_file_io at 2020-01-01-00000'):
        with open(os.path.join(out, f), 'w') as fh:
          fh.write('x,g\n9,9\n')
        old.append(f)
    with sut('pcollection_to_df_via_file_io'):
      from meterstick import utils
      p = beam.Pipeline()
      pcol = beam.PCollection(p, df)
      for i in range(2 if s['twice'] else 1):
        got = utils.pcollection_to_df_via_file_io(pcol, p, out,
                                                  cleanup=s['cleanup'])
        require(p.runs == i + 1, 'the pipeline ran %d times', p.runs)
        require(list(got.columns) == list(df.columns), 'columns %s of %s',
                list(got.columns), list(df.columns))
        require(rows_of(got) == rows_of(df), 'rows\n%s\nof\n%s', got, df)
        require(list(got.index) == list(range(len(df))), 'index %s', got.index)
      left = os.listdir(out)
      for f in old:
        require(f in left, 'removed %s', f)
      if s['cleanup']:
        require(sorted(left) == sorted(old), 'left %s', left)
      else:
        require(len(left) - len(old) == min(s['shards'], s['n']) * (
            2 if s['twice'] else 1), 'files %s', left)
  finally:
    shutil.rmtree(root)
  return ['shards%d' % s['shards']] + (['nontrivial'] if s['n'] > 1 else [])


SUITES = [Suite('metrics', gen_metrics, run_metrics, 1000, 40000),
          Suite('faults', gen_faults, run_faults, 600, 15000),
          Suite('collect', gen_collect, run_collect, 1500, 15000)]
