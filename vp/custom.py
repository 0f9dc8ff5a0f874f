"""User-defined metrics and operations equivalent to built-in ones."""
from vp import conds, tree

LEAF = ['scalar', 'cached', 'vector', 'vframe', 'slice', 'frame', 'series',
        'pre', 'post', 'util', 'uslice', 'derived', 'simple',
        'late']
DIST = ['vec', 'novec', 'series', 'base']
CHANGE = ['xs', 'unstack']
CUSTOM = ('Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot', 'Ratio')


def able(m):
  """Kinds of custom equivalents of a node."""
  if m['t'] in CUSTOM and not m.get('weight') and not m.get('normalize'):
    return LEAF
  if m['t'] == 'Distribution':
    return DIST
  if m['t'] == 'HHI':
    return ['hseries', 'hframe']
  if m['t'] in ('AbsoluteChange', 'PercentChange') and not isinstance(
      m['base'], list):
    return CHANGE
  return []


def function(m):
  """f(frame, grouped) -> value(s)."""
  t, v = m['t'], m.get('var')
  if t == 'Sum':
    return lambda d: d[v].sum()
  if t == 'Count':
    return (lambda d: d[v].nunique()) if m.get('distinct') else (
        lambda d: d[v].count())
  if t in ('Mean', 'Max', 'Min'):
    return lambda d: getattr(d[v], t.lower())()
  if t == 'Dot':
    return lambda d: (d[v] * d[m['var2']]).sum()
  if t == 'Ratio':
    def ratio(d):
      import numpy as np
      with np.errstate(all='ignore'):
        return np.float64(d[m['num']].sum()) / np.float64(d[m['den']].sum())
    return ratio


def build(m, inner):
  """The custom metric; inner builds children."""
  import meterstick as ms
  from meterstick import metrics, operations
  import numpy as np
  import pandas as pd
  kind = m['as']
  kw = {'where': conds.to_where(m['w'])} if m.get('w') else {}
  if m['t'] in CUSTOM:
    return leaf(m, kind, kw, ms, metrics, pd)
  child = inner(m['child'])
  over = m.get('over') or m.get('cond')

  class Op(operations.Operation):

    def __init__(self, over, child=None, name_tmpl='', extra_index=None, **kw):
      super().__init__(child, name_tmpl, over, extra_index, **kw)

  if m['t'] == 'Distribution':
    if kind == 'vec':
      class Vec(Op):
        def compute_on_children(self, children, split_by):
          total = children.groupby(level=split_by, observed=True).sum(
          ) if split_by else children.sum()
          return children / total
      cls = Vec
    elif kind == 'base':
      class Sub(ms.Distribution):
        seen = None
        def final_compute(self, res, melted, return_dataframe, split_by, df):
          self.seen = split_by, df
          return res
      return Sub(over, child, **kw)
    else:
      class NoVec(Op):
        def compute(self, d):
          total = d.sum()
          if kind == 'series':
            assert isinstance(d, pd.DataFrame)
          return d / total
      cls = NoVec
    return cls(over, child, 'Distribution of {}', **kw)
  if m['t'] == 'HHI':
    class Hhi(Op):
      def compute(self, d):
        res = ((d / d.sum()) ** 2).sum(min_count=1)
        return pd.DataFrame([res]) if kind == 'hframe' else res
    return Hhi(over, child, 'HHI of {}', [], **kw)
  key, t = m['base'], m['t']

  class Change(Op):

    def __init__(self, over, child, tmpl, include, **kw):
      super().__init__(over, child, tmpl, **kw)
      self.include = include
      self.additional_fingerprint_attrs |= {'include'}
      self.cache_across_instances = True

    def compute_on_children(self, children, split_by):
      cond = self.extra_index[0]
      if kind == 'unstack' and len(children.index.names) > 1 and len(
          children.columns) == 1:
        wide = children.iloc[:, 0].unstack(cond)
        base = wide[key]
        out = wide.sub(base, axis=0) if t == 'AbsoluteChange' else (
            wide.div(base, axis=0) - 1) * 100
        out = out.stack().to_frame(children.columns[0])
        out = out.reorder_levels(children.index.names).reindex(
            children.index)
      elif len(children.index.names) > 1:
        base = children.xs(key, level=cond)
        out = children - base if t == 'AbsoluteChange' else (
            children / base - 1) * 100
        out = out.reorder_levels(children.index.names)
      else:
        base = children.loc[key]
        out = children - base if t == 'AbsoluteChange' else (
            children / base - 1) * 100
      if not self.include:
        out = out[out.index.get_level_values(cond) != key]
      return out

  return Change(over, child, '{} Absolute Change' if t == 'AbsoluteChange'
                else '{} Percent Change', m.get('include_base', False), **kw)


def leaf(m, kind, kw, ms, metrics, pd):
  f, name = function(m), tree.cols(m)[0]
  cond = m.get('w') or []

  class Base(metrics.Metric):
    pass

  if kind in ('scalar', 'cached', 'slice'):
    class Scalar(Base):
      def compute(self, df):
        return f(df)
    if kind == 'slice':
      class Slice(Base):
        def compute_with_split_by(self, df, split_by=None, slice_value=None):
          if split_by:
            key = slice_value if isinstance(slice_value, tuple) else (
                slice_value,)
            assert len(key) == len(split_by), (key, split_by)
            for c, v in zip(split_by, key):
              assert (df[c] == v).all(), 'rows of %s in slice %s' % (
                  df[c].unique(), slice_value)
          return f(df)
      return Slice(name, **kw)
    if kind == 'cached':
      import json
      res = Scalar(name, additional_fingerprint_attrs=['what'], **kw)
      res.what = json.dumps({k: v for k, v in m.items() if k not in (
          'w', 'as', 'name')}, sort_keys=True)
      res.cache_across_instances = True
      return res
    return Scalar(name, **kw)
  if kind in ('vector', 'vframe'):
    class Vector(Base):
      def compute_slices(self, df, split_by=None):
        if split_by:
          res = pd.Series({k: f(d) for k, d in df.groupby(
              split_by if len(split_by) > 1 else split_by[0], observed=True)},
                          dtype=float)
          res.index.names = split_by
        else:
          res = f(df)
          if kind == 'vframe':
            return pd.DataFrame({name: [res]})
        return res.to_frame(name) if kind == 'vframe' and split_by else res
    return Vector(name, **kw)
  if kind == 'frame':
    class Frame(Base):
      def compute(self, df):
        return pd.DataFrame({name: [f(df)]})
    return Frame(name, **kw)
  if kind == 'series':
    class Series(Base):
      def compute(self, df):
        return pd.Series([f(df)])
    return Series(name, **kw)
  if kind == 'pre':
    class Pre(Base):
      def precompute(self, df, split_by):
        return df.query(self.keep) if self.keep else df
      def compute(self, df):
        return f(df)
    res = Pre(name)
    w = conds.to_where(cond) if cond else None
    res.keep = w if not isinstance(w, (list, tuple)) else ' and '.join(
        '(%s)' % i for i in w)
    return res
  if kind == 'late':
    class Late(Base):
      def precompute(self, df, split_by):
        assert self.where is None or len(df) == len(df.query(self.where)), (
            'precompute() gets rows that are filtered out')
        return df.assign(_n=df.groupby(split_by).transform('size')
                         if split_by else len(df))
      def compute(self, df):
        assert not len(df) or (df['_n'] == len(df)).all(), (
            'compute() gets other rows than precompute()')
        return f(df)
    return Late(name, **kw)
  if kind == 'post':
    class Post(Base):
      seen = None
      def compute(self, df):
        return f(df) * 2.0
      def postcompute(self, res, split_by):
        return res / 2.0
      def final_compute(self, res, melted, return_dataframe, split_by, df):
        self.seen = split_by, df
        return res
    return Post(name, **kw)
  plain = {k: v for k, v in m.items() if k not in ('as', 'w')}
  from vp import dsl
  if kind == 'util':
    class Util(Base):
      def compute_slices(self, df, split_by=None):
        return self.compute_util_metric_on(
            self.util, df, split_by, return_dataframe=False)
    res = Util(name, **kw)
    res.util = dsl.build(plain)
    return res
  if kind == 'uslice':
    class UtilSlice(Base):
      def compute(self, df):
        return self.compute_util_metric_on(
            self.util, df, None, return_dataframe=False)
    res = UtilSlice(name, **kw)
    res.util = dsl.build(plain)
    return res
  if kind == 'derived':
    class Derived(Base):
      def compute_children(self, df, split_by=None, *args, **kwargs):
        return self.compute_util_metric_on(
            self.children[0], df, split_by, return_dataframe=False)
      def compute_on_children(self, children, split_by):
        return children
    return Derived(name, dsl.build(plain), **kw)
  inner = dsl.build(dict(plain, **({'w': cond} if cond else {})))
  if kind == 'simple':
    cls = type(inner)
    class Simple(cls):
      def compute_through(self, data, split_by):
        return super().compute_through(data, split_by)
    inner.__class__ = Simple
    inner.cache_across_instances = False
    return inner
  raise ValueError(kind)
