"""A stand-in for the parts of apache_beam the library calls.

Collections hold rows; SqlTransform only records its text, and running it is up
to the `execute` of the caller, as in Beam. Labels must be unique within a
pipeline, deferred writes happen when the pipeline runs, and a written
collection is spread over shards, all as in Beam.
"""
import os
import sys
import types

import pandas as pd


class Pipeline:

  def __init__(self):
    self.labels, self.todo, self.runs = set(), [], 0

  def label(self, s):
    if not isinstance(s, str):
      raise TypeError('label %r' % (s,))
    if s in self.labels:
      raise RuntimeError('a transform with label %r already exists' % s)
    self.labels.add(s)

  def run(self):
    self.runs += 1
    for f in self.todo:
      f()
    self.todo = []


class PCollection:

  def __init__(self, pipeline, df, source=None, transform=None):
    self.pipeline, self.df = pipeline, df
    self.source, self.transform = source, transform

  def __or__(self, other):
    label, tr = other if isinstance(other, tuple) else (repr(other), other)
    self.pipeline.label(label)
    return PCollection(self.pipeline, None, self, tr)


class SqlTransform:

  def __init__(self, query, dialect=None, experiments=None,
               expansion_service=None, **kw):
    if not isinstance(query, str):
      raise TypeError('query must be a string')
    if kw:
      raise TypeError('unexpected %s' % sorted(kw))
    self.query, self.dialect, self.experiments = query, dialect, experiments

  def __rrshift__(self, label):
    return (label, self)


class Deferred:

  def __init__(self, pcol):
    self.pcol = pcol


def to_dataframe(pcoll, proxy=None, label=None):
  if not isinstance(pcoll, PCollection):
    raise TypeError('not a PCollection')
  pcoll.pipeline.label(label or 'BatchElements(pcoll)')
  return Deferred(pcoll)


def install(shards=1):
  """Puts the stand-in in sys.modules."""

  def to_csv(df, path, transform_label=None, *args, **kw):
    p = df.pcol.pipeline
    p.label(transform_label or 'WriteToPandas(df)')

    def write():
      rows = df.pcol.df
      os.makedirs(os.path.dirname(path), exist_ok=True)
      n = min(shards, max(1, len(rows)))
      for i in range(n):
        part = rows.iloc[i::n]
        part.to_csv('%s-%05d-of-%05d' % (path, i, n), *args, **kw)
    p.todo.append(write)

  mods = {k: types.ModuleType(k) for k in (
      'apache_beam', 'apache_beam.pvalue', 'apache_beam.transforms',
      'apache_beam.transforms.sql', 'apache_beam.dataframe',
      'apache_beam.dataframe.convert', 'apache_beam.dataframe.io')}
  mods['apache_beam.pvalue'].PCollection = PCollection
  mods['apache_beam.transforms.sql'].SqlTransform = SqlTransform
  mods['apache_beam.dataframe.convert'].to_dataframe = to_dataframe
  mods['apache_beam.dataframe.io'].to_csv = to_csv
  for k, m in mods.items():
    m.__path__ = []
    if '.' in k:
      parent, name = k.rsplit('.', 1)
      setattr(mods[parent], name, m)
  sys.modules.update(mods)


def frame(t):
  return pd.DataFrame({c: pd.Series(v, dtype=object) for c, v in
                       t['cols'].items()})
