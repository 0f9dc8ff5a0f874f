"""C19: models through SQL give the coefficients of the DataFrame fit."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vp import bq, fit, obs, ref, sqlcase, table, tree
from vp.core import Skip, Suite, require, sut
from vp.props import c14

RULE = ('a random model with random options, x and y metrics, groupby, filters '
        'and split_by (also with names and values that need escaping) on a '
        'random table, computed by compute_on_sql in the modes None, mixed and '
        'magic; the generated queries are run by an own interpreter of BigQuery '
        'SQL and the coefficients compared with an independent solver of the '
        'documented objective; non-trivial = some nonzero coefficient')
SPLITS = ['g', 'g', 'g', 'my g', 'g-1', 'UPPER(g)']


def quoted(c):
  """The column in SQL."""
  return '`%s`' % c if c in ('my g', 'g-1') else c


@st.composite
def gen_sql(draw):
  spec = draw(fit.problem(magic=True))
  mode = draw(st.sampled_from(['magic', 'magic', 'magic', None, 'mixed']))
  if mode != 'magic' and spec['kind'] == 'LogisticRegression' and draw(
      st.integers(0, 2)) == 0:
    spec['class_weight'] = draw(st.sampled_from(['balanced', [1, 4], [2, 1]]))
    spec['classes'] = sorted(set(spec['table']['cols']['b']))
    if len(spec['classes']) != 2:
      del spec['class_weight']
  if spec['kind'] == 'LogisticRegression' and spec['penalty'] in (
      'l1', 'elasticnet') and mode == 'magic':
    # Every iteration is a query.
    spec.update(max_iter=150, tol=1e-7)
  elif spec['kind'] == 'LogisticRegression' and mode == 'magic':
    spec['max_iter'] = 60
  if spec['kind'] == 'LogisticRegression' and mode == 'magic':
    cols = spec['table']['cols']
    scale = draw(st.sampled_from([1, 0.25, 0.125]))
    spec['table'] = dict(spec['table'], cols=dict(cols, **{
        c: [v * scale for v in cols[c]] for c in 'xyz'}))
  g = draw(st.sampled_from(SPLITS))
  t = spec['table']
  if g != 'g':
    spec['table'] = dict(t, cols={g if k == 'g' else k: v
                                  for k, v in t['cols'].items()})
    spec['split'] = [g if k == 'g' else k for k in spec['split']]
  if g == 'UPPER(g)':
    col = spec['table']['cols'][g]
    spec['table'] = dict(spec['table'], cols=dict(
        spec['table']['cols'], **{g: [str(v).upper() for v in col]}))
  elif draw(st.integers(0, 2)) == 0:
    odd = draw(st.permutations(["O'B", 'a"b', 'c\\d', 'x', '', '%s', '{}']))
    col = spec['table']['cols'][g]
    names = dict(zip(sorted(set(col), key=str), odd))
    spec['table'] = dict(spec['table'], cols=dict(
        spec['table']['cols'], **{g: [names[v] for v in col]}))
  return dict(spec, mode=mode, tbl=draw(st.sampled_from(sorted(sqlcase.TABLES))),
              melted=draw(st.integers(0, 4)) == 0)


def newton(spec, rows):
  """Whether Newton's method converges from all the usual starting points."""
  rng = np.random.RandomState(0)
  for x, y in fit.data(spec, rows, spec['split'])[0].values():
    d = np.hstack([x, np.ones((len(y), 1))]) if spec['fit_intercept'] else x
    pen = np.array([1.] * x.shape[1] + [0.] * spec['fit_intercept'])
    pen *= (spec['penalty'] == 'l2') / spec['C']
    y = (y == y.max()).astype(float)
    for start in range(300):
      w = rng.random_sample(d.shape[1]) * 2 - 0.5
      for _ in range(50):
        p = fit.sigmoid(d @ w)
        h = (d.T * (p * (1 - p))) @ d + np.diag(pen)
        if abs(d @ w).max() > 20 or np.linalg.cond(h) > 1e8:
          return False
        step = np.linalg.solve(h, d.T @ (p - y) + pen * w)
        w = w - step
      if abs(step).max() > 1e-10:
        return False
  return True


def run_sql(spec):
  rows, split = table.to_rows(spec['table']), spec['split']
  with ref.sql():
    want = fit.expected(spec, rows, split)
  slow = spec['kind'] == 'LogisticRegression' and spec['penalty'] in (
      'l1', 'elasticnet')
  magic = spec['kind'] == 'LogisticRegression' and spec['mode'] == 'magic'
  if slow and spec['mode'] != 'magic' and c14.premature(spec, want, rows):
    raise Skip('sklearn stops early')
  if spec['y'] in spec['x']:
    raise Skip('y is one of the x')
  want.idx = [quoted(c) for c in want.idx]
  sql_split = list(want.idx)
  if spec['mode'] == 'magic' and spec['kind'] in ('Lasso', 'ElasticNet') and (
      not spec['normalize'] or not spec['fit_intercept']):
    for x, _ in fit.data(spec, rows, split)[0].values():
      x = x - x.mean(0) if spec['fit_intercept'] else x
      if np.linalg.cond(x) > 60:
        raise Skip('features of different scales')
  what = '%s in mode %s' % (spec['kind'], spec['mode'])
  out = io.StringIO()
  with sut(what), contextlib.redirect_stdout(out):
    m = fit.build(spec)
    e = sqlcase.engine(dict(spec['table'], cols={
        'g' if k == 'UPPER(g)' else k: v
        for k, v in spec['table']['cols'].items()}), 0)
    try:
      got = m.compute_on_sql(sqlcase.TABLES[spec['tbl']], sql_split or None,
                             bq.execute(e), melted=spec['melted'],
                             mode=spec['mode'])
    except Exception:
      if magic and not slow and not newton(spec, rows):
        raise Skip('Newton diverges')
      raise
    if spec['melted']:
      from meterstick import utils
      got = utils.unmelt(got)
    got = obs.reorder(obs.observe(got), want.idx)
    if "didn't converge" in out.getvalue() and magic and (
        slow or not newton(spec, rows)):
      raise Skip('out of iterations')
    tol = 5e-3 if slow else 1e-3 if spec['kind'] in (
        'Lasso', 'ElasticNet') and spec['mode'] == 'magic' else 2e-5
    c14.compare(got, want, what, tol, tol)
  return ['mode:%s' % spec['mode']] + c14.labels(spec, want)


SUITES = [Suite('sql', gen_sql, run_sql, 1000, 30000)]
