"""C14: models minimise the stated objective."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vp import fit, obs, ref, table
from vp.core import Skip, Suite, close, require, sut
from vp.props import c11

RULE = ('a random model (least squares, ridge, lasso, elastic net, logistic) '
        'with random options, x and y metrics, groupby, filters and split_by '
        'on a random table: the coefficients against an independent solver of '
        'the documented objective on the aggregated rows of every slice; the '
        'same metric is computed on another table before; models within '
        'arithmetic, lists and Jackknife against the same solver; non-trivial '
        '= some nonzero coefficient')


@st.composite
def gen_fit(draw):
  spec = draw(fit.problem())
  first = draw(st.integers(0, 2)) == 0
  t = spec['table']
  return dict(spec, first=fit.table_of(
      draw(st.integers(0, 999)), t['n'], len(set(t['cols']['u'])),
      [sorted(set(t['cols']['g'])), sorted(set(t['cols']['h']))],
      sorted(set(t['cols']['b'])) if len(set(t['cols']['b'])) == 2 else None)
              if first else None)


def quiet():
  return contextlib.redirect_stdout(io.StringIO())


def compare(got, want, what, rtol=2e-5, atol=2e-5):
  size = max([1.] + [abs(x) for v in want.rows.values() for x in v])
  obs.compare(got, want, what, rtol=rtol, atol=atol * size)


def run_fit(spec):
  rows, split = table.to_rows(spec['table']), spec['split']
  want = fit.expected(spec, rows, split)
  if premature(spec, want, rows):
    raise Skip('sklearn stops early')
  with sut(spec['kind']), quiet():
    m = fit.build(spec)
    if spec['first']:
      try:
        m.compute_on(table.to_df(spec['first']), split or None)
      except Exception:  # a degenerate problem
        pass
    got = m.compute_on(table.to_df(spec['table']), split or None)
    compare(obs.observe(got), want, spec['kind'])
  return labels(spec, want)


def premature(spec, want, rows):
  """Whether the saga solver of sklearn stops before the optimum."""
  from sklearn import linear_model
  if spec['kind'] != 'LogisticRegression' or spec['solver'] != 'saga':
    return False
  kw = {k: spec[k] for k in fit.OPTIONS[spec['kind']] if k in spec}
  if isinstance(kw.get('class_weight'), list):
    kw['class_weight'] = dict(zip(spec['classes'], kw['class_weight']))
  for k, (x, y) in fit.data(spec, rows, spec['split'])[0].items():
    m = linear_model.LogisticRegression(**kw).fit(x, y)
    w = list(m.intercept_) * spec['fit_intercept'] + list(m.coef_[0])
    if not np.allclose(w, want.rows[k], 1e-5, 1e-5):
      return True
  return False


def labels(spec, want):
  out = [spec['kind'], 'split%d' % len(spec['split'])]
  for k in ('normalize', 'fit_intercept', 'positive', 'class_weight', 'w'):
    if spec.get(k):
      out.append(k)
  if spec['kind'] == 'LogisticRegression':
    out.append('penalty:%s' % spec['penalty'])
  k = spec['fit_intercept']
  if any(abs(x) > 1e-6 for v in want.rows.values() for x in v[k:]):
    out.append('nontrivial')
  return out


@st.composite
def gen_wrapped(draw):
  spec = draw(fit.problem(kinds=fit.LINEAR))
  spec['over'] = [c for c in spec['over'] if c != 'g']
  wrap = draw(st.sampled_from(['scaled', 'minus', 'list', 'change', 'jackknife',
                               'jackknife', 'filter']))
  spec['split'] = draw(st.sampled_from([[], ['g']])) if wrap != 'change' else []
  return dict(spec, wrap=wrap, unit=draw(st.sampled_from(['u', 'k'])),
              opt=draw(st.booleans()))


def run_wrapped(spec):
  import meterstick as ms
  t = spec['table']
  # Units for Jackknife that do not decide the group.
  t = dict(t, cols=dict(t['cols'], k=[i % 3 for i in range(t['n'])]))
  rows, split, wrap = table.to_rows(t), spec['split'], spec['wrap']
  if wrap == 'filter':
    rows = [r for r in rows if r['x'] > -7]
  want = fit.expected(spec, rows, ['g'] if wrap == 'change' else split)
  se = None
  if wrap == 'change':
    keys = sorted(want.rows)
    base = want.rows[keys[0]]
    out = {k: [a - b for a, b in zip(want.rows[k], base)] for k in keys[1:]}
    if not out:
      raise Skip('nothing to compare')
  elif wrap == 'jackknife':
    out, se = want.rows, jackknife(spec, rows, split, want)
  else:
    f = {'scaled': lambda v: v * 2, 'minus': lambda v: 3 - v}.get(
        wrap, lambda v: v)
    out = {k: list(map(f, v)) for k, v in want.rows.items()}
  with sut('%s of %s' % (wrap, spec['kind'])), quiet():
    m = fit.build(spec)
    kw = {}
    if wrap == 'scaled':
      m = m * 2
    elif wrap == 'minus':
      m = 3 - m
    elif wrap == 'list':
      m = ms.MetricList([m, ms.Sum('x')])
    elif wrap == 'change':
      m = ms.AbsoluteChange('g', keys[0][0], m)
    elif wrap == 'jackknife':
      m = ms.Jackknife(spec['unit'], m, enable_optimization=spec['opt'])
    elif wrap == 'filter':
      m = m.set_name(m.name) if False else ms.MetricList([m], where='x > -7')
    got = obs.observe(m.compute_on(table.to_df(t), split or None))[2]
  require(set(got) == set(out), 'slices %s, expected %s', sorted(got),
          sorted(out))
  n = len(want.cols)
  size = max([1.] + [abs(x) for v in want.rows.values() for x in v])
  for k, v in out.items():
    g = got[k]
    if se:
      require(len(g) == 2 * n, '%s columns', len(g))
      for j in range(n):
        require(close(g[2 * j], v[j], 2e-5, 2e-5 * size) and close(
            g[2 * j + 1], se[k][j], 1e-4, 1e-4 * size),
                'at %s %s: %s, expected %s and %s', k, want.cols[j],
                g[2 * j:2 * j + 2], v[j], se[k][j])
    else:
      for a, b in zip(v, g):
        require(close(a, b, 2e-5, 4e-5 * size), '%s at %s: %s, expected %s',
                wrap, k, g, v)
  return [spec['kind'], wrap, 'nontrivial']


def jackknife(spec, rows, split, want):
  """The standard errors from refits without one unit at a time."""
  reps = {k: [] for k in want.rows}
  for key in want.rows:
    part = [r for r in rows if tuple(r[c] for c in split) == key]
    units = set(r[spec['unit']] for r in part)
    if len(units) < 2:
      raise Skip('a single unit')
    for u in sorted(units):
      res = fit.expected(spec, [r for r in part if r[spec['unit']] != u], split)
      reps[key].append(res.rows[key])
  return {k: [c11.stderr([r[j] for r in v])[0] for j in range(len(want.cols))]
          for k, v in reps.items()}


@st.composite
def gen_classes(draw):
  spec = draw(fit.problem(kinds=['LogisticRegression']))
  spec.update(penalty='l2', solver='lbfgs')
  for k in ('class_weight', 'classes', 'l1_ratio'):
    spec.pop(k, None)
  r = draw(st.lists(st.integers(0, 3), min_size=spec['table']['n'],
                    max_size=spec['table']['n']))
  spec['table']['cols']['b'] = r
  return spec


def run_classes(spec):
  """Several classes: the gradient of the multinomial likelihood is zero."""
  rows, split = table.to_rows(spec['table']), spec['split']
  parts, cols = fit.data(spec, rows, split)
  classes = {k: sorted(set(y)) for k, (x, y) in parts.items()}
  if any(len(c) < 3 for c in classes.values()) or len(
      set(map(tuple, classes.values()))) > 1:
    raise Skip('not several classes')
  classes = list(classes.values())[0]
  fi = spec['fit_intercept']
  names = ['intercept'] * fi + list(cols[1:])
  with sut('LogisticRegression'), quiet():
    got = fit.build(spec).compute_on(table.to_df(spec['table']), split or None)
    idx, labels_, out = obs.observe(got)
  require(set(out) == set(parts), 'slices %s', sorted(out))
  require(len(labels_) == len(names) * len(classes), 'columns %s', labels_)
  for i, (c, n) in enumerate((c, n) for c in classes for n in names):
    head, label = str(labels_[i]).rsplit(' for class ', 1)
    require(head == '%s Coefficient: %s' % (fit.name(spec), n) and
            float(label) == c, 'column %s is %s', i, labels_[i])
  for k, (x, y) in parts.items():
    d = np.hstack([np.ones((len(y), 1)), x]) if fi else x
    w = np.array(out[k], float).reshape(len(classes), -1)
    z = d @ w.T
    p = np.exp(z - z.max(1, keepdims=True))
    p /= p.sum(1, keepdims=True)
    for j, c in enumerate(classes):
      pen = w[j].copy()
      if fi:
        pen[0] = 0
      grad = spec['C'] * d.T @ (p[:, j] - (y == c)) + pen
      scale = 1 + spec['C'] * abs(d).sum()
      require(abs(grad).max() < 1e-4 * scale,
              'slice %s, class %s: the gradient is %s', k, c, grad)
  return ['%d classes' % len(classes), 'nontrivial']


SUITES = [Suite('fit', gen_fit, run_fit, 1600, 60000),
          Suite('wrapped', gen_wrapped, run_wrapped, 600, 20000),
          Suite('classes', gen_classes, run_classes, 240, 8000)]
