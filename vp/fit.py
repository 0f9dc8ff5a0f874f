"""Reference fits of the models, and generators of well-posed problems."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from vp import case, conds, dsl, ref, table, tree
from vp.core import Skip, isnull

SHORT = {'LinearRegression': 'OLS', 'Ridge': 'Ridge', 'Lasso': 'Lasso',
         'ElasticNet': 'ElasticNet', 'LogisticRegression': 'LogisticRegression'}
LINEAR = ['LinearRegression', 'Ridge', 'Lasso', 'ElasticNet']
GROUPS = ['u', 'v h', 'y']


def conditioned(x, limit=60):
  """Raises Skip unless the columns are far from collinear."""
  norms = np.sqrt((x ** 2).sum(0))
  if (norms < 1e-9).any():
    raise Skip('a constant column')
  if np.linalg.cond(x / norms) > limit:
    raise Skip('an ill-conditioned problem')


def coordinate_descent(q, c, l1, positive):
  """Minimizes w'qw/2 - c'w + l1 |w|_1."""
  w = np.zeros(len(c))
  for _ in range(200000):
    change = 0
    for j in range(len(c)):
      r = c[j] - q[j] @ w + q[j, j] * w[j]
      if positive:
        new = max(r - l1, 0) / q[j, j]
      else:
        new = math.copysign(max(abs(r) - l1, 0), r) / q[j, j]
      change = max(change, abs(new - w[j]))
      w[j] = new
    if change < 1e-13:
      return w
  raise Skip('the reference does not converge')


def linear(x, y, intercept, l1=0., l2=0., positive=False):
  """Minimizes |y - b - xw|^2 / 2n + l1 |w|_1 + l2 |w|^2 / 2: [b] + w."""
  n, k = x.shape
  if n < k + intercept + 1:
    raise Skip('too few observations')
  mx, my = (x.mean(0), y.mean()) if intercept else (np.zeros(k), 0.)
  xc, yc = x - mx, y - my
  conditioned(xc)
  q = xc.T @ xc / n + l2 * np.identity(k)
  c = xc.T @ yc / n
  w = coordinate_descent(q, c, l1, positive) if l1 or positive else (
      np.linalg.solve(q, c))
  return np.concatenate([[my - mx @ w], w]) if intercept else w


def sigmoid(z):
  return np.where(z < 0, np.exp(np.minimum(z, 0)) / (
      1 + np.exp(np.minimum(z, 0))), 1 / (1 + np.exp(-np.maximum(z, 0))))


def logistic(x, y, intercept, c, l1_ratio, weights):
  """Minimizes c * sum(weights * logloss) + r |w|_1 + (1 - r) |w|^2 / 2.

  There is no penalty when l1_ratio is None."""
  n, k = x.shape
  conditioned(x - x.mean(0) if intercept else x)
  d = np.hstack([np.ones((n, 1)), x]) if intercept else x
  pen = np.ones(d.shape[1])
  if intercept:
    pen[0] = 0
  l1, l2 = (0, 0) if l1_ratio is None else (l1_ratio, 1 - l1_ratio)
  w = np.zeros(d.shape[1])
  grad = lambda w: c * d.T @ (weights * (sigmoid(d @ w) - y)) + l2 * pen * w
  if not l1:
    for _ in range(200):
      p = sigmoid(d @ w)
      h = c * (d.T * (weights * p * (1 - p))) @ d + l2 * np.diag(pen)
      if np.linalg.cond(h) > 1e9 or abs(w).max() > 15:
        raise Skip('separable classes')
      step = np.linalg.solve(h, grad(w))
      size = abs(step).max()
      w = w - step * min(1, 2 / size if size else 1)
      if size < 1e-12:
        return w
    raise Skip('the reference does not converge')
  lip = c * np.linalg.eigvalsh((d.T * weights) @ d).max() / 4 + l2
  v, t = w, 1.
  for _ in range(60000):
    z = v - grad(v) / lip
    new = np.where(pen > 0, np.sign(z) * np.maximum(abs(z) - l1 / lip, 0), z)
    t2 = (1 + math.sqrt(1 + 4 * t * t)) / 2
    v = new + (t - 1) / t2 * (new - w)
    if abs(new - w).max() < 1e-13 and abs(new - v).max() < 1e-12:
      return new
    w, t = new, t2
  raise Skip('the reference does not converge')


def weigh(spec, y):
  """The weight of every observation."""
  cw = spec.get('class_weight')
  if not cw:
    return np.ones(len(y))
  if cw == 'balanced':
    classes, counts = np.unique(y, return_counts=True)
    w = dict(zip(classes, len(y) / (len(classes) * counts)))
  else:
    w = dict(zip(sorted(set(y)), cw))
  return np.array([w[v] for v in y])


def solve(spec, x, y):
  """The coefficients of a model, the intercept first."""
  k, fi = spec['kind'], spec['fit_intercept']
  if k == 'LogisticRegression':
    classes = sorted(set(y))
    if len(classes) != 2:
      raise Skip('not two classes')
    l1_ratio = {None: None, 'l2': 0, 'l1': 1,
                'elasticnet': spec.get('l1_ratio')}[spec['penalty']]
    return logistic(x, (y == classes[1]).astype(float), fi, spec['C'],
                    l1_ratio, weigh(spec, y))
  n = len(y)
  if n < 2:
    raise Skip('too few observations')
  mean, norms = x.mean(0), np.ones(x.shape[1])
  normalized = fi and spec['normalize']
  if normalized:
    norms = np.sqrt(((x - mean) ** 2).sum(0))
    if (norms < 1e-9).any():
      raise Skip('a constant column')
    x = (x - mean) / norms
  alpha, r = spec.get('alpha', 0), spec.get('l1_ratio', 0)
  l1, l2 = {'LinearRegression': (0, 0), 'Ridge': (0, alpha / n),
            'Lasso': (alpha, 0), 'ElasticNet': (alpha * r, alpha * (1 - r))}[k]
  w = linear(x, y, fi, l1, l2, bool(spec.get('positive')))
  if normalized:
    w = np.concatenate([[0], w[1:] / norms])
    w[0] = y.mean() - mean @ w[1:]
  return w


def data(spec, rows, split):
  """{slice: (x, y)} and the labels of y and x."""
  m = {'t': 'List', 'c': [spec['y']] + spec['x']}
  if spec.get('w'):
    rows = conds.keep(spec['w'], rows)
  if not rows:
    raise Skip('filters leave nothing')
  res = case.expected(m, rows, split + spec['over'])
  out = {}
  for k, v in res.rows.items():
    if any(ref.is_any(x) or hasattr(x, 'members') or isnull(x) or math.isinf(x)
           for x in v):
      raise Skip('missing values')
    out.setdefault(k[:len(split)], []).append([float(x) for x in v])
  if not out:
    raise Skip('an empty result')
  out = {k: np.array(v) for k, v in sorted(out.items())}
  return {k: (v[:, 1:], v[:, 0]) for k, v in out.items()}, res.cols


def name(spec):
  if spec.get('name'):
    return spec['name']
  cols = [tree.cols(x) for x in spec['x']]
  return '%s(%s ~ %s)' % (
      SHORT[spec['kind']], tree.cols(spec['y'])[0], ' + '.join(
          x.get('name') or c[0] for x, c in zip(spec['x'], cols)))


def expected(spec, rows, split):
  """ref.Res of the coefficients."""
  parts, cols = data(spec, rows, split)
  names = ['intercept'] * spec['fit_intercept'] + list(cols[1:])
  tmpl = name(spec) + ' Coefficient: {}'
  return ref.Res(list(split), [tmpl.format(c) for c in names], {
      k: [float(v) for v in solve(spec, x, y)] for k, (x, y) in parts.items()})


OPTIONS = {
    'LinearRegression': ['fit_intercept', 'normalize'],
    'Ridge': ['fit_intercept', 'normalize', 'alpha'],
    'Lasso': ['fit_intercept', 'normalize', 'alpha', 'tol', 'max_iter',
              'positive'],
    'ElasticNet': ['fit_intercept', 'normalize', 'alpha', 'l1_ratio', 'tol',
                   'max_iter', 'positive'],
    'LogisticRegression': ['fit_intercept', 'penalty', 'C', 'tol', 'max_iter',
                           'solver', 'l1_ratio', 'class_weight',
                           'random_state'],
}


def build(spec, child=dsl.build):
  import meterstick as ms
  from meterstick import models
  kw = {k: spec[k] for k in OPTIONS[spec['kind']] if k in spec}
  if isinstance(kw.get('class_weight'), list):
    kw['class_weight'] = dict(zip(spec['classes'], kw['class_weight']))
  over = spec['over']
  kw['group_by'] = over[0] if len(over) == 1 and spec.get('bare') else list(over)
  if spec.get('w'):
    kw['where'] = conds.to_where(spec['w'])
  if spec.get('name'):
    kw['name'] = spec['name']
  y, x = child(spec['y']), [child(c) for c in spec['x']]
  cls = getattr(models, spec['kind'])
  form = spec.get('form', 'list')
  if form == 'pipe':
    return ms.MetricList([y] + x) | cls(**kw)
  if form == 'metriclist':
    x = ms.MetricList(x)
  elif form == 'single' and len(x) == 1:
    x = x[0]
  return cls(y, x, **kw)


def table_of(seed, n, groups, names, binary=None):
  """A table of random numbers."""
  r = random.Random(seed)
  # Every group is present in every slice.
  cols = {'g': [], 'u': [], 'h': []}
  us = ['r', 'q', 's', 'A', 't', 'B', 'z', 'c'][:groups] if r.random(
      ) < .5 else [3, 1, 2, 7, 5, 4, 9, 8][:groups]
  for i in range(n):
    cols['g'].append(names[0][i // groups % len(names[0])])
    cols['u'].append(us[i % groups])
    cols['h'].append(names[1][r.randrange(len(names[1]))])
  for c in ('x', 'y', 'z'):
    cols[c] = [r.randint(-8, 8) * (0.25 if c == 'z' else 1) for _ in range(n)]
  lo, hi = binary or (0, 1)
  cols['b'] = [r.choice([lo, hi]) for _ in range(n)]
  cols['w'] = [r.randint(1, 3) for _ in range(n)]
  order = list(range(n))
  r.shuffle(order)
  return {'n': n, 'cols': {c: [v[i] for i in order] for c, v in cols.items()}}


@st.composite
def column(draw, names=True):
  """A metric usable as x or y."""
  v, v2 = draw(st.sampled_from(['x', 'y', 'z'])), draw(
      st.sampled_from(['x', 'y', 'z']))
  k = draw(st.integers(0, 9))
  if k <= 3:
    m = {'t': draw(st.sampled_from(['Sum', 'Sum', 'Mean', 'Max', 'Min'])),
         'var': v}
  elif k == 4:
    m = {'t': 'Dot', 'var': v, 'var2': v2}
  elif k == 5:
    m = {'t': 'Mean', 'var': v, 'weight': 'w'}
  elif k == 6:
    m = {'t': 'op', 'op': draw(st.sampled_from('+-*')),
         'a': {'t': 'Sum', 'var': v}, 'b': draw(st.sampled_from(
             [2, {'t': 'Max', 'var': v2}]))}
  elif k == 7:
    m = {'t': 'Ratio', 'num': v, 'den': 'w'}
  elif k == 8:
    m = {'t': 'Sum', 'var': v, 'w': [['w', '>=', 1]]}
  else:
    m = {'t': 'Count', 'var': v}
  if names and m['t'] not in ('op', 'Ratio') and draw(st.integers(0, 5)) == 0:
    m['name'] = draw(st.sampled_from(['foo', 'my y', 'x0', 'a-b']))
  return m


@st.composite
def problem(draw, kinds=tuple(LINEAR) + ('LogisticRegression',) * 3, magic=False):
  """A model with a table on which its optimum is likely to be unique."""
  kind = draw(st.sampled_from(list(kinds)))
  k = draw(st.sampled_from([1, 1, 2, 2, 3]))
  y, xs = draw(column()), []
  for _ in range(k):
    c = draw(column())
    if tree.cols(c) not in [tree.cols(o) for o in xs + [y]]:
      xs.append(c)
  if not xs:
    xs.append({'t': 'Mean', 'var': 'z', 'name': 'mean z'})
  spec = {'kind': kind, 'x': xs, 'y': y,
          'fit_intercept': draw(st.sampled_from([True, True, False])),
          'normalize': draw(st.booleans()),
          'over': draw(st.sampled_from([['u'], ['u'], ['u', 'h'], ['h', 'u']])),
          'bare': draw(st.booleans()),
          'form': draw(st.sampled_from(
              ['list', 'metriclist', 'single'] + (
                  ['pipe'] if kind != 'LogisticRegression' else []))),
          'w': draw(st.sampled_from([[], [], [['w', '<', 3]]])),
          'name': draw(st.sampled_from([None, None, 'my model']))}
  if spec['form'] == 'pipe':
    spec['name'] = None
  binary = draw(st.sampled_from([(0, 1), (0, 1), (1, 3), (-1, 2)]))
  if kind in ('Ridge', 'Lasso', 'ElasticNet'):
    spec['alpha'] = draw(st.sampled_from([0.01, 0.1, 1, 3]))
  if kind == 'ElasticNet':
    spec['l1_ratio'] = draw(st.sampled_from([0.2, 0.5, 0.9, 1]))
  if kind in ('Lasso', 'ElasticNet'):
    spec.update(tol=1e-10, max_iter=100000)
    if draw(st.integers(0, 3)) == 0:
      spec['positive'] = True
  if kind == 'LogisticRegression':
    spec['y'] = {'t': draw(st.sampled_from(['Max', 'Min'])), 'var': 'b'}
    spec['normalize'] = False
    spec['penalty'] = draw(st.sampled_from([None, 'l2', 'l2', 'l1', 'elasticnet']))
    spec['C'] = draw(st.sampled_from([0.3, 1.0, 4.0]))
    smooth = spec['penalty'] in (None, 'l2')
    spec.update(tol=1e-9, max_iter=100000, solver='lbfgs' if smooth else 'saga',
                random_state=3)
    if spec['penalty'] == 'elasticnet':
      spec['l1_ratio'] = draw(st.sampled_from([0.2, 0.5, 0.9]))
    if not magic and draw(st.integers(0, 3)) == 0:
      spec['class_weight'] = draw(st.sampled_from(['balanced', [1, 4], [2, 1]]))
      spec['classes'] = list(binary)
  groups = draw(st.integers(k + 2, 8))
  names = [draw(st.sampled_from(['ab', 'ab', [1, 2], ['x', 'a b'], [2.5, 0.5]])),
           draw(st.sampled_from([[1], [1, 2], ['m', 'k']]))]
  n = groups * len(names[0]) * draw(st.integers(1, 3))
  t = table_of(draw(st.integers(0, 10 ** 6)), n, groups, names, binary)
  return dict(spec, table=t, split=draw(
      st.sampled_from([[], [], ['g'], ['g'], ['g', 'h'] if spec['over'] == [
          'u'] else ['g']])))
