"""C06: metrics considered equal compute the same thing."""
import contextlib
import copy
import io
import json
import pickle

from hypothesis import strategies as st

from vp import conds, dsl, gen, mgen, obs, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c05

RULE = ('a random metric spec and a second one that differs in one option, '
        'filter, operand, operator, label or class: whenever the two metrics '
        'are equal or share a fingerprint their values on random tables must '
        'agree (and equal metrics must hash alike, equality be symmetric); '
        'copies, pickles and rebuilt metrics must be equal and compute the '
        'same; non-trivial = the two specs give different values and are '
        'told apart, or a copy with finite values')
OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'AbsoluteChange', 'MH', 'HHI', 'TopK', 'Nxx', 'Entropy']
LEAF = tgen.Opts(depth=0)

FUNCS = [lambda x, y: x + 2 * y, lambda x, y: x - 2 * y,
         lambda x, y: x * y + 1, lambda x, y: y - x]


def closure(k):
  return lambda x, y: x + k * y


class Callable:
  """An operator with state."""

  def __init__(self, k):
    self.k = k

  def __call__(self, x, y):
    return x * self.k + y


def func(k):
  import numpy as np
  return (FUNCS + [closure(2), closure(3), np.add, np.subtract])[k]


def build(m):
  """dsl.build plus user-made operators and models."""
  from meterstick import CompositeMetric, models
  real = dsl.build
  def b(s):
    if isinstance(s, dict) and s.get('t') == 'user_op':
      return CompositeMetric(func(s['f']), s['tmpl'], (b(s['a']), b(s['b'])))
    if isinstance(s, dict) and s.get('t') in MODELS:
      kw = {k: v for k, v in s.items() if k in MODELS[s['t']]}
      x = [b(c) for c in s['c']]
      return getattr(models, s['t'])(
          b(s['a']), x if len(x) > 1 else x[0], s['over'],
          where=conds.to_where(s.get('w') or []), **kw)
    return real(s)
  dsl.build = b
  try:
    return b(m)
  finally:
    dsl.build = real


MODELS = {
    'LinearRegression': ['fit_intercept', 'normalize'],
    'Ridge': ['fit_intercept', 'normalize', 'alpha', 'solver', 'max_iter',
              'random_state'],
    'Lasso': ['fit_intercept', 'normalize', 'alpha', 'positive', 'max_iter',
              'tol'],
    'ElasticNet': ['fit_intercept', 'normalize', 'alpha', 'l1_ratio',
                   'positive', 'max_iter', 'tol'],
    'LogisticRegression': ['fit_intercept', 'penalty', 'C', 'class_weight',
                           'max_iter'],
}


@st.composite
def model(draw):
  t = draw(st.sampled_from(sorted(MODELS)))
  m = {'t': t, 'a': {'t': 'Sum', 'var': 'x'}, 'c': [{'t': 'Sum', 'var': 'y'}],
       'over': draw(st.sampled_from([['g', 'h'], ['h', 'g'], ['u', 'h']])),
       'fit_intercept': draw(st.booleans()), 'normalize': draw(st.booleans())}
  if draw(st.booleans()):
    m['c'].append({'t': 'Count', 'var': 'x'})
  if 'alpha' in MODELS[t]:
    m['alpha'] = draw(st.sampled_from([0.1, 0.2, 1]))
  if 'l1_ratio' in MODELS[t]:
    m['l1_ratio'] = draw(st.sampled_from([0.3, 0.5]))
  fix(m)
  return m


@st.composite
def spec(draw):
  k = draw(st.integers(0, 9))
  if k <= 2:
    return draw(tgen.leaf(LEAF))
  if k == 3:
    return draw(tgen.expr(LEAF, 1))
  if k == 4:
    return draw(model())
  if k == 5:
    return {'t': 'user_op', 'f': draw(st.integers(0, 7)),
            'tmpl': draw(st.sampled_from(['f({}, {})', '{} + {}', '{} / {}'])),
            'a': draw(st.sampled_from([{'t': 'Sum', 'var': 'x'},
                                       {'t': 'Sum', 'var': 'y'}])),
            'b': draw(st.sampled_from([{'t': 'Count', 'var': 'x'}, 2]))}
  if k <= 7:
    return draw(tgen.any_tree(tgen.Opts(depth=1, ops=OPS), ['h', 'p']))
  pool = [draw(tgen.leaf(c05.SUMS))]
  pool.append(draw(c05.node(pool)))
  pool.append(draw(c05.node(pool)))
  return c05.resolve(pool[2], pool)


ALT = {
    'var': ['x', 'y'], 'var2': ['x', 'y'], 'num': ['x', 'y', 'f'],
    'den': ['w', 'f', 'y'], 'weight': [None, 'w'], 'fweight': [None, 'f'],
    'distinct': [True, False], 'normalize': [True, False],
    'unbiased': [True, False], 'bias': [True, False], 'ddof': [None, 0, 1, 2],
    'q': [0.0, 0.25, 0.5, 0.75, [0.25, 0.5], [0.25, 0.75], [0.5, 0.25]],
    'interp': ['linear', 'lower', 'higher', 'midpoint', 'nearest'],
    'method': ['pearson', 'spearman', 'kendall'], 'n': [0, 1, 2, 3, -1],
    'sort_by': ['k', 'x'], 'ascending': [True, False], 'dropna': [True, False],
    'over': ['h', 'p', ['h', 'p'], ['p', 'h']], 'cond': ['h', ['h']],
    'base': [1, 2], 'include_base': [True, False], 'order': [
        None, [1, 2], [2, 1]], 'by_values': [True, False], 'k': [1, 2, 3],
    'share': [0.3, 0.5, 0.9, 1.0], 'strat': ['u', 'p', None, ['u', 'p']],
    'unit': ['u', 'v', None], 'confidence': [None, 0.5, 0.9],
    'opt': [True, False], 'fit_intercept': [True, False],
    'alpha': [0.1, 0.2, 1], 'l1_ratio': [0.3, 0.5, 1], 'f': list(range(8)),
    'positive': [False, True], 'solver': ['auto', 'sag'],
    'max_iter': [1, 3, 1000], 'tol': [1e-4, 1.0], 'penalty': [None, 'l2'],
    'C': [0.5, 1.0, 4.0], 'class_weight': [None, 'balanced'],
    'op': ['+', '-', '*', '/', '**'], 'name': ['foo', 'bar'],
    'tmpl': ['f({}, {})', '{} + {}'],
    't': [],
}
SIBLINGS = [['Sum', 'Mean', 'Max', 'Min', 'Count'],
            ['Variance', 'StandardDeviation', 'CV'],
            ['Correlation', 'Cov', 'Dot'],
            ['Distribution', 'CumulativeDistribution', 'HHI', 'Entropy',
             'Normalize'],
            ['PercentChange', 'AbsoluteChange'],
            ['PrePostChange', 'CUPED'],
            ['Jackknife', 'Bootstrap', 'PoissonBootstrap'],
            ['LinearRegression', 'Ridge', 'Lasso', 'ElasticNet']]


def candidates(n):
  """(key, value) changes applicable to a node."""
  out = []
  for key, vals in ALT.items():
    if key not in n:
      if not (key == 'weight' and n['t'] in (
          'Mean', 'Variance', 'StandardDeviation', 'Quantile') or
              key == 'confidence' and c05.is_ci(n)):
        continue
    if key == 'tmpl' and n['t'] != 'user_op':
      continue
    if key == 'over' and n['t'] in MODELS:
      vals = [['g', 'h'], ['h', 'g'], ['u', 'h']]
    if key == 'op' and n['t'] != 'op':
      continue
    if key == 'unit' and n['t'] == 'Jackknife':
      vals = ['u', 'v']
    if key == 'strat' and n['t'] == 'MH':
      vals = ['p', 'g']
    if key == 'base' and (isinstance(n['base'], list) or n['cond'] not in (
        'h', ['h'])):
      continue
    if key == 'cond' and n['cond'] not in ('h', ['h']):
      continue
    if key == 'order' and n.get('over') not in ('h', ['h']):
      continue
    out += [(key, v) for v in vals if json.dumps(v) != json.dumps(n.get(key))]
  for s in SIBLINGS:
    if n['t'] in s:
      out += [('t', v) for v in s if v != n['t']]
  return out


@st.composite
def mutate(draw, m):
  m = json.loads(json.dumps(m))
  n = draw(st.sampled_from([x for x in tree.walk(m) if isinstance(x, dict)]))
  k = draw(st.integers(0, 7))
  if k == 0:
    n.pop('w', None)
    if draw(st.booleans()):
      n['w'] = [draw(conds.cond(g=False))]
  elif k == 1 and isinstance(n.get('b'), (dict, int, float)) and 'a' in n:
    n['a'], n['b'] = n['b'], n['a']
  elif k == 1 and 'b' in n and n['t'] == 'op':
    n['b'] = draw(st.sampled_from([1, 2, 0.5, 1.0, 3]))
  elif k == 1 and len(n.get('c', ())) > 1:
    n['c'] = n['c'][::-1]
  elif k == 2 and isinstance(n.get('child'), dict):
    if draw(st.booleans()):
      n['w'], n['child']['w'] = n['child'].get('w') or [], n.get('w') or []
    else:
      n['child'] = draw(tgen.leaf(c05.SUMS))
  else:
    c = candidates(n)
    if c:
      key, v = draw(st.sampled_from(c))
      n[key] = v
      if key == 't':
        fix(n)
  return m


def fix(n):
  t = n['t']
  if t in ('Bootstrap', 'PoissonBootstrap'):
    n.setdefault('n', 4)
  if t == 'Cov':
    n.setdefault('bias', False)
  if 'alpha' in MODELS.get(t, ()):
    n.setdefault('alpha', 0.1)
  if 'l1_ratio' in MODELS.get(t, ()):
    n.setdefault('l1_ratio', 0.5)
  if t == 'Ridge':
    n.update(solver=n.get('solver', 'auto'), max_iter=1000, random_state=1)
  if t in ('Lasso', 'ElasticNet'):
    n.setdefault('positive', False)
    n.setdefault('max_iter', 1000)
    n.setdefault('tol', 1e-4)
  if t == 'LogisticRegression':
    for k, v in (('C', 1.0), ('penalty', 'l2'), ('class_weight', None),
                 ('max_iter', 100)):
      n.setdefault(k, v)
    n['a'] = {'t': 'Max', 'var': 'p'}


@st.composite
def gen_table(draw):
  n = draw(st.integers(8, 16))
  extra = {'p': st.integers(0, 1), 'u': st.sampled_from([1, 2, 3]),
           'v': st.sampled_from(['r', 's', 't'])}
  return draw(gen.table(min_n=n, max_n=n, x=('posquarter',), y=('posint',),
                        extra=extra, h=2))


@st.composite
def gen_pair(draw):
  a = draw(spec())
  k = draw(st.integers(0, 9))
  if k == 0:
    b = draw(spec())
  elif k == 1:  # the ratio of a sum and a count is a mean
    w = lambda: draw(st.sampled_from([{}, {}, {'w': [['y', '>', 3]]},
                                      {'w': [['f', '<=', 2]]}]))
    s = draw(st.sampled_from(['Sum', 'Sum', 'Sum', 'Max']))
    op = draw(st.sampled_from(['/', '/', '/', '*', '-']))
    a = dict(w(), t='op', op=op, a=dict(w(), t=s, var='xn'), b=dict(
        w(), t='Count', var=draw(st.sampled_from(['xn', 'xn', 'yn'])),
        distinct=draw(st.sampled_from([False, False, True]))))
    b = dict(w(), t='Mean', var='xn')
    if draw(st.booleans()):
      b, a = a, b
  else:
    b = draw(mutate(a))
    if draw(st.integers(0, 3)) == 0:
      b = draw(mutate(b))
  if draw(st.integers(0, 4)) == 0:  # below a common parent
    over = draw(st.sampled_from(['Distribution', 'List', 'Jackknife', 'op']))
    wrap = {'Distribution': lambda m: {'t': 'Distribution', 'over': 'v',
                                       'child': m},
            'List': lambda m: {'t': 'List', 'c': [m, {'t': 'Sum', 'var': 'f'}]},
            'Jackknife': lambda m: {'t': 'Jackknife', 'unit': 'u', 'child': m},
            'op': lambda m: {'t': 'op', 'op': '*', 'a': m, 'b': 2}}[over]
    a, b = wrap(a), wrap(b)
  return {'a': a, 'b': b, 'tables': [draw(gen_table()), draw(gen_table())],
          'split': draw(st.sampled_from([[], ['g']]))}


def compute(m, t, split):
  import numpy as np
  np.random.seed(3)
  with contextlib.redirect_stdout(io.StringIO()):
    try:
      return m.compute_on(table.to_df(t), list(split))
    except Exception as e:  # pylint: disable=broad-except
      return 'raised ' + type(e).__name__


def values(r):
  """Values only: labels and names are not part of the fingerprint."""
  if isinstance(r, str):
    return 'raised'
  return [list(r.index.names), [k for k in r.index], r.values.tolist()]


def agree(a, b):
  try:
    c05.same(a, b, 'x')
    return True
  except Violation:
    return False


def no_id(fp):
  return 'id' not in repr([k for k, _ in fp])


def run_pair(spec):
  a, b = spec['a'], spec['b']
  try:
    ma = build(a)
    mb = build(b)
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('not a valid metric: %s' % type(e).__name__)
  with sut('comparing'):
    eq, qe = ma == mb, mb == ma
    require(eq == qe, 'equality is not symmetric for %s and %s', ma, mb)
    require((ma != mb) == (not eq), '== and != disagree for %s and %s', ma, mb)
    require(ma == ma and hash(ma) == hash(ma), '%s does not equal itself', ma)
    fa, fb = ma.get_fingerprint(), mb.get_fingerprint()
    if eq:
      require(hash(ma) == hash(mb), 'equal metrics %s hash differently', ma)
      require(str(ma) == str(mb), 'equal metrics print as %s and %s', ma, mb)
    hash(fa)
  labels = ['equal' if eq else 'unequal']
  if fa == fb:
    labels.append('same_fingerprint')
  same_spec = c05.json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
  if same_spec and not any(n['t'] == 'user_op' and n['f'] in (4, 5)
                           for n in tree.walk(a) if isinstance(n, dict)):
    require(eq, '%s built twice is not equal', ma)
  differ = False
  for t in spec['tables']:
    with sut('compute_on'):
      va, vb = (values(compute(build(s), t, spec['split'])) for s in (a, b))
    if not agree(va, vb):
      differ = True
      require(not eq, '%s and %s are equal but give %s and %s', ma, mb,
              c05.brief(va), c05.brief(vb))
      require(fa != fb, '%s and %s share a fingerprint but give %s and %s', ma,
              mb, c05.brief(va), c05.brief(vb))
  if differ:
    labels.append('nontrivial')
  elif not eq:
    labels.append('unequal_same_values')
  labels.append('m:' + a['t'])
  return labels


@st.composite
def gen_copy(draw):
  return {'a': draw(spec()), 'table': draw(gen_table()),
          'split': draw(st.sampled_from([[], ['g']])),
          'use': draw(st.booleans())}


def run_copy(spec):
  a, t, split = spec['a'], spec['table'], spec['split']
  try:
    m = build(a)
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('not a valid metric: %s' % type(e).__name__)
  labels = ['m:' + a['t']]
  with sut('copying'):
    if spec['use']:
      compute(m, t, split)
    want = compute(build(a), t, split)
    copies = [copy.deepcopy(m), copy.copy(m)]
    try:
      p = pickle.dumps(m)
    except Exception:  # pylint: disable=broad-except
      p = None  # operators made by lambdas
    if p is not None:
      labels.append('pickled')
      copies.append(pickle.loads(p))
    for c in copies:
      require(c == m and m == c, 'a copy of %s is not equal to it', m)
      require(hash(c) == hash(m), 'a copy of %s hashes differently', m)
      require(type(c) is type(m) and str(c) == str(m), '%s copied as %s', m, c)
      got = compute(c, t, split)
      if isinstance(want, str):
        require(isinstance(got, str), 'copy computes, original raises')
      else:
        require(not isinstance(got, str), 'copy of %s %s', m, got)
        c05.same(c05.freeze(got), c05.freeze(want), 'copy of %s' % m)
    if p is not None and not isinstance(want, str):
      c = copies[0]
      c.name = 'some name'
      got = compute(c, t, split)
      require(not isinstance(got, str), 'renamed %s %s', m, got)
      c05.same(values(got), values(want), 'renamed %s' % m)
      require(c.get_fingerprint() == m.get_fingerprint(),
              'renaming %s changed its fingerprint', m)
  if not isinstance(want, str) and want.size:
    labels.append('nontrivial')
  return labels


@st.composite
def gen_neighbours(draw):
  k = draw(st.integers(0, 5))
  if k <= 2:
    a = draw(tgen.leaf(LEAF))
  elif k == 3:
    a = draw(model())
  else:
    a = draw(tgen.any_tree(tgen.Opts(depth=1, ops=OPS), ['h', 'p']))
  return {'a': a, 'tables': [draw(gen_table())],
          'w': [draw(conds.cond(g=False)), draw(conds.cond(g=False))],
          'split': draw(st.sampled_from([[], ['g']]))}


def neighbours(a, w):
  """Every spec that differs from a in one option or filter."""
  out = [a]
  for i, n in enumerate(x for x in tree.walk(a) if isinstance(x, dict)):
    changes = [('w', v) for v in ([], w[:1], w[1:], w)
               if v != (n.get('w') or [])] + candidates(n)
    for key, v in changes:
      b = json.loads(json.dumps(a))
      m = [x for x in tree.walk(b) if isinstance(x, dict)][i]
      m[key] = v
      if key == 't':
        fix(m)
      out.append(b)
    for x, y in (('a', 'b'), ('var', 'var2'), ('child', None)):
      b = json.loads(json.dumps(a))
      m = [x_ for x_ in tree.walk(b) if isinstance(x_, dict)][i]
      if y and x in m and y in m:
        m[x], m[y] = m[y], m[x]
        out.append(b)
      elif not y and isinstance(m.get('child'), dict):
        m['w'], m['child']['w'] = m['child'].get('w') or [], m.get('w') or []
        out.append(b)
  return out


def run_neighbours(spec):
  specs, ms = [], []
  for s in neighbours(spec['a'], spec['w']):
    try:
      m = build(s)
    except Exception:  # pylint: disable=broad-except
      continue  # not a valid metric
    if isinstance(m, (int, float)):
      continue
    specs.append(s)
    ms.append(m)
  if not ms:
    raise Skip('not a valid metric')
  groups = {}
  with sut('comparing'):
    for i, m in enumerate(ms):
      groups.setdefault(m.get_fingerprint(), []).append(i)
      eq = m == ms[0]
      require(eq == (ms[0] == m), 'equality of %s and %s is not symmetric', m,
              ms[0])
      if eq:
        require(hash(m) == hash(ms[0]), 'equal metrics %s hash differently', m)
        require(m.get_fingerprint() == ms[0].get_fingerprint(),
                'equal metrics %s have different fingerprints', m)
    t = spec['tables'][0]
    for g in groups.values():
      if len(g) < 2:
        continue
      want = values(compute(build(specs[g[0]]), t, spec['split']))
      for i in g[1:]:
        got = values(compute(build(specs[i]), t, spec['split']))
        require(agree(got, want), '%s and %s share a fingerprint but give %s '
                'and %s (%s, %s)', ms[i], ms[g[0]], c05.brief(got),
                c05.brief(want), specs[i], specs[g[0]])
  labels = ['m:' + spec['a']['t'], 'neighbours>=%d' % (len(ms) // 20 * 20)]
  if len(groups) >= 5:
    labels.append('nontrivial')
  if len(groups) < len(ms):
    labels.append('shared')
  return labels


SUITES = [Suite('pairs', gen_pair, run_pair, 2400, 100000),
          Suite('neighbours', gen_neighbours, run_neighbours, 2400, 60000),
          Suite('copies', gen_copy, run_copy, 1200, 40000)]
