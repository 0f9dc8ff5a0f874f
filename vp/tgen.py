"""Strategies for metric trees (JSON-able specs, see dsl.py)."""
import math

from hypothesis import strategies as st

from vp import conds, gen, mgen, tree

CHEAP = ['Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot']
STATS = ['Variance', 'StandardDeviation', 'CV', 'Correlation', 'Cov']
ALL = CHEAP + STATS + ['Quantile', 'Nth']
DIMS = {'g': gen.GVALS, 'h': gen.HVALS}


FLAT = ('CumulativeDistribution', 'HHI', 'Entropy', 'TopK', 'Nxx')


class Opts:
  """What a generated tree may contain."""

  def __init__(self, leaves=None, where=True, depth=2, ops=(), width=3,
               names=True, nulls=True, broadcast=True, dims=('g', 'h', 'p'),
               pow_=True, where_leaf=None, list_ok=True, ratio=True,
               nonneg=False):
    self.leaves = leaves or ALL
    self.where, self.depth, self.ops, self.width = where, depth, ops, width
    self.names, self.nulls, self.broadcast = names, nulls, broadcast
    self.dims, self.pow_, self.list_ok, self.ratio = dims, pow_, list_ok, ratio
    self.nonneg = nonneg


def add_where(draw, m, o, g=False):
  if o.where:
    w = draw(conds.where(g=g))
    if w:
      m['w'] = w
  return m


@st.composite
def leaf(draw, o):
  nx = ('xn', 'yn', 'x', 'y') if o.nulls else ('x', 'y')
  kind = draw(st.integers(0, 9))
  if kind == 0 and o.ratio:
    m = {'t': 'Ratio', 'num': draw(st.sampled_from(nx)),
         'den': draw(st.sampled_from(['w', 'f', 'y']))}
    if o.names and draw(st.integers(0, 3)) == 0:
      m['name'] = 'ratio'
    return add_where(draw, m, o)
  m = draw(mgen.simple(o.leaves, nx=nx, names=o.names))
  if m['t'] == 'Quantile' and isinstance(m['q'], list):
    if len(m['q']) == 1 or o.width == 1:
      m['q'] = m['q'][0]
    else:
      m.pop('name', None)
  return add_where(draw, m, o)


@st.composite
def twins(draw, o):
  """Arithmetic between a metric under two similar filters."""
  a, b = draw(conds.pair())
  m = {'t': draw(st.sampled_from(['Sum', 'Count', 'Mean', 'Max'])),
       'var': draw(st.sampled_from(['x', 'y']))}
  return {'t': 'op', 'op': draw(st.sampled_from('+-*')),
          'a': dict(m, w=[a]), 'b': dict(m, w=[b])}


@st.composite
def single(draw, o, depth=None):
  """A metric of one column and no index level of its own."""
  depth = o.depth if depth is None else depth
  one = Opts(o.leaves, o.where, o.depth, (), 1, o.names, o.nulls,
             pow_=o.pow_, ratio=o.ratio)
  if depth <= 0 or draw(st.integers(0, 2)) == 0:
    return draw(leaf(one))
  return draw(expr(one, depth))


NUMS = st.sampled_from([0, 1, 2, 3, -1, 10, 0.5, 0.25, 1.5, 100])
POWERS = st.sampled_from([2, 0.5, 3, 1, 2, 0.5, 3, 1, -0.5, 1.5])


@st.composite
def expr(draw, o, depth, a=None):
  """op(a, b) with a single-column a (or the given one)."""
  if o.where and a is None and draw(st.integers(0, 9)) == 0:
    return draw(twins(o))
  op = draw(st.sampled_from(['+', '-', '*', '/', '/', 'neg'] +
                            (['**'] if o.pow_ else [])))
  m = {'t': 'op', 'op': op}
  a = a if a is not None else draw(single(o, depth - 1))
  if op == 'neg':
    m['a'] = a
  elif op == '**':
    if draw(st.integers(0, 3)):
      m.update(a=a, b=draw(POWERS))
    else:
      # numpy refuses an integer to a negative integer power
      m.update(a=draw(st.sampled_from([2, 3] if a['t'] == 'Count' else
                                      [1.0, 0.5, 2.0])), b=a)
  else:
    k = draw(st.integers(0, 3))
    if k == 0:
      m.update(a=a, b=draw(NUMS))
    elif k == 1:
      m.update(a=draw(NUMS), b=a)
    else:
      b = draw(single(o, depth - 1))
      m.update(**({'a': a, 'b': b} if k == 2 else {'a': b, 'b': a}))
  if o.names and draw(st.integers(0, 5)) == 0 and len(tree.cols(m)) == 1:
    m['name'] = draw(st.sampled_from(['named expr', 'E']))
  return add_where(draw, m, o)


def unique(ms):
  seen, out = set(), []
  for m in ms:
    cs = tree.cols(m)
    if len(set(cs)) == len(cs) and not seen & set(cs):
      seen |= set(cs)
      out.append(m)
  return out


@st.composite
def mlist(draw, o, depth, make=None):
  n = draw(st.integers(1, 3))
  ms = unique([draw(make or single(o, depth)) for _ in range(n)])
  m = {'t': 'List', 'c': ms}
  w = sum(len(tree.cols(c)) for c in ms)
  if o.names and draw(st.integers(0, 5)) == 0:
    m['tmpl'] = draw(st.sampled_from(['pre {}', '{} post', '<{}>']))
  if o.names and draw(st.integers(0, 7)) == 0:
    m['rename'] = ['c%d' % i for i in range(w)]
  return add_where(draw, m, o)


@st.composite
def base(draw, o, depth=None):
  """No index level of its own; one or several columns."""
  depth = o.depth if depth is None else depth
  k = draw(st.integers(0, 9))
  if o.width == 1 or k <= 3 or not o.list_ok:
    return draw(single(o, depth))
  if k <= 7:
    return draw(mlist(o, depth - 1))
  if k == 8 and 'Quantile' in o.leaves:
    return draw(leaf(Opts(['Quantile'], o.where, ratio=False, names=False,
                          nulls=o.nulls)))
  return draw(expr(o, 1, a=draw(mlist(o, 0))))


@st.composite
def wrapper(draw, o, avail):
  """An operation without child over columns of avail; returns (spec, used)."""
  t = draw(st.sampled_from(o.ops))
  avail = sorted(avail)
  strat = t in ('MH', 'CUPED', 'PrePostChange')
  if strat and len(avail) < 2:
    t, strat = 'PercentChange', False
  m = {'t': t}
  two = len(avail) >= 2 + strat and draw(st.integers(0, 3)) == 0
  used = draw(st.permutations(avail))[:2 if two else 1]
  vals = dict(DIMS, p=[0, 1])
  if t in ('Distribution', 'Normalize', 'CumulativeDistribution', 'HHI',
           'Entropy', 'TopK', 'Nxx'):
    m['over'] = list(used) if two or draw(st.booleans()) else used[0]
    if t == 'CumulativeDistribution':
      k = draw(st.integers(0, 3))
      m['ascending'] = draw(st.booleans())
      if k == 0 and not two:
        order = list(draw(st.permutations(vals[used[0]])))
        m['order'] = order[:-1] if draw(st.integers(0, 2)) == 0 else order
      elif k == 1:
        m['by_values'] = True
    if t == 'TopK':
      m['k'] = draw(st.integers(1, 4))
    if t == 'Nxx':
      m['share'] = draw(st.sampled_from([0.1, 0.3, 0.37, 0.5, 0.6, 0.9, 1.0]))
  else:
    if two:
      m.update(cond=list(used), base=[draw(st.sampled_from(vals[c][:2]))
                                      for c in used])
    else:
      m.update(cond=used[0] if draw(st.booleans()) else [used[0]],
               base=draw(st.sampled_from(vals[used[0]][:2])))
    m['include_base'] = draw(st.booleans())
    if t in ('MH', 'CUPED', 'PrePostChange'):
      rest = [c for c in avail if c not in used]
      m['strat'] = None
      if rest:
        st_cols = draw(st.permutations(rest))[:draw(st.integers(1, len(rest)))]
        m['strat'] = st_cols if len(st_cols) > 1 or draw(
            st.booleans()) else st_cols[0]
        used = list(used) + list(st_cols)
  return add_where(draw, m, o), used


@st.composite
def operation(draw, o, avail, nest=1, child=None):
  """Operation tree over avail dims."""
  m, used = draw(wrapper(o, avail))
  rest = [c for c in avail if c not in used]
  if m['t'] == 'MH':
    r = Opts([l for l in o.leaves if l in ('Sum', 'Count', 'Mean', 'Max')] or
             ['Sum'], False, 0, (), 1, False, False, ratio=False)
    def ratio():
      if draw(st.booleans()):
        c = {'t': 'Ratio', 'num': draw(st.sampled_from(['x', 'y', 'f'])),
             'den': draw(st.sampled_from(['w', 'f']))}
      else:
        c = {'t': 'op', 'op': '/', 'a': draw(single(r, 0)),
             'b': draw(st.sampled_from([{'t': 'Sum', 'var': 'w'},
                                        {'t': 'Count', 'var': 'x'},
                                        {'t': 'Sum', 'var': 'f'}]))}
        if tree.name(c['a']) == tree.name(c['b']):
          c['a'] = {'t': 'Sum', 'var': 'y'}
      return add_where(draw, c, o)
    if draw(st.booleans()):
      m['child'] = ratio()
    else:
      m['child'] = {'t': 'List', 'c': unique([ratio(), ratio()])}
      add_where(draw, m['child'], o)
    return m
  inner = [t for t in o.ops if t != 'CumulativeDistribution']
  if m['t'] not in FLAT and nest > 0 and rest and inner and draw(
      st.integers(0, 3)) == 0:
    oo = Opts(o.leaves, o.where, 1, inner, o.width, o.names, o.nulls)
    m['child'] = draw(operation(oo, rest, nest - 1))
  else:
    m['child'] = child if child is not None else draw(base(o))
  return m


@st.composite
def any_tree(draw, o, avail):
  """Operations possibly inside lists and arithmetic."""
  k = draw(st.integers(0, 9))
  if not o.ops or k <= 1:
    return draw(base(o))
  if k <= 5:
    return draw(operation(o, avail))
  one = Opts(o.leaves, o.where, 1, o.ops, 1, o.names, o.nulls, list_ok=False)
  w, used = draw(wrapper(one, avail))
  if w['t'] == 'MH':
    return draw(operation(o, avail))
  mk = lambda: dict(w, child=draw(base(one)))
  if k <= 7:  # list of the same operation over different children
    m = {'t': 'List', 'c': unique([mk(), mk()])}
    return add_where(draw, m, o)
  m = {'t': 'op', 'op': draw(st.sampled_from(['+', '-', '*', '/']))}
  kk = draw(st.integers(0, 3))
  if kk == 0:
    m.update(a=mk(), b=draw(NUMS))
  elif kk == 1:
    m.update(a=draw(NUMS), b=mk())
  elif kk == 2 or not o.broadcast:
    m.update(a=mk(), b=mk())
  else:
    m.update(a=mk(), b=draw(single(one, 1)))
    if draw(st.booleans()):
      m['a'], m['b'] = m['b'], m['a']
  return add_where(draw, m, o)
