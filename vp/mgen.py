"""Strategies for metric specs."""
from hypothesis import strategies as st

QS = [0.0, 0.05, 0.1, 0.2, 0.25, 0.29, 0.3, 0.5, 0.57, 0.6, 0.75, 0.9, 0.95, 1.0]
NAMES = st.sampled_from([None] * 6 + ['foo', 'foo', 'my metric', 'my metric', 'sum_x', 'sum_x', 'end', '2x', 'Foo', '(%)'])


@st.composite
def simple(draw, types, nx=('xn', 'yn', 'x', 'y'), cx=('x', 'y'), names=True):
  """A simple metric. nx: columns that may hold nulls; cx: complete columns."""
  t = draw(st.sampled_from(types))
  m = {'t': t}
  v = st.sampled_from(nx)
  c = st.sampled_from(cx)
  b = st.booleans()
  if names:
    nm = draw(NAMES)
    if nm:
      m['name'] = nm
  if t == 'Count':
    m['var'] = draw(v)
    m['distinct'] = draw(b)
  elif t in ('Sum', 'Max', 'Min'):
    m['var'] = draw(v)
  elif t == 'Dot':
    m.update(var=draw(v), var2=draw(v), normalize=draw(b))
  elif t == 'Mean':
    if draw(b):
      m.update(var=draw(c), weight='w')
    else:
      m['var'] = draw(v)
  elif t == 'Nth':
    m.update(var=draw(v), n=draw(st.integers(-4, 4)), sort_by='k',
             ascending=draw(b), dropna=draw(b))
  elif t == 'Quantile':
    if draw(b):
      m['q'] = draw(st.lists(st.sampled_from(QS), min_size=1, max_size=3,
                             unique=True))
    else:
      m['q'] = draw(st.sampled_from(QS))
    if draw(b):
      m.update(var=draw(c), weight='w')
    else:
      m.update(var=draw(v), interp=draw(st.sampled_from(
          ['linear', 'lower', 'higher', 'midpoint', 'nearest'])))
  elif t in ('Variance', 'StandardDeviation'):
    m['unbiased'] = draw(b)
    if draw(b):
      m.update(var=draw(c), weight='w')
    else:
      m['var'] = draw(v)
  elif t == 'CV':
    m.update(var=draw(v), unbiased=draw(b))
  elif t == 'Correlation':
    if draw(b):
      m.update(var=draw(c), var2=draw(c), weight='w')
    else:
      m.update(var=draw(v), var2=draw(v), method=draw(st.sampled_from(
          ['pearson', 'spearman', 'kendall'])))
  elif t == 'Cov':
    m.update(var=draw(c), var2=draw(c), bias=draw(b),
             ddof=draw(st.sampled_from([None, None, 0, 1, 2])),
             weight=draw(st.sampled_from([None, 'w'])),
             fweight=draw(st.sampled_from([None, 'f'])))
  return m
