"""Hypothesis strategies for data tables and metric specs (all JSON-able)."""
from hypothesis import strategies as st

QUARTERS = st.integers(-40, 40).map(lambda k: k / 4)
SMALL_INT = st.integers(-6, 12)
POS_INT = st.integers(1, 9)
POS_QUARTER = st.integers(1, 36).map(lambda k: k / 4)
BIG_INT = st.integers(-100000, 100000)
FLOATS = st.floats(-50, 50, allow_nan=False, width=32).map(lambda v: round(v, 3))


def value_elements(kinds):
  table = {'int': SMALL_INT, 'quarter': QUARTERS, 'posint': POS_INT,
           'posquarter': POS_QUARTER, 'big': BIG_INT, 'float': FLOATS,
           'coarse': st.integers(0, 3), 'nonneg': st.integers(0, 9)}
  return [table[k] for k in kinds]


@st.composite
def num_col(draw, n, kinds=('int', 'quarter'), nullable=False):
  els = value_elements(kinds)
  el = els[draw(st.integers(0, len(els) - 1))] if len(els) > 1 else els[0]
  if nullable and draw(st.integers(0, 2)) == 0:
    el = st.one_of(el, el, el, st.none())
  return draw(st.lists(el, min_size=n, max_size=n))


GVALS = ['a', 'b', 'c', 'd']
HVALS = [1, 2, 3]


@st.composite
def table(draw, min_n=0, max_n=24, x=('int', 'quarter'), y=('int', 'quarter'),
          nullable=True, extra=None, index=True, g=3, h=3):
  """A data table with value columns x, y (xn, yn: may hold nulls), weights w, f, sort key k, dims g, h."""
  n = draw(st.integers(min_n, max_n))
  cols = {}
  cols['x'] = draw(num_col(n, x))
  cols['y'] = draw(num_col(n, y))
  if nullable:
    cols['xn'] = draw(num_col(n, x, True))
    cols['yn'] = draw(num_col(n, y, True))
  cols['w'] = draw(num_col(n, ('posint', 'posquarter')))
  cols['f'] = draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))
  cols['k'] = draw(st.permutations(list(range(n)))) if n else []
  cols['g'] = draw(st.lists(st.sampled_from(GVALS[:g]), min_size=n, max_size=n))
  cols['h'] = draw(st.lists(st.sampled_from(HVALS[:h]), min_size=n, max_size=n))
  for name, strat in (extra or {}).items():
    cols[name] = draw(st.lists(strat, min_size=n, max_size=n))
  t = {'cols': cols, 'n': n}
  if index:
    t['index'] = draw(st.sampled_from(['range', 'range', 'dup', 'rev', 'str']))
  return t
