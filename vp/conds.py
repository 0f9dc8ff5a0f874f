"""Structured row filters: evaluation on rows, rendering to query strings.

cond := [col, op, value] | {"or": [cond, cond]} | {"and": [cond, cond]} |
    {"in": [col, [values]]}
op in > >= < <= == !=
"""
import contextlib

from hypothesis import strategies as st


def holds(c, r):
  if isinstance(c, dict):
    if 'or' in c:
      return any(holds(x, r) for x in c['or'])
    if 'and' in c:
      return all(holds(x, r) for x in c['and'])
    col, vals = c['in']
    return r[col] in vals
  col, op, v = c
  a = r[col]
  if a is None:
    return op == '!='  # not generated on nullable columns
  return {'>': a > v, '>=': a >= v, '<': a < v, '<=': a <= v} [op] if op in (
      '>', '>=', '<', '<=') else (a == v if op == '==' else a != v)


def lit(v):
  return '"%s"' % v if isinstance(v, str) else repr(v)


SYMBOLS = False  # Whether to write | and & in place of or and and.


@contextlib.contextmanager
def symbols(on):
  global SYMBOLS
  SYMBOLS = bool(on)
  try:
    yield
  finally:
    SYMBOLS = False


def render(c):
  if isinstance(c, dict):
    if 'in' in c:
      col, vals = c['in']
      return '%s in (%s)' % (col, ', '.join(lit(v) for v in vals))
    op, parts = list(c.items())[0]
    nested = lambda x: isinstance(x, dict) and 'in' not in x
    word = {'or': '|', 'and': '&'}[op] if SYMBOLS else op
    return (' %s ' % word).join(
        '(%s)' % render(x) if nested(x) else render(x) for x in parts)
  return '%s %s %s' % (c[0], c[1], lit(c[2]))


def keep(conds, rows):
  return [r for r in rows if all(holds(c, r) for c in conds)]


def to_where(conds):
  """None -> None; one -> string; several -> list of strings."""
  if not conds:
    return None
  s = [render(c) for c in conds]
  return s[0] if len(s) == 1 else s


@st.composite
def atom(draw, g=True):
  kind = draw(st.integers(0, 5 if g else 3))
  if kind <= 1:
    return [draw(st.sampled_from(['x', 'y'])),
            draw(st.sampled_from(['>', '>=', '<', '<='])),
            draw(st.integers(-2, 5))]
  if kind == 2:
    return [draw(st.sampled_from(['xn', 'yn'])),
            draw(st.sampled_from(['>', '>=', '<', '<='])),
            draw(st.integers(-2, 5))]
  if kind == 3:
    return ['f', draw(st.sampled_from(['>', '<=', '!=', '=='])),
            draw(st.integers(1, 3))]
  if kind == 4:
    return ['g', draw(st.sampled_from(['==', '!='])),
            draw(st.sampled_from(['a', 'b', 'c']))]
  return ['h', draw(st.sampled_from(['!=', '>', '<='])),
          draw(st.sampled_from([1, 2, 3]))]


@st.composite
def cond(draw, g=True, or_=True):
  if or_ and draw(st.integers(0, 3)) == 0:
    a, b = draw(atom(g)), draw(atom(g))
    kind = draw(st.integers(0, 5))
    if kind == 4:
      return {'and': [a, b]}
    if kind == 5:
      c = draw(atom(g))
      return draw(st.sampled_from([{'and': [{'or': [a, b]}, c]},
                                   {'or': [a, {'and': [b, c]}]}]))
    return {'or': [a, b]}
  return draw(atom(g))


@st.composite
def pair(draw, g=True):
  """Two different conditions of the same atoms."""
  a, b, c = draw(atom(g)), draw(atom(g)), draw(atom(g))
  return draw(st.sampled_from([
      ({'or': [a, b]}, {'and': [a, b]}),
      ({'and': [{'or': [a, b]}, c]}, {'or': [a, {'and': [b, c]}]})]))


@st.composite
def where(draw, g=True, or_=True, max_n=2):
  """List of 0..max_n conds, mostly empty or one."""
  n = draw(st.sampled_from([0, 0, 0, 1, 1] + list(range(2, max_n + 1))))
  out = []
  for _ in range(n):
    c = draw(cond(g, or_))
    if c not in out:
      out.append(c)
  return out
