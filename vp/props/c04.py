"""C04: metric arithmetic and lists."""
from hypothesis import strategies as st
from vp import case, gen, tgen, tree
from vp.core import Suite

RULE = ('a random table x a random expression tree (arithmetic, lists, ratios) '
        'x split_by, against the reference evaluator; non-trivial = at least 2 '
        'rows and a finite non-zero expected value')
O = tgen.Opts(where=False, depth=3)


@st.composite
def gen_case(draw):
  k = draw(st.integers(0, 3))
  if k == 0:
    m = draw(tgen.mlist(O, 2))
  elif k == 1:
    m = draw(tgen.expr(O, 1, a=draw(tgen.mlist(O, 1))))
  else:
    m = draw(tgen.expr(O, 3))
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('coarse',)]))
  return {'table': draw(gen.table(min_n=1, max_n=16, x=kinds, y=kinds)),
          'metric': m,
          'split': draw(st.sampled_from([[], ['g'], ['g', 'h'], ['h']]))}


SUITES = [Suite('expr', gen_case, case.run_tree, 5000, 100000)]
