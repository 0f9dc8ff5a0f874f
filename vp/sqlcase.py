"""Running metrics through SQL (executed by vp.bq) and comparing with the reference."""
from vp import bq, case, conds, dsl, obs, ref, table, tree
from vp.core import Skip, isnull, sut

TABLES = {
    'T': 'T', 'dotted': 'proj.ds.T', 'ticked': '`my-proj.ds.T`',
    'sub': 'SELECT * FROM T', 'with': 'WITH A AS (SELECT * FROM T)\nSELECT * FROM A',
    'subw': 'SELECT * FROM T WHERE TRUE',
}


def engine(t, seed=0):
  e = bq.from_spec(t, 'T', seed)
  e.tables['proj.ds.t'] = e.tables['my-proj.ds.t'] = e.tables['t']
  return e


def expected(m, rows, split):
  if not rows:
    raise Skip('no rows')
  if ghosts(m, rows, split):
    raise Skip('counts of slices without rows')
  with ref.sql():
    return case.expected(m, rows, split)


def compute(m, e, split, mode, tbl='T', build=dsl.build, **kw):
  metric = build(m)
  return metric.compute_on_sql(TABLES[tbl], list(split) or None, bq.execute(e),
                               mode=mode, **kw)


COUNTS = ('Count', 'Nxx', 'CumulativeDistribution')


def ghosts(m, rows, split, types=COUNTS):
  """Whether an operation goes over slices where a count has no row left.

  SQL has the slices, and counts zero there, while pandas does not."""
  rows = conds.keep(m.get('w') or [], rows)

  def visit(n, kept, dims, op):
    if not isinstance(n, dict):
      return False
    kept = conds.keep(n.get('w') or [], kept) if n is not m else kept
    if op and (types is None or n['t'] in types):
      def slices(rs):
        return {tuple(map(repr, (r[d] for d in dims))) for r in rs}
      if slices(kept) != slices(rows):
        return True
    over = []
    for k in ('over', 'cond', 'strat'):
      v = n.get(k)
      over += [v] if isinstance(v, str) else list(v or [])
    return any(visit(c, kept, dims + over, op or 'child' in n)
               for c in kids(n))
  return visit(m, rows, list(split), False)


def kids(m):
  for k in ('a', 'b', 'child'):
    if isinstance(m.get(k), dict):
      yield m[k]
  for c in m.get('c') or []:
    yield c


def spare(m, want, got, rows, split):
  """Drops rows of empty values for slices that the filters emptied."""
  names, cols, out = got
  if set(out) - set(want.rows) and any(
      isinstance(n, dict) and n['t'] in (
          'Count', 'Nxx', 'CumulativeDistribution') for n in tree.walk(m)) and any(
          isinstance(n, dict) and n.get('w') for n in tree.walk(m)):
    out = {k: v for k, v in out.items() if k in want.rows}
  return names, cols, out


def check(got, m, want, rows, split, what, **kw):
  got = obs.observe(got)
  got = obs.reorder(got, want.idx)
  case.check(spare(m, want, got, rows, split), m, want, what, **kw)


ODD = {'a': "O'B", 'b': 'q"', 'c': 'z\\z', 'r': "R'r", 's': 's"s', 'q': "q'q",
       'A': 'A\\', 't': 't\t'}


def odd(spec):
  """The case with values that need to be escaped in SQL."""
  new = lambda v: ODD.get(v, v) if isinstance(v, str) else (
      [new(x) for x in v] if isinstance(v, (list, tuple)) else v)

  def walk(n, key=None):
    if isinstance(n, dict):
      return {k: walk(v, k) for k, v in n.items()}
    if key in ('base', 'order'):
      return new(n)
    return [walk(v) for v in n] if isinstance(n, list) else n

  def filters(n):
    if isinstance(n, dict):
      return repr(n.get('w') or '') + ''.join(map(filters, n.values()))
    return ''.join(map(filters, n)) if isinstance(n, list) else ''

  if any("'%s'" % c in filters(spec) for c in 'gvi'):
    return spec
  spec = walk(spec)
  cols = spec['table']['cols']
  spec['table']['cols'] = dict(cols, **{c: [new(v) for v in cols[c]]
                                        for c in 'gvi' if c in cols})
  return spec
