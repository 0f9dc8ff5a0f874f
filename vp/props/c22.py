"""C22: SQL building blocks keep their meaning under combination."""
import copy
import math
import re

from hypothesis import strategies as st

from vp import bq, conds, gen, table
from vp.core import Skip, Suite, close, require, sut

RULE = ('arith suite: a random arithmetic expression over Column objects and '
        'numbers, rendered, executed by a BigQuery interpreter and compared '
        'with the expression evaluated in Python; columns/filters/with/nest '
        'suites: random histories of adding and merging columns, filters, '
        'datasources and queries; every component added must still be found, '
        'under the name it reports, with the value it has on its own; windows '
        'suite: partition, order and frame of a column; alias suite: names of '
        'any printable characters; non-trivial = at least two operators / two '
        'components that collide or combine / a name with special characters')
VALID = re.compile(r'[A-Za-z_][A-Za-z_0-9]*\Z')


def sql():
  from meterstick import sql as s
  return s


def valid(a):
  require(isinstance(a, str) and VALID.match(a), '%r is not an identifier', a)
  require(a.upper() not in bq.RESERVED, '%r is a reserved word', a)


def gen_table(**kw):
  return gen.table(min_n=1, max_n=10, x=('int', 'quarter'), y=('int',), h=3,
                   extra={'i': st.integers(0, 1)}, **kw)


def engine(t, seed=0):
  t = copy.deepcopy(t)
  t['cols'] = dict(t['cols'], k=list(range(t['n'])))
  return bq.from_spec(t, 'T', seed)


def fetch(e, text):
  names, rows = e.query(str(text))
  low = [n.lower() if n else '' for n in names]
  require(len(set(low)) == len(low) and '' not in low,
          'columns of %s are %s', str(text), names)
  return names, rows


def same_rows(a, b):
  key = lambda r: repr([(v is None, bq.group_key(v)) for v in r])
  a, b = sorted(a, key=key), sorted(b, key=key)
  return len(a) == len(b) and all(
      len(r) == len(s) and all(map(close, r, s)) for r, s in zip(a, b))


# ------------------------------------------------------------- arithmetic

NUMS = [1, 2, 3, -1, -2, 0.5, -0.5, 2.5, 0, 1e-05]


@st.composite
def text(draw, depth=1):
  """The text of a column, as a tree."""
  if not depth or draw(st.integers(0, 2)) == 0:
    return draw(st.sampled_from(['x', 'y', 'i', 'xn']))
  op = draw(st.sampled_from(['+', '-', '*', 'neg']))
  if op == 'neg':
    return ['neg', draw(st.sampled_from(['x', 'y']))]
  return [op, draw(text(depth - 1)), draw(text(0))]


@st.composite
def leaf(draw, agg):
  c = {'k': 'col', 's': draw(text()), 'w': [], 'fn': '{}'}
  if draw(st.integers(0, 3)) == 0:
    c['w'] = draw(st.lists(conds.cond(False), min_size=1, max_size=2))
  if agg:
    c['fn'] = draw(st.sampled_from(['SUM({})', 'MAX({})', 'COUNT({})', 'MIN({})']))
  if draw(st.integers(0, 3)) == 0:
    c['alias'] = draw(st.sampled_from(['a', 'x', 'a b', '2nd', 'ratio %']))
  return c


@st.composite
def expr(draw, agg, depth=3):
  if not depth or draw(st.integers(0, 4)) == 0:
    return draw(leaf(agg))
  if draw(st.integers(0, 7)) == 0:
    return {'k': 'neg', 'a': draw(expr(agg, depth - 1))}
  op = draw(st.sampled_from(['+', '-', '-', '*', '*', '/', '/', '**']))
  a = draw(expr(agg, depth - 1))
  if draw(st.booleans()):
    b = draw(expr(agg, depth - 1))
  else:
    b = {'k': 'num', 'v': draw(st.sampled_from(NUMS))}
  if op == '**' and draw(st.booleans()):
    b = {'k': 'num', 'v': draw(st.sampled_from([2, 0.5, -1, 3, 1.5]))}
  if draw(st.booleans()) and (op != '**' or b['k'] == 'num'):
    a, b = (b, a) if op != '**' else (a, b)
  return {'k': 'op', 'op': op, 'a': a, 'b': b}


@st.composite
def gen_arith(draw):
  agg = draw(st.booleans())
  return {'table': draw(gen_table()), 'agg': agg, 'e': draw(expr(agg)),
          'by': draw(st.booleans())}


def words(s):
  if isinstance(s, str):
    return s
  if s[0] == 'neg':
    return '-' + words(s[1])
  a, b = words(s[1]), words(s[2])
  if s[0] == '*' and not isinstance(s[1], str):
    a = '(%s)' % a
  return '%s %s %s' % (a, s[0], b)


def read(s, r):
  if isinstance(s, str):
    return r[s]
  if s[0] == 'neg':
    v = read(s[1], r)
    return None if v is None else -v
  return apply(s[0], read(s[1], r), read(s[2], r))


def apply(op, a, b):
  if a is None or b is None:
    return None
  if op == '+':
    return a + b
  if op == '-':
    return a - b
  if op == '*':
    return a * b
  if op == '/':
    return None if b == 0 else a / b
  if b == 0.5 and a < 0:
    return None
  try:
    v = math.pow(a, b)
  except (ValueError, ZeroDivisionError):
    return None
  return v


def make(e):
  if e['k'] == 'num':
    return e['v']
  if e['k'] == 'col':
    w = [conds.render(c) for c in e['w']]
    return sql().Column(words(e['s']), e['fn'], e.get('alias'), w or None)
  if e['k'] == 'neg':
    return -make(e['a'])
  a, b = make(e['a']), make(e['b'])
  return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
          '/': lambda: a / b, '**': lambda: a ** b}[e['op']]()


def value(e, rows):
  """Of an aggregated expression (rows: all) or of one row (rows: [row])."""
  if e['k'] == 'num':
    return e['v']
  if e['k'] == 'neg':
    v = value(e['a'], rows)
    return None if v is None else -v
  if e['k'] == 'op':
    v = apply(e['op'], value(e['a'], rows), value(e['b'], rows))
    if v is not None and abs(v) > 1e12:
      raise Skip('huge values')
    return v
  vs = [read(e['s'], r) if all(conds.holds(c, r) for c in e['w']) else None
        for r in rows]
  if e['fn'] == '{}':
    return vs[0]
  vs = [v for v in vs if v is not None]
  if e['fn'] == 'COUNT({})':
    return len(vs)
  f = {'SUM({})': sum, 'MAX({})': max, 'MIN({})': min}[e['fn']]
  return f(vs) if vs else None


def size(e):
  return 0 if e['k'] in ('num', 'col') else 1 + sum(
      size(e[k]) for k in 'ab' if k in e)


def run_arith(spec):
  t, e = spec['table'], spec['e']
  rows = table.to_rows(t)
  try:
    if spec['agg']:
      by = ['g'] if spec['by'] else []
      keys = {tuple(r[g] for g in by) for r in rows}
      want = [(list(k) + [value(e, [r for r in rows if tuple(
          r[g] for g in by) == k])]) for k in keys]
    else:
      by = ['k']
      want = [[n, value(e, [r])] for n, r in enumerate(rows)]
  except (OverflowError, TypeError):
    raise Skip('overflow or complex')
  with sut('Column arithmetic'):
    col = make(e)
    first = str(col)
    valid(col.alias)
    q = sql().Sql(sql().Columns(col) if spec['agg'] else sql().Columns(
        ['k', col]), 'T', groupby=by if spec['agg'] else None)
    s = str(q)
    require(str(col) == first and str(q) == s, 'rendering twice differs')
    try:
      names, got = fetch(engine(t), s)
    except bq.SqlError as err:
      if 'overflow' in str(err):
        raise Skip('overflow')
      raise
    require(names == by + [col.alias], 'columns %s', names)
    require(same_rows(want, got), '%s gives %s, expected %s', s, got, want)
  labels = ['agg' if spec['agg'] else 'row']
  if size(e) > 1 and any(r[-1] is not None for r in want):
    labels.append('nontrivial')
  return labels


# ---------------------------------------------------------------- columns

ALIASES = [None, None, 'a', 'a', 'a_1', 'a b', 'a_b', 'x', 'sum(x)', 'sum_x',
           'a-b', 'A', '2a', 'end', 'a_2']
TEXTS = ['x', 'y', 'x + 1', 'x * y', '`x`', 'g']


@st.composite
def column(draw, agg=False):
  c = {'s': draw(st.sampled_from(TEXTS[:4] if agg else TEXTS)), 'fn': '{}',
       'w': [], 'alias': draw(st.sampled_from(ALIASES))}
  if agg:
    c['fn'] = draw(st.sampled_from(['SUM({})', 'MAX({})']))
    if draw(st.integers(0, 4)) == 0:
      c['w'] = [draw(conds.cond(False))]
  return c


def to_column(c):
  return sql().Column(c['s'], c['fn'], c['alias'],
                      [conds.render(w) for w in c['w']] or None)


@st.composite
def gen_columns(draw):
  agg = draw(st.booleans())
  pool = draw(st.lists(column(agg), min_size=1, max_size=5))
  ops = []
  for _ in range(draw(st.integers(2, 7))):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    ops.append([draw(st.sampled_from(['one', 'list', 'Columns', 'gen', 'str',
                                      'new'])),
                [draw(st.integers(0, len(pool) - 1)) for _ in range(n)]])
  return {'table': draw(gen_table()), 'agg': agg, 'pool': pool, 'ops': ops,
          'by': draw(st.sampled_from([[], ['g'], ['g', 'i']])) if agg else []}


def run_columns(spec):
  t, s = spec['table'], sql()
  labels = []
  with sut('Columns'):
    by = s.Columns(spec['by'])
    cols = s.Columns(by)
    added = []  # (column, expression, alias it reported)
    for kind, idx in spec['ops']:
      new = [to_column(spec['pool'][i]) for i in idx]
      if kind == 'str':
        if spec['agg']:
          continue
        new = new[:1]
        before = len(cols)
        ret = cols.add(new[0].column[0])
        require(ret is cols, 'add returns %s', ret)
        require(len(cols) - before in (0, 1), 'one column adds %d',
                len(cols) - before)
        require(new[0].column[0] in cols.expressions, '%s was lost: %s',
                new[0].column[0], cols.expressions)
        continue
      if kind in ('one', 'new'):
        new = new[:1]
      if kind == 'Columns':
        new = list(s.Columns(new))
        ret = cols.add(s.Columns(new))
      elif kind == 'gen':
        ret = cols.add(iter(new))
      elif kind == 'new':
        ret = cols = s.Columns([cols, new])
      else:
        ret = cols.add(new[0] if kind == 'one' else new)
      require(ret is cols, 'add returns %s', ret)
      added += [(c, c.expression, c.alias) for c in new]
      n = len(cols)
      cols.add(new)
      require(len(cols) == n, 'adding %s again adds a column', new)
    aliases = cols.aliases
    low = [a.lower() for a in aliases]
    require(len(set(low)) == len(low), 'aliases collide: %s', aliases)
    for a in aliases:
      valid(a)
    if any(c.suffix for c in cols):
      labels += ['renamed', 'nontrivial']
    pairs = {(c.alias_raw, c.expression) for c in cols}
    require(len(pairs) == len(cols), 'a column is there twice: %s', cols)
    for c, e, a in added:
      require(c.alias == a, '%s was renamed to %s later', a, c.alias)
      hit = cols.get_column(a)
      require(hit is not None and hit.expression == e,
              'column %s is %s, not %s', a, hit, e)
    q = s.Sql(s.Columns(c for c in cols if c not in by), 'T',
              groupby=spec['by'] or None) if spec['agg'] else s.Sql(cols, 'T')
    if len(cols):
      eng = engine(t)
      names, rows = fetch(eng, q)
      require(names == aliases, 'selected %s of %s', names, aliases)
      if not spec['agg']:
        by = []
      for c, e, a in added:
        i = names.index(a)
        alone = 'SELECT %s FROM T' % ', '.join(
            ['%s AS key%d' % (b, j) for j, b in enumerate(spec['by'])] +
            ['%s AS v' % e])
        if spec['by']:
          alone += ' GROUP BY ' + ', '.join(
              'key%d' % j for j in range(len(spec['by'])))
        want = eng.query(alone)[1]
        got = [[r[names.index(b)] for b in spec['by']] + [r[i]] for r in rows]
        require(same_rows(want, got), '%s is %s, not %s, in %s', a, got, want, q)
  if len(added) < 2:
    return labels
  labels.append('many')
  if len({a for _, _, a in added}) < len(added):
    labels += ['again', 'nontrivial']
  return labels


# ---------------------------------------------------------------- filters

@st.composite
def gen_filters(draw):
  cs = draw(st.lists(conds.cond(True), min_size=1, max_size=4))
  styles = [draw(st.integers(0, 5)) for _ in cs]
  ops = [draw(st.lists(st.integers(0, len(cs) - 1), min_size=1, max_size=3))
         for _ in range(draw(st.integers(1, 4)))]
  drop = draw(st.lists(st.integers(0, len(cs) - 1), max_size=1))
  return {'table': draw(gen_table()), 'c': cs, 'style': styles, 'ops': ops,
          'drop': drop, 'how': [draw(st.integers(0, 3)) for _ in ops]}


def restyle(s, style):
  if style == 1:
    return re.sub(r'\b(or|and|in)\b', lambda m: m.group().upper(), s)
  if style == 2:
    return re.sub(r' (or|and) ', r'\n  \1 ', s)
  if style == 3:
    return re.sub(r' (or|and) ', r' \1\n ', s).replace('==', '=')
  if style == 4:
    return re.sub(r' (or|and) ', r'\t\1\t', s)
  return s


def run_filters(spec):
  s = sql()
  rows = table.to_rows(spec['table'])
  texts = [restyle(conds.render(c), y) for c, y in zip(spec['c'], spec['style'])]
  # BigQuery evaluates = on the same types only; the generator respects that.
  with sut('Filters'):
    f = s.Filters(None)
    require(not f and str(f) == '', 'no filter is %r', str(f))
    used = set()
    for idx, how in zip(spec['ops'], spec['how']):
      new = [texts[i] for i in idx]
      used |= set(idx)
      if how == 0:
        f.add(new)
      elif how == 1:
        f.add(s.Filters(new))
      elif how == 2:
        f = s.Filters([f, [new]])
      else:
        for x in new:
          f.add(s.Filter(x))
    drop = [i for i in spec['drop'] if (
        i in used and 3 not in spec['how']) and sum(
        spec['c'][i] == spec['c'][j] for j in used) == 1]
    if drop:
      f.remove([texts[i] for i in drop])
      used -= set(drop)
    rendered = str(f)
    require(rendered == str(f) and rendered == str(s.Filters(f)), 'unstable')
    keep = [n for n, r in enumerate(rows)
            if all(conds.holds(spec['c'][i], r) for i in used)]
    e = engine(spec['table'])
    got = fetch(e, s.Sql('k', 'T', f))[1]
    require(sorted(r[0] for r in got) == keep, 'WHERE %s keeps %s, expected %s',
            rendered, got, keep)
    col = s.Column('x', 'SUM({})', 'v', f)
    vals = [rows[n]['x'] for n in keep if rows[n]['x'] is not None]
    got = fetch(e, s.Sql(col, 'T'))[1]
    require(same_rows(got, [[sum(vals) if vals else None]]),
            '%s gives %s, expected the sum of %s', col, got, vals)
    q = s.Sql('k', 'T', texts[0])
    q.add('where', f)
    keep = [n for n in keep if conds.holds(spec['c'][0], rows[n])]
    got = fetch(e, q)[1]
    require(sorted(r[0] for r in got) == keep, '%s keeps %s, expected %s', q,
            got, keep)
  labels = ['removed'] if drop else []
  if any('or' in t.lower() for t in texts) and len(used) > 1:
    labels.append('or')
  if len(used) > 1 and 0 < len(keep) < len(rows):
    labels.append('nontrivial')
  return labels


# ------------------------------------------------------ queries and tables

@st.composite
def query(draw, cols=None, agg=None):
  agg = draw(st.booleans()) if agg is None else agg
  q = {'cols': draw(st.lists(column(agg), min_size=1, max_size=3)),
       'by': draw(st.sampled_from([[], ['g'], ['g', 'i']])) if agg else [],
       'w': draw(st.sampled_from([[], [], [['x', '>', 0]], [['y', '<=', 2]]])),
       'distinct': not agg and draw(st.integers(0, 3)) == 0}
  return q


def to_sql(q, src='T'):
  s = sql()
  cols = s.Columns([to_column(c) for c in q['cols']],
                   distinct=q['distinct'] or None)
  return s.Sql(cols, src, [conds.render(c) for c in q['w']] or None,
               q['by'] or None)


@st.composite
def gen_with(draw):
  agg = draw(st.booleans())  # rows and totals cannot be merged
  pool = draw(st.lists(query(agg=agg), min_size=1, max_size=3))
  ops = []
  for _ in range(draw(st.integers(2, 6))):
    ops.append([draw(st.sampled_from(['add', 'merge', 'merge', 'Sql'])),
                draw(st.sampled_from(['TA', 'TA', 'TB', 'TA_1', 'T a', 'TA1'])),
                draw(st.integers(0, len(pool) - 1))])
  return {'table': draw(gen_table()), 'pool': pool, 'ops': ops}


def run_with(spec):
  s, labels = sql(), []
  with sut('Datasources'):
    e = engine(spec['table'])
    ds = s.Datasources()
    log = []  # alias, names by original column, the query on its own
    for how, alias, i in spec['ops']:
      q = to_sql(spec['pool'][i])
      alone = str(to_sql(spec['pool'][i]))
      child = s.Datasource(q, alias)
      n = len(ds)
      if how == 'Sql' and not any(h == 'merge' for h, _, _ in spec['ops']):
        holder = s.Sql('k', 'T', with_data=ds)
        ds = holder.with_data
        got = ds.add(child)
      else:
        got = ds.merge(child) if how == 'merge' else ds.add(child)
      valid(got)
      require(got in ds.children, '%s is not in %s', got, list(ds.children))
      if len(ds) == n:
        labels.append('shared by ' + how)
      elif got != s.escape_alias(alias):
        labels.append('renamed')
      log.append((got, [c.alias for c in q.all_columns], alone))
      if how != 'merge':
        n = len(ds)
        require(ds.add(s.Datasource(to_sql(spec['pool'][i]), alias)) == got or
                len(ds) == n, 'adding the same query again adds a table')
    texts = [str(x) for x in ds.children.values()]
    if all(how != 'merge' for how, _, _ in spec['ops']):
      require(len(set(texts)) == len(texts), 'equal queries: %s', ds)
    low = [a.lower() for a in ds.children]
    require(len(set(low)) == len(low), 'aliases collide: %s', low)
    head = str(ds)
    require(head == str(ds), 'unstable rendering')
    for alias, names, alone in log:
      have, rows = fetch(e, 'WITH\n%s\nSELECT * FROM %s' % (head, alias))
      orig, want = fetch(e, alone)
      require(len(orig) == len(names), 'lost columns of %s', alone)
      if set(names) - set(have):
        require(False, 'columns %s are not in %s: %s', names, alias, have)
      got = [[r[have.index(n)] for n in names] for r in rows]
      require(same_rows(got, want), '%s(%s) gives %s; alone, %s: %s', alias,
              names, got, alone, want)
  if len(ds) < len(log) or 'renamed' in labels:
    labels.append('nontrivial')
  return labels


@st.composite
def gen_nest(draw):
  inner = draw(query())
  outer = draw(query(agg=draw(st.booleans())))
  # columns of the outer query are columns of the inner one
  outer['cols'] = [dict(c, pick=draw(st.integers(0, 3)), w=[])
                   for c in outer['cols']]
  mode = draw(st.sampled_from(['plain', 'plain', 'alias', 'with', 'with',
                               'nocols', 'innerless']))
  return {'table': draw(gen_table()), 'inner': inner, 'outer': outer,
          'mode': mode, 'outside': draw(st.lists(st.tuples(
              st.sampled_from(['TA', 'TB', 'NoNameTable', 'TA_1']), query()),
              max_size=2)),
          'name': draw(st.sampled_from(['TA', 'TB', 'TA_1'])),
          'name2': draw(st.sampled_from(['TB', 'TA', 'TC', 'TA_1'])),
          'pick': draw(st.integers(0, 3)), 'row': draw(st.integers(0, 9)),
          'star': draw(st.sampled_from([None, None, 'star', 'by'])),
          'inner_by': draw(st.sampled_from([[], [], ['g'], ['g', 'i']])),
          'deep': draw(st.booleans()),
          'cond': draw(conds.cond(True))}


def run_nest(spec):
  """Sql over Sql equals the outer query on the rows of the inner one."""
  s, mode = sql(), spec['mode']
  labels = ['mode:' + mode]
  t = spec['table']
  with sut('Sql'):
    e = engine(t)
    w = conds.render(spec['cond'])
    if mode == 'nocols':
      inner = to_sql(spec['inner'])
      names, rows = fetch(e, inner)
      i = spec['pick'] % len(names)
      v = rows[spec['row'] % len(rows)][i] if rows else None
      if v is None:
        raise Skip('nothing to filter on')
      by = [names[i]] if spec['star'] == 'by' else None
      w = None if spec['star'] else '%s = %s' % (names[i], conds.lit(v))
      want = [r for r in rows if spec['star'] or r[i] == v]
      if by:
        names, want = by, [(x,) for x in {r[i] for r in rows}]
      q = s.Sql(None, inner, w, by)
      got = fetch(e, q)
      require(got[0] == names and same_rows(got[1], want),
              '%s gives %s, expected %s', q, got, want)
      return labels + (['nontrivial'] if len(want) < len(rows) else [])
    if mode == 'innerless':
      inner = s.Sql(None, 'T', w, spec['inner_by'] or None)
      ks = [n for n, r in enumerate(table.to_rows(t)) if conds.holds(
          spec['cond'], r)]
      part = engine(table.take(t, ks))
      q = spec['inner']
      if spec['inner_by']:
        names = sorted(spec['inner_by'])
        part.tables['t'] = (spec['inner_by'], list({tuple(r[g] for g in spec[
            'inner_by']) for n, r in enumerate(table.to_rows(t)) if n in ks}))
        q = {'cols': [{'s': names[0], 'fn': 'COUNT({})', 'alias': 'n', 'w': []}],
             'by': [], 'w': [], 'distinct': False}
      got = fetch(e, to_sql(q, inner))
      want = fetch(part, to_sql(q))
      require(got[0] == want[0] and same_rows(got[1], want[1]),
              '%s, expected %s', got, want)
      return labels + (['nontrivial'] if 0 < len(ks) < t['n'] else [])
    inner = to_sql(spec['inner'])
    names, rows = fetch(e, inner)
    if mode == 'with':
      # the inner query reads a chain of tables of its own WITH clause
      chain = s.Datasources()
      a = chain.add(s.Datasource(inner, spec['name']))
      if spec['deep']:
        mid = s.Sql(s.Columns(names), a)
        a = chain.add(s.Datasource(mid, spec['name2']))
      inner = s.Sql(s.Columns(names), a, with_data=chain)
      got = fetch(e, inner)
      require(same_rows(got[1], rows), 'a chain of tables: %s, expected %s', got,
              rows)
    e.tables['m'] = (names, rows)
    outer = copy.deepcopy(spec['outer'])
    for c in outer['cols']:
      c['s'] = names[c['pick'] % len(names)]
    outer['by'] = [names[0]] if outer['by'] else []
    outer['w'] = []
    if any(c['fn'] == 'SUM({})' and any(isinstance(r[names.index(
        c['s'])], str) for r in rows) for c in outer['cols']):
      raise Skip('sum of strings')
    want = fetch(e, to_sql(outer, 'm'))
    outside = s.Datasources()
    for alias, q in spec['outside']:
      outside.add(s.Datasource(to_sql(q), alias))
    cols = s.Columns([to_column(c) for c in outer['cols']],
                     distinct=outer['distinct'] or None)
    src = s.Datasource(inner, 'Sub') if mode == 'alias' else inner
    q = s.Sql(cols, src, None, outer['by'] or None,
              outside if spec['outside'] else None)
    text_ = str(q)
    require(text_ == str(q), 'unstable rendering')
    got = fetch(e, q)
    again = s.Sql(s.Columns([to_column(c) for c in outer['cols']],
                            distinct=outer['distinct'] or None), src, None,
                  outer['by'] or None)
    other = fetch(e, again)
    require(other[0] == want[0] and same_rows(other[1], want[1]),
            'used again, %s gives %s, expected %s', again, other, want)
    require(got[0] == want[0] and same_rows(got[1], want[1]),
            '%s gives %s, expected %s', text_, got, want)
  if mode == 'with' and set(n for n, _ in spec['outside']) & {
      spec['name'], spec['name2'], 'NoNameTable'}:
    labels.append('conflict')
  return labels + ['nontrivial']


# ---------------------------------------------------------------- windows

@st.composite
def gen_window(draw):
  return {'table': draw(gen_table()),
          'part': draw(st.lists(st.sampled_from(['g', 'i']), max_size=2,
                                unique=True)),
          'order': draw(st.sampled_from([None, 'k', 'k DESC'])),
          'frame': draw(st.booleans()),
          'fn': draw(st.sampled_from(['SUM({})', 'MAX({})', 'COUNT({})'])),
          's': draw(text()), 'w': draw(st.lists(conds.cond(True), max_size=1)),
          'add': draw(st.booleans())}


def run_window(spec):
  s, t = sql(), spec['table']
  rows = [dict(r, k=n) for n, r in enumerate(table.to_rows(t))]
  order = spec['order']
  with sut('windows'):
    frame = 'ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW' if (
        order and spec['frame']) else None
    c = s.Column(words(spec['s']), spec['fn'], 'v', [
        conds.render(w) for w in spec['w']] or None, spec['part'] or (
            None if order else []), order and s.Column(order, auto_alias=False),
                 frame)
    cols = ['k', c]
    if spec['add']:
      cols.append((c * 2 - c).set_alias('v2'))
    if not order and not spec['part']:
      pass
    got = {r[0]: r[1:] for r in fetch(engine(t), s.Sql(cols, 'T'))[1]}
  require(len(got) == len(rows), '%d rows', len(got))
  for r in rows:
    peers = [x for x in rows if all(x[p] == r[p] for p in spec['part'])]
    if order:
      peers = [x for x in peers if (x['k'] <= r['k']) == (
          order == 'k') or x is r]
    want = value({'k': 'col', 's': spec['s'], 'w': spec['w'],
                  'fn': spec['fn']}, peers)
    require(all(close(v, want) for v in got[r['k']]),
            'row %s: %s gives %s, expected %s', r, c, got[r['k']], want)
  return ['nontrivial'] if len(rows) > 1 and (spec['part'] or order) else []


# ------------------------------------------------------------------ names

CHARS = st.characters(min_codepoint=32, max_codepoint=126)


@st.composite
def gen_alias(draw):
  one = st.one_of(st.text(CHARS, min_size=1, max_size=6), st.sampled_from([
      '?', ')', '2x', '1', 'end', 'Group', 'a)', '_', '(a)', 'x_', '-', '__',
      '%', 'a__b', '`x`', ' x', '5%', 'select', 'sum(x)', '1 + sum(x)']))
  return {'a': draw(one), 'b': draw(one), 'col': draw(st.sampled_from(TEXTS))}


def run_alias(spec):
  s, a = sql(), spec['a']
  if not a.strip('`') or not spec['b'].strip('`'):
    raise Skip('no name')
  with sut('aliases'):
    x = s.escape_alias(a)
    valid(x)
    require(s.escape_alias(x) == x, 'escaped twice: %s, %s', x,
            s.escape_alias(x))
    seen, y = set(), x
    for _ in range(12):
      require(y not in seen, 'suffixes repeat: %s', y)
      seen.add(y)
      y = s.add_suffix(y)
      valid(y)
    c = s.Column('x', 'SUM({})', a)
    d = s.Column('y', 'SUM({})', spec['b'])
    cols = s.Columns([c, d])
    t = {'n': 2, 'cols': {'x': [1, 2], 'y': [10, 20]}}
    names, rows = fetch(bq.from_spec(t, 'p.d.src'), s.Sql(cols, 'p.d.src'))
    require(names == [c.alias, d.alias], 'selected %s', names)
    require(list(rows[0]) == [3, 30], 'rows %s', rows)
    if s.escape_alias(a) != s.escape_alias(spec['b']) and (
        s.escape_alias(a).lower() == s.escape_alias(spec['b']).lower()):
      return ['case']  # tables are named by the library, never so
    ds = s.Datasources()
    k1 = ds.add(s.Datasource(s.Sql(s.Column('x', alias='v'), 'p.d.src'), a))
    k2 = ds.add(s.Datasource(s.Sql(s.Column('y', alias='v'), 'p.d.src'), spec['b']))
    for k, want in ((k1, [1, 2]), (k2, [10, 20])):
      got = fetch(bq.from_spec(t, 'p.d.src'), 'WITH %s SELECT * FROM %s' % (ds, k))[1]
      require(sorted(r[0] for r in got) == want, 'table %s is %s', k, got)
  labels = []
  if x != a:
    labels.append('nontrivial')
  if c.alias != x or d.suffix:
    labels.append('collide')
  return labels


SUITES = [
    Suite('arith', gen_arith, run_arith, 5000, 100000),
    Suite('columns', gen_columns, run_columns, 4000, 60000),
    Suite('filters', gen_filters, run_filters, 4000, 60000),
    Suite('with', gen_with, run_with, 3000, 60000),
    Suite('nest', gen_nest, run_nest, 3000, 60000),
    Suite('windows', gen_window, run_window, 1500, 20000),
    Suite('alias', gen_alias, run_alias, 3000, 50000),
]
