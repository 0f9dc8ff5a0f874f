"""A small interpreter of the BigQuery standard SQL the library generates.

It is the judge of the SQL properties: it parses a query text and evaluates it
over rows held in Python, with BigQuery's semantics (NULL logic, SAFE functions,
float division that fails on zero, exact name resolution, GROUP BY rules).
Row order of every relation without ORDER BY is arbitrary, and is shuffled on
purpose. Text it cannot parse or resolve raises SqlError, as BigQuery would.
"""
import functools
import hashlib
import math
import random
import re


class SqlError(Exception):
  """BigQuery would refuse or fail the query."""


class Unsupported(SqlError):
  """Outside of the modelled subset."""


TOKEN = re.compile(r'''
  (?P<ws>\s+|--[^\n]*|\#[^\n]*)
 |(?P<hex>0[xX][0-9a-fA-F]+)
 |(?P<num>(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?)
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<bt>`[^`]*`)
 |(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')
 |(?P<op><=|>=|<>|!=|\|\||[-+*/(),.<>=\[\]])
''', re.X)

RESERVED = set("""
ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE CAST COLLATE
CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE END ENUM
ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP
GROUPING GROUPS HASH HAVING IF IGNORE IN INNER INTERSECT INTERVAL INTO IS JOIN
LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR
ORDER OUTER OVER PARTITION PRECEDING PROTO QUALIFY RANGE RECURSIVE RESPECT RIGHT
ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE UNBOUNDED
UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN
""".split())


ESCAPE = re.compile(r'\\(u[0-9a-fA-F]{4}|x[0-9a-fA-F]{2}|.)')
ESCAPES = {'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f', 'a': '\a',
           'v': '\v', '\\': '\\', '"': '"', "'": "'", '`': '`', '?': '?'}


def unescape(m):
  c = m.group(1)
  if len(c) > 1:
    return chr(int(c[1:], 16))
  if c not in ESCAPES:
    raise SqlError('illegal escape sequence \\%s' % c)
  return ESCAPES[c]


class Tok:
  __slots__ = ('kind', 'text', 'up')

  def __init__(self, kind, text):
    self.kind, self.text = kind, text
    self.up = text.upper() if kind == 'id' else text


def lex(s):
  out, i = [], 0
  while i < len(s):
    m = TOKEN.match(s, i)
    if not m:
      raise SqlError('unexpected character %r at ...%s' % (s[i], s[i:i + 30]))
    k = m.lastgroup
    if k != 'ws':
      out.append(Tok(k, m.group()))
    i = m.end()
  return out


# ---------------------------------------------------------------- parsing


class Parser:

  def __init__(self, text):
    self.t = lex(text)
    self.i = 0

  def peek(self, k=0):
    j = self.i + k
    return self.t[j].up if j < len(self.t) and self.t[j].kind in (
        'id', 'op') else None

  def at(self, *words):
    return all(self.peek(k) == w for k, w in enumerate(words))

  def accept(self, *words):
    if self.at(*words):
      self.i += len(words)
      return True
    return False

  def expect(self, *words):
    if not self.accept(*words):
      near = ' '.join(t.text for t in self.t[max(0, self.i - 6):self.i + 6])
      raise SqlError('expected %s near: %s' % (' '.join(words), near))

  def ident(self):
    if self.i >= len(self.t):
      raise SqlError('unexpected end')
    t = self.t[self.i]
    if t.kind == 'bt':
      self.i += 1
      return t.text[1:-1]
    if t.kind == 'id' and t.up not in RESERVED:
      self.i += 1
      return t.text
    near = ' '.join(t.text for t in self.t[max(0, self.i - 6):self.i + 6])
    raise SqlError('expected an identifier near: %s' % near)

  def is_ident(self):
    if self.i >= len(self.t):
      return False
    t = self.t[self.i]
    return t.kind == 'bt' or t.kind == 'id' and t.up not in RESERVED

  def parse(self):
    q = self.query()
    if self.i != len(self.t):
      near = ' '.join(t.text for t in self.t[max(0, self.i - 4):self.i + 6])
      raise SqlError('trailing tokens near: %s' % near)
    return q

  def query(self):
    ctes = []
    if self.accept('WITH'):
      while True:
        name = self.ident()
        self.expect('AS')
        self.expect('(')
        ctes.append((name, self.query()))
        self.expect(')')
        if not self.accept(','):
          break
    s = self.select()
    s['with'] = ctes
    return s

  def select(self):
    self.expect('SELECT')
    s = {'distinct': self.accept('DISTINCT'), 'items': [], 'from': None,
         'where': None, 'group': None, 'order': [], 'limit': None}
    while True:
      if self.at('FROM') and s['items']:  # trailing comma
        break
      s['items'].append(self.item())
      if not self.accept(','):
        break
    if self.accept('FROM'):
      s['from'] = self.from_()
    if self.accept('WHERE'):
      s['where'] = self.expr()
    if self.accept('GROUP', 'BY'):
      s['group'] = self.exprs()
    if self.at('HAVING') or self.at('UNION'):
      raise Unsupported(self.peek())
    if self.accept('ORDER', 'BY'):
      s['order'] = self.orders()
    if self.accept('LIMIT'):
      s['limit'] = int(self.t[self.i].text)
      self.i += 1
    return s

  def item(self):
    if self.accept('*'):
      exc = []
      if self.accept('EXCEPT'):
        self.expect('(')
        exc.append(self.ident())
        while self.accept(','):
          exc.append(self.ident())
        self.expect(')')
      return ('star', None, exc)
    if self.is_ident() and self.peek(1) == '.' and self.peek(2) == '*':
      q = self.ident()
      self.i += 2
      return ('star', q, [])
    e = self.expr()
    alias = None
    if self.accept('AS'):
      alias = self.ident()
    elif self.is_ident():
      alias = self.ident()
    if alias is None and e[0] == 'col':
      alias = e[1][-1]
    return ('expr', e, alias)

  def from_(self):
    left = self.table()
    while True:
      kind = None
      for k in ('LEFT', 'RIGHT', 'FULL'):
        if self.at(k, 'JOIN') or self.at(k, 'OUTER', 'JOIN'):
          kind = k
          self.i += 1
          self.accept('OUTER')
          self.expect('JOIN')
      if kind is None:
        if self.accept('CROSS', 'JOIN'):
          kind = 'CROSS'
        elif self.accept('INNER', 'JOIN') or self.accept('JOIN'):
          kind = 'INNER'
        elif self.accept(','):
          kind = 'CROSS'
        else:
          return left
      right = self.table()
      on = using = None
      if self.accept('ON'):
        on = self.expr()
      elif self.accept('USING'):
        self.expect('(')
        using = [self.ident()]
        while self.accept(','):
          using.append(self.ident())
        self.expect(')')
      if kind in ('LEFT', 'RIGHT', 'FULL') and on is None and using is None:
        raise SqlError('%s JOIN needs a condition' % kind)
      if kind == 'CROSS' and (on is not None or using is not None):
        raise SqlError('CROSS JOIN with a condition')
      if kind == 'INNER' and on is None and using is None and right[0] != 'unnest':
        raise SqlError('JOIN needs a condition')
      left = ('join', kind, left, right, on, using)

  def table(self):
    if self.accept('('):
      if self.at('SELECT') or self.at('WITH'):
        q = self.query()
        self.expect(')')
        return ('sub', q, self.opt_alias())
      f = self.from_()
      self.expect(')')
      return f
    if self.accept('UNNEST'):
      self.expect('(')
      e = self.expr()
      self.expect(')')
      return ('unnest', e, self.opt_alias())
    name = self.ident()
    while self.accept('.'):
      name += '.' + self.ident()
    return ('table', name, self.opt_alias() or name.split('.')[-1])

  def opt_alias(self):
    if self.accept('AS'):
      return self.ident()
    if self.is_ident():
      return self.ident()
    return None

  def exprs(self):
    out = [self.expr()]
    while self.accept(','):
      out.append(self.expr())
    return out

  def orders(self):
    out = []
    while True:
      e = self.expr()
      desc = self.accept('DESC')
      if not desc:
        self.accept('ASC')
      out.append((e, desc))
      if not self.accept(','):
        return out

  def expr(self):
    e = self.and_()
    while self.accept('OR'):
      e = ('or', e, self.and_())
    return e

  def and_(self):
    e = self.not_()
    while self.accept('AND'):
      e = ('and', e, self.not_())
    return e

  def not_(self):
    if self.accept('NOT'):
      return ('not', self.not_())
    return self.cmp()

  def cmp(self):
    e = self.add()
    while True:
      neg = False
      if self.at('NOT') and self.peek(1) in ('IN', 'BETWEEN', 'LIKE'):
        self.i += 1
        neg = True
      if self.accept('IS'):
        n = self.accept('NOT')
        self.expect('NULL')
        e = ('isnull', e)
        if n:
          e = ('not', e)
      elif self.accept('BETWEEN'):
        a = self.add()
        self.expect('AND')
        b = self.add()
        e = ('and', ('cmp', '>=', e, a), ('cmp', '<=', e, b))
        if neg:
          e = ('not', e)
      elif self.accept('IN'):
        self.expect('(')
        vs = self.exprs()
        self.expect(')')
        e = ('in', e, vs)
        if neg:
          e = ('not', e)
      else:
        if neg:
          raise Unsupported('NOT LIKE')
        for op in ('<=', '>=', '<>', '!=', '<', '>', '='):
          if self.at(op):
            self.i += 1
            e = ('cmp', op, e, self.add())
            break
        else:
          return e
        if self.peek() in ('<=', '>=', '<>', '!=', '<', '>', '='):
          raise SqlError('chained comparison')

  def add(self):
    e = self.mul()
    while self.peek() in ('+', '-', '||'):
      op = self.peek()
      self.i += 1
      e = ('arith', op, e, self.mul())
    return e

  def mul(self):
    e = self.unary()
    while self.peek() in ('*', '/'):
      op = self.peek()
      self.i += 1
      e = ('arith', op, e, self.unary())
    return e

  def unary(self):
    if self.accept('-'):
      if self.at('-'):
        pass  # "- -5" as separate tokens is fine
      return ('neg', self.unary())
    if self.accept('+'):
      return self.unary()
    return self.postfix()

  def postfix(self):
    e = self.primary()
    while self.accept('['):
      fn = self.ident().upper()
      if fn not in ('OFFSET', 'SAFE_OFFSET', 'ORDINAL', 'SAFE_ORDINAL'):
        raise SqlError('array access needs OFFSET')
      self.expect('(')
      i = self.expr()
      self.expect(')')
      self.expect(']')
      e = ('index', fn, e, i)
    return e

  def primary(self):
    if self.i >= len(self.t):
      raise SqlError('unexpected end of query')
    t = self.t[self.i]
    if t.kind == 'num':
      self.i += 1
      return ('lit', float(t.text) if re.search('[.eE]', t.text) else
              int(t.text))
    if t.kind == 'hex':
      self.i += 1
      return ('lit', int(t.text, 16))
    if t.kind == 'str':
      self.i += 1
      return ('lit', ESCAPE.sub(unescape, t.text[1:-1]))
    if self.accept('('):
      if self.at('SELECT') or self.at('WITH'):
        q = self.query()
        self.expect(')')
        return ('scalar', q)
      e = self.expr()
      self.expect(')')
      return e
    if self.accept('['):
      vs = [] if self.at(']') else self.exprs()
      self.expect(']')
      return ('array', vs)
    if self.accept('NULL'):
      return ('lit', None)
    if self.accept('TRUE'):
      return ('lit', True)
    if self.accept('FALSE'):
      return ('lit', False)
    if self.accept('CASE'):
      base = None if self.at('WHEN') else self.expr()
      whens = []
      while self.accept('WHEN'):
        c = self.expr()
        self.expect('THEN')
        v = self.expr()
        whens.append((c if base is None else ('cmp', '=', base, c), v))
      other = self.expr() if self.accept('ELSE') else ('lit', None)
      self.expect('END')
      return ('case', whens, other)
    if self.accept('CAST'):
      self.expect('(')
      e = self.expr()
      self.expect('AS')
      ty = self.ident().upper()
      self.expect(')')
      return ('cast', e, ty)
    if self.accept('IF'):
      return self.call('IF')
    if self.is_ident():
      name = [self.ident()]
      while self.at('.'):
        self.i += 1
        name.append(self.ident())
      if self.at('('):
        return self.call('.'.join(name).upper())
      return ('col', name)
    near = ' '.join(t.text for t in self.t[max(0, self.i - 6):self.i + 6])
    raise SqlError('cannot parse near: %s' % near)

  def call(self, fn):
    self.expect('(')
    distinct = self.accept('DISTINCT')
    args, order, limit, nulls = [], [], None, None
    if self.accept('*'):
      args = [('allrows',)]
    elif not self.at(')'):
      args = self.exprs()
    if self.accept('IGNORE', 'NULLS'):
      nulls = 'ignore'
    elif self.accept('RESPECT', 'NULLS'):
      nulls = 'respect'
    if self.accept('ORDER', 'BY'):
      order = self.orders()
    if self.accept('LIMIT'):
      limit = int(self.t[self.i].text)
      self.i += 1
    self.expect(')')
    if self.accept('OVER'):
      self.expect('(')
      part, worder, frame = [], [], None
      if self.accept('PARTITION', 'BY'):
        part = self.exprs()
      if self.accept('ORDER', 'BY'):
        worder = self.orders()
      if self.accept('ROWS'):
        self.expect('BETWEEN', 'UNBOUNDED', 'PRECEDING', 'AND', 'CURRENT',
                    'ROW')
        frame = 'rows'
      self.expect(')')
      if distinct or order:
        raise Unsupported('window with DISTINCT')
      return ('window', fn, args, part, worder, frame)
    if fn in AGGREGATES:
      return ('agg', fn, args, distinct, order, limit, nulls)
    if distinct or order or limit or nulls:
      raise SqlError('%s is not an aggregate' % fn)
    return ('call', fn, args)


@functools.lru_cache(512)
def parse(text):
  return Parser(text).parse()


# ------------------------------------------------------------- evaluation


def is_num(v):
  return isinstance(v, (int, float)) and not isinstance(v, bool)


def kind(v):
  return 'num' if is_num(v) else type(v).__name__


def compare(op, a, b):
  if a is None or b is None:
    return None
  if kind(a) != kind(b):
    raise SqlError('no matching signature for operator %s: %s, %s' % (
        op, kind(a), kind(b)))
  if op == '=':
    return a == b
  if op in ('!=', '<>'):
    return a != b
  return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def sort_key(v):
  """NULLs first, then NaN, then values."""
  if v is None:
    return (0, 0)
  if isinstance(v, float) and math.isnan(v):
    return (1, 0)
  return (2, v)


def num(v, what):
  if v is not None and not is_num(v):
    raise SqlError('%s of a %s' % (what, kind(v)))
  return v


def arith(op, a, b):
  if a is None or b is None:
    return None
  if op == '||':
    return a + b
  num(a, op), num(b, op)
  if op == '+':
    r = a + b
  elif op == '-':
    r = a - b
  elif op == '*':
    r = a * b
  else:
    if b == 0:
      raise SqlError('division by zero: %s / %s' % (a, b))
    return float(a) / float(b)
  if isinstance(r, float) and math.isinf(r) and not (
      math.isinf(a) or math.isinf(b)):
    raise SqlError('floating point overflow')
  return r


def group_key(v):
  if isinstance(v, float) and v == int(v) if isinstance(
      v, float) and math.isfinite(v) else False:
    return int(v)
  if isinstance(v, float) and math.isnan(v):
    return 'NaN!'
  if isinstance(v, bool):
    return ('bool', v)
  return v


def to_string(v):
  if v is None:
    return None
  if isinstance(v, bool):
    return 'true' if v else 'false'
  if isinstance(v, float) and math.isfinite(v) and v == int(v):
    return str(int(v))
  return str(v)


def power(a, b):
  if a is None or b is None:
    return None
  try:
    r = math.pow(a, b)
  except (ValueError, OverflowError, ZeroDivisionError) as e:
    raise SqlError('POW(%s, %s): %s' % (a, b, e))
  return r


def sqrt(a):
  if a is None:
    return None
  if a < 0:
    raise SqlError('SQRT of a negative value %s' % a)
  return math.sqrt(a)


def log(a):
  if a is None:
    return None
  if a <= 0:
    raise SqlError('LN(%s)' % a)
  return math.log(a)


def safe(f):
  def g(*a):
    try:
      return f(*a)
    except SqlError:
      return None
  return g


def nullsafe(f):
  return lambda *a: None if any(x is None for x in a) else f(*a)


def fingerprint(s):
  if s is None:
    return None
  h = hashlib.blake2b(s.encode(), digest_size=8).digest()
  return int.from_bytes(h, 'big', signed=True)


def concat(*a):
  if any(x is None for x in a):
    return None
  for x in a:
    if not isinstance(x, str):
      raise SqlError('CONCAT of %s' % kind(x))
  return ''.join(a)


SCALAR = {
    'POWER': power, 'POW': power, 'SQRT': sqrt, 'LOG': log, 'LN': log,
    'EXP': nullsafe(math.exp), 'ABS': nullsafe(abs),
    'CEILING': nullsafe(lambda x: float(math.ceil(x))),
    'CEIL': nullsafe(lambda x: float(math.ceil(x))),
    'FLOOR': nullsafe(lambda x: float(math.floor(x))),
    'MOD': nullsafe(lambda a, b: math.fmod(a, b) if isinstance(
        a, float) or isinstance(b, float) else int(math.fmod(a, b))),
    'CONCAT': concat, 'FARM_FINGERPRINT': fingerprint,
    'SAFE_DIVIDE': lambda a, b: None if a is None or not b else float(a) / b,
    'GENERATE_ARRAY': nullsafe(lambda a, b: list(range(int(a), int(b) + 1))),
    'UPPER': nullsafe(str.upper), 'LOWER': nullsafe(str.lower),
    'ROUND': nullsafe(lambda x, n=0: round(float(x), int(n))),
    'SIGN': nullsafe(lambda x: (x > 0) - (x < 0)),
    'GREATEST': nullsafe(max), 'LEAST': nullsafe(min),
}
for _n in ('POWER', 'POW', 'SQRT', 'LOG', 'LN', 'EXP'):
  SCALAR['SAFE.' + _n] = safe(SCALAR[_n])


def fsum(v):
  if all(isinstance(x, int) for x in v):
    return sum(v)
  return math.fsum(v) if all(math.isfinite(x) for x in v) else sum(v)


def mean(v):
  return fsum(v) / len(v)


def covar(a, b, ddof):
  if len(a) <= ddof:
    return None
  ma, mb = mean(a), mean(b)
  return math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / (len(a) - ddof)


def corr(a, b):
  if len(a) < 2:
    return None
  d = covar(a, a, 0) * covar(b, b, 0)
  return covar(a, b, 0) / math.sqrt(d) if d > 0 else float('nan')


def approx_quantiles(v, n):
  """Exact order statistics: element k is at rank round(k * (N - 1) / n)."""
  if not v:
    return None
  v = sorted(v)
  return [v[int(round(k * (len(v) - 1) / n))] for k in range(n + 1)]


def var(d):
  return lambda v: covar(v, v, d)


def std(d):
  def f(v):
    r = covar(v, v, d)
    return None if r is None else math.sqrt(r)
  return f


ONE = {
    'SUM': lambda v: fsum(v) if v else None,
    'AVG': lambda v: float(mean(v)) if v else None,
    'MAX': lambda v: max(v) if v else None,
    'MIN': lambda v: min(v) if v else None,
    'ANY_VALUE': lambda v: v[0] if v else None,
    'VAR_SAMP': var(1), 'VARIANCE': var(1), 'VAR_POP': var(0),
    'STDDEV_SAMP': std(1), 'STDDEV': std(1), 'STDDEV_POP': std(0),
    'COUNT': len,
}
NUMERIC = {'SUM', 'AVG', 'VAR_SAMP', 'VARIANCE', 'VAR_POP', 'STDDEV_SAMP',
           'STDDEV', 'STDDEV_POP'}
TWO = {'CORR': corr, 'COVAR_SAMP': lambda a, b: covar(a, b, 1),
       'COVAR_POP': lambda a, b: covar(a, b, 0)}
AGGREGATES = set(ONE) | set(TWO) | {'COUNTIF', 'APPROX_QUANTILES', 'ARRAY_AGG'}


class Rel:
  """cols: [(qualifiers, name, visible)], rows: tuples."""

  def __init__(self, cols, rows):
    self.cols, self.rows = cols, rows

  def find(self, path):
    """Column index, None if there is none."""
    name = path[-1].lower()
    if len(path) == 1:
      hit = [i for i, (q, n, vis) in enumerate(self.cols)
             if vis and n is not None and n.lower() == name]
      if len(hit) > 1:
        raise SqlError('column name %s is ambiguous' % path[0])
    elif len(path) == 2:
      hit = [i for i, (q, n, vis) in enumerate(self.cols)
             if n is not None and n.lower() == name and q and
             q.lower() == path[0].lower()]
      if len(hit) > 1:
        raise SqlError('column name %s is ambiguous' % '.'.join(path))
    else:
      raise Unsupported('path ' + '.'.join(path))
    return hit[0] if hit else None


def contains(e, kinds):
  if isinstance(e, tuple):
    if e and e[0] in kinds:
      return True
    if e and e[0] == 'scalar':
      return False
    return any(contains(x, kinds) for x in e)
  if isinstance(e, list):
    return any(contains(x, kinds) for x in e)
  return False


class Engine:
  """tables: {name: (column names, list of row tuples)}."""

  def __init__(self, tables, seed=0):
    self.tables = {k.lower(): v for k, v in tables.items()}
    self.rng = random.Random(seed)
    self.queries = []

  # -- expressions; a context is (rel, row, outer, group)

  def compile(self, e, rel, outer=None, agg=None):
    """Closure row -> value. agg: compile for a group (list of rows)."""
    k = e[0]
    if k == 'lit':
      v = e[1]
      return lambda r: v
    if k == 'col':
      i = rel.find(e[1]) if rel else None
      if i is None and len(e[1]) == 1 and rel and any(
          q and q.lower() == e[1][0].lower() for q, n, v in rel.cols):
        i = rel.find([e[1][0], e[1][0]])  # UNNEST(...) AS x: x.x
      if i is not None:
        return lambda r: r[i]
      if outer is not None:
        f = outer(e)
        if f is not None:
          return lambda r: f[0]
      raise SqlError('unrecognized name: %s; there is %s' % (
          '.'.join(e[1]), [n for q, n, v in rel.cols] if rel else []))
    c = lambda x: self.compile(x, rel, outer, agg)
    if k == 'and':
      a, b = c(e[1]), c(e[2])
      def f(r):
        x = self.bool(a(r))
        if x is False:
          return False
        y = self.bool(b(r))
        return False if y is False else None if x is None or y is None else True
      return f
    if k == 'or':
      a, b = c(e[1]), c(e[2])
      def f(r):
        x = self.bool(a(r))
        if x is True:
          return True
        y = self.bool(b(r))
        return True if y is True else None if x is None or y is None else False
      return f
    if k == 'not':
      a = c(e[1])
      def f(r):
        x = self.bool(a(r))
        return None if x is None else not x
      return f
    if k == 'isnull':
      a = c(e[1])
      return lambda r: a(r) is None
    if k == 'cmp':
      a, b, op = c(e[2]), c(e[3]), e[1]
      return lambda r: compare(op, a(r), b(r))
    if k == 'in':
      a, vs = c(e[1]), [c(x) for x in e[2]]
      def f(r):
        x = a(r)
        res = [compare('=', x, v(r)) for v in vs]
        return True if True in res else None if None in res else False
      return f
    if k == 'arith':
      a, b, op = c(e[2]), c(e[3]), e[1]
      return lambda r: arith(op, a(r), b(r))
    if k == 'neg':
      a = c(e[1])
      def f(r):
        v = num(a(r), '-')
        return None if v is None else -v
      return f
    if k == 'case':
      ws = [(c(a), c(b)) for a, b in e[1]]
      o = c(e[2])
      def f(r):
        for a, b in ws:
          if self.bool(a(r)):
            return b(r)
        return o(r)
      return f
    if k == 'cast':
      a, ty = c(e[1]), e[2]
      def f(r):
        v = a(r)
        if v is None:
          return None
        if ty == 'STRING':
          return to_string(v)
        if ty in ('FLOAT64',):
          return float(v)
        if ty in ('INT64',):
          return int(round(float(v)))
        raise Unsupported('CAST AS ' + ty)
      return f
    if k == 'array':
      vs = [c(x) for x in e[1]]
      return lambda r: [v(r) for v in vs]
    if k == 'index':
      a, i, fn = c(e[2]), c(e[3]), e[1]
      def f(r):
        arr, j = a(r), i(r)
        if arr is None or j is None:
          return None
        if fn.endswith('ORDINAL'):
          j -= 1
        if 0 <= j < len(arr):
          return arr[j]
        if fn.startswith('SAFE'):
          return None
        raise SqlError('array index %d out of bounds (%d)' % (j, len(arr)))
      return f
    if k == 'scalar':
      scope = self.scope
      def f(r):
        def look(x):
          i = rel.find(x[1])
          if i is None:
            return outer(x) if outer else None
          return (r[i],)
        out = self.run(e[1], scope, look)
        if len([1 for x in out.cols if x[2]]) != 1:
          raise SqlError('scalar subquery with several columns')
        if len(out.rows) > 1:
          raise SqlError('scalar subquery with several rows')
        return out.rows[0][0] if out.rows else None
      return f
    if k == 'call':
      fn = e[1]
      args = [c(x) for x in e[2]]
      if fn == 'IF':
        if len(args) != 3:
          raise SqlError('IF needs 3 arguments')
        a, b, d = args
        return lambda r: b(r) if self.bool(a(r)) else d(r)
      if fn == 'COALESCE':
        def f(r):
          for a in args:
            v = a(r)
            if v is not None:
              return v
          return None
        return f
      if fn in ('IFNULL', 'NULLIF'):
        a, b = args
        if fn == 'IFNULL':
          return lambda r: b(r) if a(r) is None else a(r)
        return lambda r: None if compare('=', a(r), b(r)) else a(r)
      if fn == 'RAND':
        return lambda r: self.rng.random()
      if fn not in SCALAR:
        raise SqlError('function not found: ' + fn)
      g = SCALAR[fn]
      return lambda r: g(*[a(r) for a in args])
    if k == 'agg':
      raise SqlError('aggregate function %s not allowed here' % e[1])
    if k == 'window':
      raise SqlError('analytic function %s not allowed here' % e[1])
    raise Unsupported(k)

  @staticmethod
  def bool(v):
    if v is not None and not isinstance(v, bool):
      raise SqlError('%r where a BOOL is needed' % (v,))
    return v

  def aggregate(self, e, rel, outer):
    """Closure rows -> value."""
    _, fn, args, distinct, order, limit, nulls = e
    if args == [('allrows',)]:
      if fn != 'COUNT':
        raise SqlError(fn + '(*)')
      return len
    if any(contains(a, ('agg', 'window')) for a in args):
      raise SqlError('aggregations of aggregations are not allowed')
    fs = [self.compile(a, rel, outer) for a in args]
    if fn in ONE:
      f, g = fs[0], ONE[fn]
      if len(fs) != 1:
        raise SqlError('%s of %d arguments' % (fn, len(fs)))
      def h(rows):
        v = [x for x in map(f, rows) if x is not None]
        if fn in NUMERIC:
          for x in v:
            num(x, fn)
        if distinct:
          v = list({group_key(x): x for x in v}.values())
        return g(v)
      return h
    if fn in TWO:
      g = TWO[fn]
      a, b = fs
      def h(rows):
        p = [(num(a(r), fn), num(b(r), fn)) for r in rows]
        p = [x for x in p if None not in x]
        return g([x for x, _ in p], [y for _, y in p])
      return h
    if fn == 'COUNTIF':
      return lambda rows: sum(1 for r in rows if self.bool(fs[0](r)))
    if fn == 'APPROX_QUANTILES':
      n = args[1][1]
      return lambda rows: approx_quantiles(
          [x for x in map(fs[0], rows) if x is not None], n)
    if fn == 'ARRAY_AGG':
      keys = [(self.compile(o, rel, outer), d) for o, d in order]
      def h(rows):
        rows = list(rows)
        for f, d in reversed(keys):
          rows.sort(key=lambda r: sort_key(f(r)), reverse=d)
        v = [fs[0](r) for r in rows]
        if nulls == 'ignore':
          v = [x for x in v if x is not None]
        if limit is not None:
          v = v[:limit]
        return v or None
      return h
    raise Unsupported(fn)

  def window(self, e, rel, outer):
    """List of values, one per row of rel."""
    _, fn, args, part, order, frame = e
    pf = [self.compile(p, rel, outer) for p in part]
    of = [(self.compile(o, rel, outer), d) for o, d in order]
    groups = {}
    for i, r in enumerate(rel.rows):
      groups.setdefault(tuple(group_key(f(r)) for f in pf), []).append(i)
    out = [None] * len(rel.rows)
    if fn in AGGREGATES:
      af = self.aggregate(('agg', fn, args, False, [], None, None), rel, outer)
    elif fn in ('LAG', 'LEAD'):
      vf = self.compile(args[0], rel, outer)
      if not order:
        raise SqlError(fn + ' needs ORDER BY')
    elif fn != 'ROW_NUMBER':
      raise Unsupported('window ' + fn)
    for idx in groups.values():
      idx = list(idx)
      for f, d in reversed(of):
        idx.sort(key=lambda i: sort_key(f(rel.rows[i])), reverse=d)
      if fn == 'ROW_NUMBER':
        for n, i in enumerate(idx):
          out[i] = n + 1
      elif fn in ('LAG', 'LEAD'):
        for n, i in enumerate(idx):
          m = n - 1 if fn == 'LAG' else n + 1
          out[i] = vf(rel.rows[idx[m]]) if 0 <= m < len(idx) else None
      elif not order and not frame:
        v = af([rel.rows[i] for i in idx])
        for i in idx:
          out[i] = v
      else:
        keys = [tuple(sort_key(f(rel.rows[i])) for f, _ in of) for i in idx]
        for n, i in enumerate(idx):
          m = n + 1
          if not frame:
            while m < len(idx) and keys[m] == keys[n]:
              m += 1
          out[i] = af([rel.rows[j] for j in idx[:m]])
    return out

  # -- relations

  def source(self, f, scope, outer, left=None):
    k = f[0]
    if k == 'table':
      name = f[1].lower()
      if name in scope:
        names, rows = scope[name]
      elif name in self.tables:
        names, rows = self.tables[name]
      else:
        raise SqlError('table %s was not found' % f[1])
      return Rel([(f[2], n, True) for n in names], list(rows))
    if k == 'sub':
      r = self.run(f[1], scope, None)
      return Rel([(f[2], n, True) for q, n, v in r.cols if v], r.rows)
    if k == 'unnest':
      fn = self.compile(f[1], Rel([], []), outer)
      return Rel([(f[2], f[2], True)], [(v,) for v in fn(()) or []])
    if k == 'join':
      return self.join(f, scope, outer)
    raise Unsupported(k)

  def join(self, f, scope, outer):
    _, how, lf, rf, on, using = f
    left = self.source(lf, scope, outer)
    if rf[0] == 'unnest':
      fn = self.compile(rf[1], left, outer)
      arr = [fn(r) or [] for r in left.rows]
      if how not in ('INNER', 'CROSS'):
        raise Unsupported('outer join of UNNEST')
      rel = Rel(left.cols + [(rf[2], rf[2], True)],
                [r + (v,) for r, a in zip(left.rows, arr) for v in a])
      if on is not None:
        c = self.compile(on, rel)
        rel.rows = [r for r in rel.rows if self.bool(c(r))]
      return rel
    right = self.source(rf, scope, outer)
    quals = [{q.lower() for q, _, _ in x.cols if q} for x in (left, right)]
    if quals[0] & quals[1]:
      raise SqlError('duplicate table alias %s' % (quals[0] & quals[1]))
    nl, nr = len(left.cols), len(right.cols)
    both = Rel(left.cols + right.cols, [])
    pairs, lhit, rhit = [], set(), set()
    if using is not None:
      li = [left.find([u]) for u in using]
      ri = [right.find([u]) for u in using]
      for u, a, b in zip(using, li, ri):
        if a is None or b is None:
          raise SqlError('column %s in USING clause not found on both sides; '
                         'there is %s and %s' % (
                             u, [c[1] for c in left.cols],
                             [c[1] for c in right.cols]))
      table = {}
      for j, r in enumerate(right.rows):
        key = tuple(group_key(r[b]) for b in ri)
        if None not in key:
          table.setdefault(key, []).append(j)
      for i, l in enumerate(left.rows):
        for j in table.get(tuple(group_key(l[a]) for a in li), ()):
          if right.rows:
            for a, b in zip(li, ri):
              compare('=', l[a], right.rows[j][b])
          pairs.append((i, j))
      if left.rows and right.rows:
        for a, b in zip(li, ri):
          ka = {kind(r[a]) for r in left.rows if r[a] is not None}
          kb = {kind(r[b]) for r in right.rows if r[b] is not None}
          if ka and kb and ka != kb:
            raise SqlError('USING columns of different types')
    else:
      c = self.compile(on, both) if on is not None else None
      for i, l in enumerate(left.rows):
        for j, r in enumerate(right.rows):
          if c is None or self.bool(c(l + r)):
            pairs.append((i, j))
    rows = [(left.rows[i], right.rows[j]) for i, j in pairs]
    lhit = {i for i, _ in pairs}
    rhit = {j for _, j in pairs}
    if how in ('LEFT', 'FULL'):
      rows += [(l, (None,) * nr) for i, l in enumerate(left.rows)
               if i not in lhit]
    if how in ('RIGHT', 'FULL'):
      rows += [((None,) * nl, r) for j, r in enumerate(right.rows)
               if j not in rhit]
    if using is None:
      return Rel(both.cols, [l + r for l, r in rows])
    cols = [(None, left.cols[a][1], True) for a in li]
    cols += [(q, n, v and i not in li) for i, (q, n, v) in enumerate(left.cols)]
    cols += [(q, n, v and i not in ri) for i, (q, n, v) in enumerate(right.cols)]
    out = []
    for l, r in rows:
      merged = tuple(l[a] if l[a] is not None else r[b]
                     for a, b in zip(li, ri))
      out.append(merged + l + r)
    return Rel(cols, out)

  def run(self, q, scope, outer=None):
    scope = dict(scope)
    for name, sub in q['with']:
      r = self.run(sub, scope)
      names = [n for _, n, v in r.cols if v]
      scope[name.lower()] = (names, r.rows)
    names = [n.lower() for n, _ in q['with']]
    if len(set(names)) != len(names):
      raise SqlError('duplicate alias in WITH')
    old, self.scope = getattr(self, 'scope', {}), scope
    try:
      return self.select(q, scope, outer)
    finally:
      self.scope = old

  def select(self, s, scope, outer):
    rel = self.source(s['from'], scope, outer) if s['from'] else Rel([], [()])
    if s['where'] is not None:
      if contains(s['where'], ('agg', 'window')):
        raise SqlError('aggregate function in WHERE')
      f = self.compile(s['where'], rel, outer)
      rel = Rel(rel.cols, [r for r in rel.rows if self.bool(f(r))])
    rows = list(rel.rows)
    self.rng.shuffle(rows)
    rel = Rel(rel.cols, rows)
    items = []
    for it in s['items']:
      if it[0] == 'expr':
        items.append((it[1], it[2]))
        continue
      _, q, exc = it
      exc = [x.lower() for x in exc]
      hit = False
      for i, (qq, n, v) in enumerate(rel.cols):
        if q is None and v or q is not None and qq and qq.lower() == q.lower():
          hit = True
          if n is None or n.lower() not in exc:
            items.append((('pos', i), n))
      if not hit:
        raise SqlError('* expands to nothing')
      for x in exc:
        if x not in [n.lower() for _, n, v in rel.cols if n and v]:
          raise SqlError('column %s in EXCEPT does not exist' % x)
    grouped = s['group'] is not None or any(
        contains(e, ('agg',)) and not contains(e, ('window',))
        for e, _ in items)
    if grouped:
      out = self.grouped(s, items, rel, outer)
    else:
      out = self.plain(items, rel, outer)
    if s['distinct']:
      seen = {}
      for r in out.rows:
        seen.setdefault(tuple(group_key(v) for v in r), r)
      out.rows = list(seen.values())
    if s['order']:
      keys = []
      for e, d in s['order']:
        try:
          keys.append((self.compile(e, out, outer), d, False))
        except SqlError:
          if grouped or s['distinct']:
            raise
          keys.append((self.compile(e, rel, outer), d, True))
      idx = list(range(len(out.rows)))
      for f, d, src in reversed(keys):
        rs = rel.rows if src else out.rows
        idx.sort(key=lambda i: sort_key(f(rs[i])), reverse=d)
      out.rows = [out.rows[i] for i in idx]
    else:
      self.rng.shuffle(out.rows)
    if s['limit'] is not None:
      out.rows = out.rows[:s['limit']]
    return out

  def plain(self, items, rel, outer):
    cols = []
    for e, alias in items:
      cols.append(self.values(e, rel, outer))
    rows = [tuple(c[i] for c in cols) for i in range(len(rel.rows))]
    return Rel([(None, a, True) for _, a in items], rows)

  def values(self, e, rel, outer):
    if e[0] == 'pos':
      return [r[e[1]] for r in rel.rows]
    if not contains(e, ('window',)):
      f = self.compile(e, rel, outer)
      return [f(r) for r in rel.rows]
    # replace window calls by extra columns
    extra = []
    def rewrite(x):
      if isinstance(x, tuple) and x and x[0] == 'window':
        extra.append(self.window(x, rel, outer))
        return ('col', ['', 'w%d' % (len(extra) - 1)])
      if isinstance(x, tuple):
        return tuple(rewrite(y) for y in x)
      if isinstance(x, list):
        return [rewrite(y) for y in x]
      return x
    e2 = rewrite(e)
    n = len(rel.cols)
    rel2 = Rel(rel.cols + [('\0', '\0%d' % i, False)
                           for i in range(len(extra))], None)
    def fix(x):
      if isinstance(x, tuple) and x and x[0] == 'col' and x[1][0] == '':
        return ('col', ['\0', '\0' + x[1][1][1:]])
      if isinstance(x, tuple):
        return tuple(fix(y) for y in x)
      if isinstance(x, list):
        return [fix(y) for y in x]
      return x
    f = self.compile(fix(e2), rel2, outer)
    return [f(r + tuple(c[i] for c in extra)) for i, r in enumerate(rel.rows)]

  def grouped(self, s, items, rel, outer):
    aliases = {}
    for e, a in items:
      if a:
        aliases.setdefault(a.lower(), []).append(e)
    keys = []
    for g in s['group'] or []:
      if g[0] == 'lit' and isinstance(g[1], int) and not isinstance(g[1], bool):
        if not 1 <= g[1] <= len(items):
          raise SqlError('GROUP BY position out of range')
        g = items[g[1] - 1][0]
      elif g[0] == 'col' and len(g[1]) == 1 and g[1][0].lower() in aliases:
        hit = aliases[g[1][0].lower()]
        if len(hit) > 1:
          raise SqlError('GROUP BY %s is ambiguous' % g[1][0])
        g = hit[0]
      if contains(g, ('agg', 'window')):
        raise SqlError('aggregate function in GROUP BY')
      keys.append(g)
    kf = [(lambda r, i=g[1]: r[i]) if g[0] == 'pos' else
          self.compile(g, rel, outer) for g in keys]
    groups = {}
    for r in rel.rows:
      kv = tuple(f(r) for f in kf)
      groups.setdefault(tuple(group_key(v) for v in kv), (kv, []))[1].append(r)
    if not keys:
      groups = {(): ((), rel.rows)}
    fs = [self.group_expr(e, keys, rel, outer) for e, _ in items]
    rows = [tuple(f(kv, rs) for f in fs) for kv, rs in groups.values()]
    return Rel([(None, a, True) for _, a in items], rows)

  def same(self, a, b, rel):
    """Whether two expressions are the same after name resolution."""
    if a == b:
      return True
    ia = a[1] if a[0] == 'pos' else rel.find(a[1]) if a[0] == 'col' else None
    ib = b[1] if b[0] == 'pos' else rel.find(b[1]) if b[0] == 'col' else None
    return ia is not None and ia == ib

  def group_expr(self, e, keys, rel, outer):
    """Closure (key values, rows) -> value."""
    for i, k in enumerate(keys):
      if self.same(e, k, rel):
        return lambda kv, rs: kv[i]
    if e[0] == 'agg':
      f = self.aggregate(e, rel, outer)
      return lambda kv, rs: f(rs)
    if e[0] in ('col', 'pos'):
      if e[0] == 'col' and rel.find(e[1]) is None and outer:
        v = outer(e)
        if v is not None:
          return lambda kv, rs: v[0]
      if e[0] == 'col' and rel.find(e[1]) is None:
        raise SqlError('unrecognized name: ' + '.'.join(e[1]))
      raise SqlError('SELECT list expression references column %s which is '
                     'neither grouped nor aggregated' % (e[1],))
    if e[0] == 'lit':
      v = e[1]
      return lambda kv, rs: v
    if e[0] == 'window':
      raise Unsupported('window over groups')
    if e[0] == 'scalar':
      raise Unsupported('subquery in a grouped query')
    # evaluate children, then the node itself over a synthetic row
    subs, slots = [], []
    def rewrite(x, top=False):
      if isinstance(x, tuple) and x and isinstance(x[0], str):
        if not top and any(self.same(x, k, rel) for k in keys):
          pass
        elif x[0] not in ('agg', 'col'):
          return tuple([x[0]] + [rewrite(y) for y in x[1:]])
        subs.append(self.group_expr(x, keys, rel, outer))
        return ('col', ['s%d' % (len(subs) - 1)])
      if isinstance(x, tuple):
        return tuple(rewrite(y) for y in x)
      if isinstance(x, list):
        return [rewrite(y) for y in x]
      return x
    e2 = rewrite(e, True)
    syn = Rel([(None, 's%d' % i, True) for i in range(len(subs))], None)
    f = self.compile(e2, syn, outer)
    return lambda kv, rs: f(tuple(g(kv, rs) for g in subs))

  def query(self, text):
    """(column names, rows)."""
    self.queries.append(text)
    try:
      out = self.run(parse(text), {})
    except RecursionError:
      raise Unsupported('recursion')
    names = [n for _, n, _ in out.cols]
    return names, out.rows


def execute(engine):
  """An `execute` for compute_on_sql: text -> DataFrame, like a BigQuery client."""
  import numpy as np
  import pandas as pd

  def run(text):
    if not isinstance(text, str):
      raise SqlError('execute() got a %s' % type(text).__name__)
    names, rows = engine.query(text)
    low = [n.lower() if n else 'f%d_' % i for i, n in enumerate(names)]
    if len(set(low)) != len(low):
      raise SqlError('duplicate column names in the result: %s' % names)
    data = {}
    for i, n in enumerate(names):
      vals = [r[i] for r in rows]
      if any(isinstance(v, list) for v in vals):
        data[i] = pd.Series(vals, dtype=object)
      elif not vals:
        data[i] = pd.Series([], dtype=float)
      elif all(v is None or is_num(v) for v in vals):
        if any(v is None or isinstance(v, float) for v in vals):
          data[i] = pd.Series([np.nan if v is None else float(v)
                               for v in vals], dtype=float)
        else:
          data[i] = pd.Series(vals, dtype='int64')
      else:
        data[i] = pd.Series(vals)
    df = pd.DataFrame(data)
    df.columns = [n if n else 'f%d_' % i for i, n in enumerate(names)]
    return df
  return run


def from_spec(t, name='T', seed=0):
  """Engine holding one table spec; numeric columns with floats are FLOAT64."""
  cols = list(t['cols'])
  data = []
  for c in cols:
    v = t['cols'][c]
    if any(isinstance(x, float) for x in v):
      v = [None if x is None else float(x) for x in v]
    data.append(v)
  rows = [tuple(r) for r in zip(*data)] if t['n'] else []
  return Engine({name: (cols, rows)}, seed)
