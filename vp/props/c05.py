"""C05: caching never changes an answer and inputs are never modified."""
import contextlib
import copy
import io
import json
import math

from hypothesis import strategies as st

from vp import conds, custom, dsl, gen, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut

RULE = ('a random history over two tables and a pool of metric objects that '
        'share sub-objects: computations with and without cache keys and '
        'shared cache dicts, in every output form, failing computations, '
        'in-place changes of returned results, filters added and names set in '
        'between; every answer is compared with freshly built metrics on fresh '
        'copies of the tables, and tables, earlier results and metric objects '
        'with their snapshots; non-trivial = at least one repeated computation '
        'of the same metric or of metrics sharing a part, with a finite '
        'non-zero value')
OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'AbsoluteChange', 'MH', 'HHI', 'TopK', 'Nxx', 'Entropy']
KEYS = [['a', 'b'], [0, 'k'], [-1, -2], ['', 0], [1, 1.5], ['x', 'g']]
SPLITS = [[], [], ['g'], ['g'], ['g', 'p'], ['p', 'g']]


def resolve(m, pool):
  """Replaces the references in a spec by the specs they refer to."""
  if not isinstance(m, dict):
    return m
  if m.get('t') == 'ref':
    r = resolve(pool[m['i']], pool)
    return r
  out = dict(m)
  for k in ('a', 'b', 'child', 'cov'):
    if isinstance(m.get(k), dict):
      out[k] = resolve(m[k], pool)
  if 'c' in m:
    out['c'] = [resolve(c, pool) for c in m['c']]
  return out


def build(m, objs):
  """Builds a spec, reusing the objects of the pool for the references."""
  real = dsl.build
  def b(spec):
    if isinstance(spec, dict) and spec.get('t') == 'ref':
      return objs[spec['i']]
    return real(spec)
  dsl.build = b
  try:
    return b(m)
  finally:
    dsl.build = real


def is_random(m):
  return any(isinstance(n, dict) and n['t'] in ('Bootstrap', 'PoissonBootstrap')
             for n in tree.walk(m))


def is_ci(m):
  return m['t'] in ('Jackknife', 'Bootstrap', 'PoissonBootstrap')


LEAF = tgen.Opts([l for l in tgen.ALL if l != 'Nth'], depth=0)
SUMS = tgen.Opts(['Sum', 'Count', 'Mean'], depth=0, nulls=False)


@st.composite
def node(draw, pool):
  """A spec over references to the pool."""
  n = len(pool)
  k = draw(st.integers(0, 11))
  plain = [i for i in range(n) if pool[i]['t'] in tgen.ALL or
           pool[i]['t'] in ('Ratio', 'op') and pool[i].get('flat')]
  pick = lambda s: {'t': 'ref', 'i': draw(st.sampled_from(s))}
  child = (lambda: pick(plain)) if plain else (lambda: draw(tgen.leaf(SUMS)))
  if k == 0 or n == 0:
    m = draw(tgen.leaf(LEAF if k % 2 else SUMS))
  elif k <= 2:
    m = {'t': 'op', 'op': draw(st.sampled_from(['+', '-', '*', '/'])),
         'a': child(), 'b': child() if draw(st.booleans()) else draw(
             st.sampled_from([1, 2, 0.5])), 'flat': 1}
  elif k <= 4:
    m, _ = draw(tgen.wrapper(tgen.Opts(ops=[o for o in OPS if o != 'MH']),
                             ['h']))
    m['child'] = child()
  elif k <= 6:
    m = {'t': 'List', 'c': [pick(range(n)) for _ in range(draw(
        st.integers(2, 3)))]}
  elif k == 7:
    m = {'t': draw(st.sampled_from(['CUPED', 'PrePostChange'])), 'cond': 'h',
         'base': draw(st.sampled_from([1, 2])), 'include_base': draw(
             st.booleans()), 'child': draw(tgen.leaf(SUMS)),
         'cov': draw(tgen.leaf(SUMS)), 'strat': draw(st.sampled_from(
             [None, 'u', 'u']))}
    m['child'].pop('w', None)
    m['cov'].pop('w', None)
  else:
    one = [i for i in range(n) if not is_ci(pool[i]) and
           pool[i]['t'] != 'List' and not is_ci_deep(pool[i], pool)]
    m = {'t': draw(st.sampled_from(['Jackknife', 'Jackknife', 'Bootstrap',
                                    'PoissonBootstrap'])),
         'unit': draw(st.sampled_from(['u', 'u', 'v'])),
         'child': pick(one) if one else draw(tgen.leaf(SUMS)),
         'opt': draw(st.booleans())}
    if m['t'] != 'Jackknife':
      m['n'] = draw(st.sampled_from([3, 8]))
    if draw(st.booleans()):
      m['confidence'] = draw(st.sampled_from([0.5, 0.9]))
  if k and n:
    tgen.add_where(draw, m, tgen.Opts())
  return m


def is_ci_deep(m, pool):
  return any(isinstance(n, dict) and (is_ci(n) or n['t'] == 'List')
             for n in tree.walk(resolve(m, pool)))


NAMED = ('Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot')


@st.composite
def near(draw, m, pool):
  """The same metric up to one option, filter, label or place of a filter."""
  m = copy.deepcopy(resolve(m, pool))
  nodes_ = [n for n in tree.walk(m) if isinstance(n, dict)]
  n = draw(st.sampled_from(nodes_))
  k = draw(st.integers(0, 7))
  if k <= 1:  # move a filter between a node and its child
    kid = n.get('child') or n.get('a')
    if isinstance(kid, dict):
      w = n.pop('w', None) or [draw(conds.cond(g=False, or_=False))]
      if draw(st.booleans()):
        kid['w'] = w
      elif not kid.get('w'):
        n['w'] = w
      else:
        n['w'] = kid.pop('w')
      return m
  if k == 2:
    n.pop('w', None)
    tgen.add_where(draw, n, tgen.Opts())
  elif k == 3 and n['t'] in NAMED:
    n['name'] = draw(st.sampled_from(['foo', 'bar']))
  elif k == 4 and n['t'] == 'op':
    n['a'], n['b'] = n['b'], n['a']
  elif k == 5 and n['t'] == 'op':
    n['op'] = draw(st.sampled_from(['+', '-', '*', '/']))
  elif k == 6 and n['t'] in ('Sum', 'Mean', 'Max', 'Min') and n.get(
      'var') in ('x', 'y'):
    n['t'] = draw(st.sampled_from(['Sum', 'Mean', 'Max']))
    n.pop('weight', None)
  else:
    if 'unit' in n:
      n['unit'] = 'v' if n['unit'] == 'u' else 'u'
    elif 'include_base' in n:
      n['include_base'] = not n['include_base']
    elif n['t'] in ('HHI', 'Entropy'):
      n['t'] = 'HHI' if n['t'] == 'Entropy' else 'Entropy'
    elif 'k' in n:
      n['k'] += 1
    elif n['t'] == 'List' and len(n['c']) > 1:
      if draw(st.booleans()):
        n['tmpl'] = draw(st.sampled_from(['p {}', 'q {}']))
      else:
        n['c'] = n['c'][::-1]
    elif n['t'] in ('Variance', 'StandardDeviation', 'CV'):
      n['unbiased'] = not n['unbiased']
  return m


RATIO_FAMILY = [
    {'t': 'Sum', 'var': 'xn'}, {'t': 'Count', 'var': 'xn'},
    {'t': 'Sum', 'var': 'xn', 'w': [['y', '>', 3]]},
    {'t': 'Count', 'var': 'xn', 'w': [['y', '>', 3]]},
    {'t': 'Count', 'var': 'xn', 'distinct': True}]


@st.composite
def gen_case(draw):
  pool = []
  if draw(st.integers(0, 4)) == 0:
    pool = [draw(st.sampled_from(RATIO_FAMILY[::2])), draw(
        st.sampled_from(RATIO_FAMILY[1:]))]
    pool += [{'t': 'Mean', 'var': 'xn'},
             {'t': 'op', 'op': '/', 'a': {'t': 'ref', 'i': 0},
              'b': {'t': 'ref', 'i': 1}, 'flat': 1}]
    tgen.add_where(draw, pool[2], tgen.Opts())
    tgen.add_where(draw, pool[3], tgen.Opts())
    pool.append({'t': 'List', 'c': draw(st.permutations(
        [{'t': 'ref', 'i': 3}, {'t': 'ref', 'i': 2}]))})
  for i in range(draw(st.integers(2, 5))):
    if not pool:
      m = draw(tgen.leaf(SUMS if draw(st.booleans()) else LEAF))
    elif i > 1 and draw(st.booleans()):
      m = draw(near(draw(st.sampled_from(pool)), pool))
    else:
      m = draw(node(pool))
    pool.append(m)
  if draw(st.integers(0, 2)) == 0:
    i = draw(st.integers(0, len(pool) - 1))
    pool.append(draw(near(pool[i], pool)))
    pair = draw(st.permutations([i, len(pool) - 1]))
    pool.append({'t': 'List', 'c': [{'t': 'ref', 'i': j} for j in pair]})
  extra = {'p': st.integers(0, 1), 'u': st.sampled_from([1, 2, 3]),
           'v': st.sampled_from(['r', 's', 't', 'q'])}
  n = draw(st.integers(6, 16))
  kw = dict(min_n=n, max_n=n, x=('int',), y=('posint',), extra=extra, h=2)
  tables = [draw(gen.table(**kw))]
  if draw(st.booleans()):
    tables.append(draw(gen.table(**kw)))
  else:  # same shape, other values
    t = copy.deepcopy(tables[0])
    t['cols']['x'] = [v * 3 + 1 for v in t['cols']['x']]
    t['cols']['y'] = [v + 2 for v in t['cols']['y']]
    tables.append(t)
  ops = []
  splits = [draw(st.sampled_from(SPLITS)) for _ in range(2)]
  some = [draw(st.integers(0, len(pool) - 1)) for _ in range(2)]
  some += [len(pool) - 1, len(pool) - 2]
  for _ in range(draw(st.integers(2, 9))):
    k = draw(st.integers(0, 13))
    i = draw(st.sampled_from(some))
    if k <= 9:
      ops.append({'op': 'compute', 'm': i, 't': draw(
          st.sampled_from([0, 0, 1])), 'split': draw(st.sampled_from(splits)),
                  'melted': draw(st.booleans()), 'rd': draw(st.sampled_from(
                      [True, True, False])),
                  'key': draw(st.sampled_from([True, True, False]))})
    elif k == 10:
      ops.append({'op': 'mutate', 'r': draw(st.integers(0, 9))})
    elif k == 11:
      ops.append({'op': 'fail', 'm': i, 'col': draw(st.sampled_from(
          ['x', 'y', 'h', 'u', 'g'])), 'key': draw(st.booleans())})
    elif k == 12:
      ops.append({'op': 'where', 'm': i, 'w': draw(conds.cond(or_=False))})
    else:
      ops.append({'op': 'name', 'm': i, 'name': draw(st.sampled_from(
          ['n1', 'n2']))})
  return {'pool': pool, 'tables': tables, 'ops': ops,
          'keys': draw(st.sampled_from(KEYS)),
          'shared_cache': draw(st.sampled_from([True, True, False]))}


def run_metric(m, df, split, melted, rd, **kw):
  import numpy as np
  np.random.seed(7)
  with contextlib.redirect_stdout(io.StringIO()):
    try:
      r = m.compute_on(df, list(split), melted, rd, **kw)
    except Exception as e:  # pylint: disable=broad-except
      return ('raised', type(e).__name__, str(e)[:200])
  return ('value', r)


def freeze(r):
  """A plain copy of a result."""
  import pandas as pd
  if isinstance(r, pd.DataFrame):
    base = getattr(r, 'meterstick_change_base', None)
    return ('frame', list(r.index.names), list(r.columns.names), [
        c for c in r.columns], [k for k in r.index], [
            list(v) for v in r.values.tolist()],
            freeze(base) if base is not None else None)
  if isinstance(r, pd.Series):
    return ('series', r.name, list(r.index.names), [k for k in r.index],
            r.tolist())
  if isinstance(r, (list, tuple)):
    return [freeze(x) for x in r]
  return ('scalar', r)


def same(a, b, what):
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    require(len(a) == len(b), '%s: %s vs %s', what, brief(a), brief(b))
    for x, y in zip(a, b):
      same(x, y, what)
    return
  if isinstance(a, (int, float)) and isinstance(b, (int, float)):
    if not close(a, b, 1e-7, 1e-8) and not (
        (isnull(a) or abs(a) > 1e7) and (isnull(b) or abs(b) > 1e7)):
      raise Violation('%s: %r vs %r' % (what, a, b))
    return
  if hasattr(a, 'dtype') or hasattr(b, 'dtype'):
    a, b = plain(a), plain(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
      return same(a, b, what)
  require(a == b or isnull(a) and isnull(b), '%s: %s vs %s', what, brief(a),
          brief(b))


def plain(v):
  return v.item() if hasattr(v, 'item') and getattr(v, 'size', 2) == 1 else v


def brief(x):
  s = repr(x)
  return s if len(s) < 300 else s[:300] + '...'


def snapshot(m):
  return [(id(n), type(n).__name__, n.name, n.where_, n.name_tmpl,
           list(n.extra_split_by), list(n.extra_index)) for n in nodes(m)]


def nodes(m):
  out, todo = [], [m]
  while todo:
    x = todo.pop()
    if hasattr(x, 'children'):
      out.append(x)
      todo.extend(x.children)
  return out


def run(spec):
  import numpy as np
  import pandas as pd
  specs = json.loads(json.dumps(spec['pool']))  # nothing shared
  if sum(is_random(resolve(m, specs)) for m in specs) and any(
      sum(n['t'] in ('Bootstrap', 'PoissonBootstrap') for n in tree.walk(
          resolve(m, specs)) if isinstance(n, dict)) > 1 for m in specs):
    raise Skip('several random metrics in one tree')
  tabs = spec['tables']
  labels = set()
  with sut('building'):
    objs = []
    for m in specs:
      objs.append(build(m, objs))
    dfs = [table.to_df(t) for t in tabs]
  cache = {} if spec['shared_cache'] else None
  results = []
  done = []
  for op in spec['ops']:
    if op['op'] == 'mutate':
      live = [r for r in results if isinstance(r[0], pd.DataFrame) and len(r[0])]
      if live:
        r = live[op['r'] % len(live)]
        with sut('changing a result'):
          r[0].iloc[:, :] = -12345
          r[0].columns = ['c%d' % i for i in range(r[0].shape[1])]
          r[1] = freeze(r[0])
        labels.add('mutate')
      continue
    i = op['m']
    if op['op'] == 'where':
      if any(op['w'] == w for w in specs[i].get('w') or []):
        continue
      with sut('add_where'):
        objs[i].add_where(conds.render(op['w']))
      specs[i]['w'] = (specs[i].get('w') or []) + [op['w']]
      labels.add('add_where')
      continue
    if op['op'] == 'name':
      if specs[i]['t'] == 'op' and not any(
          i in deps(j, specs) for j in range(len(specs)) if j != i):
        with sut('set_name'):
          objs[i].set_name(op['name'])
        specs[i]['name'] = op['name']
        labels.add('set_name')
      continue
    full = resolve(specs[i], specs)
    before = [snapshot(o) for o in objs]
    if op['op'] == 'fail':
      df = dfs[0].drop(columns=[op['col']])
      copy_df = df.copy()
      kw = {'cache_key': 'broken ' + op['col']} if op['key'] else {}
      if cache is not None and op['key']:
        kw['cache'] = cache
      got = run_metric(objs[i], df, [], False, True, **kw)
      want = run_metric(dsl.build(full), copy_df.copy(), [], False, True)
      labels.add('failing' if got[0] == 'raised' else 'not_failing')
      where = 'computation without column %s' % op['col']
      if got[0] != 'raised' or want[0] != 'raised':
        raise_or_same(got, want, where)
    else:
      df = dfs[op['t']]
      copy_df = df.copy()
      kw = {'cache_key': spec['keys'][op['t']]} if op['key'] else {}
      if cache is not None and op['key']:
        kw['cache'] = cache
      args = op['split'], op['melted'], op['rd']
      with sut('a computation that a fresh metric delivers'):
        got = run_metric(objs[i], df, *args, **kw)
        want = run_metric(dsl.build(full), table.to_df(tabs[op['t']]), *args)
      where = 'step %d (metric %d)' % (spec['ops'].index(op), i)
      raise_or_same(got, want, where)
      if got[0] == 'value' and any(n.get('as') for n in tree.walk(full)
                                   if isinstance(n, dict)):
        builtin(full, tabs[op['t']], args, got[1], where, labels)
      if got[0] == 'value':
        results.append([got[1], freeze(got[1])])
        v = flat(results[-1][1])
        if any(isinstance(x, (int, float)) and math.isfinite(x) and x for x in v):
          labels.add('value')
          if any(j == i or set(deps(i, specs)) & set(deps(j, specs))
                 for j in done):
            labels.add('nontrivial')
          if op['key']:
            labels.add('keyed_shared' if cache is not None else 'keyed')
        done.append(i)
        if full['t'] == 'List' and not op['melted']:
          parts(full, tabs[op['t']], op, got[1], labels)
      else:
        labels.add('both_raise')
      labels.add('m:' + full['t'])
    with sut('comparing tables'):
      pd.testing.assert_frame_equal(df, copy_df)
    require([snapshot(o) for o in objs] == before,
            '%s changed a metric object', where)
    for k, r in enumerate(results):
      same(freeze(r[0]), r[1], '%s changed earlier result %d' % (where, k))
  return labels


def builtin(full, tab, args, got, where, labels):
  """User-defined leaves give what their built-in equivalents give."""
  m = json.loads(json.dumps(full))
  for n in tree.walk(m):
    if isinstance(n, dict):
      n.pop('as', None)
      if n['t'] in ('TopK', 'Nxx', 'CumulativeDistribution', 'Bootstrap',
                    'PoissonBootstrap', 'Jackknife', 'PrePostChange', 'CUPED'):
        return
  with sut('built-in equivalent'):
    want = run_metric(dsl.build(m), table.to_df(tab), *args)
  if want[0] != 'value':
    return
  a, b = freeze(got), freeze(want[1])
  if isinstance(a, tuple) and isinstance(b, tuple) and (
      a[0] == b[0] == 'frame') and a[1:5] == b[1:5]:
    same(a, b, '%s vs built-in metrics' % where)
    labels.add('builtin')


def deps(i, specs):
  out = {i}
  for n in tree.walk(specs[i]):
    if isinstance(n, dict) and n['t'] == 'ref':
      out |= deps(n['i'], specs)
  return out


def flat(x):
  if isinstance(x, (list, tuple)):
    return [z for y in x for z in flat(y)]
  return [x]


def raise_or_same(got, want, what):
  if got[0] == 'raised' and want[0] == 'raised':
    return
  if got[0] != want[0]:
    raise Violation('%s: %s, while a fresh metric gives %s' % (
        what, brief(got), brief(want)))
  same(freeze(got[1]), freeze(want[1]), '%s vs fresh metric' % what)


def parts(full, tab, op, got, labels):
  """A list gives each child's own values side by side."""
  import pandas as pd
  if not isinstance(got, pd.DataFrame):
    return
  vals = []
  for c in full['c']:
    c = dict(c, w=(c.get('w') or []) + (full.get('w') or []))
    r = run_metric(dsl.build(c), table.to_df(tab), op['split'], False, True)
    if r[0] == 'raised':
      return
    vals.append(r[1])
  if sum(v.shape[1] for v in vals) != got.shape[1]:
    raise Violation('list has %d columns, its children %d' % (
        got.shape[1], sum(v.shape[1] for v in vals)))
  if any(list(v.index.names) != list(got.index.names) for v in vals):
    return
  if any(v.index.has_duplicates for v in vals) or got.index.has_duplicates:
    return
  k = 0
  for c, v in zip(full['c'], vals):
    part = got.iloc[:, k:k + v.shape[1]]
    k += v.shape[1]
    a = dict(zip(part.index.tolist(), part.values.tolist()))
    b = dict(zip(v.index.tolist(), v.values.tolist()))
    for key in a:
      if key in b:
        same(a[key], b[key], 'child %s in a list vs alone at %s' % (
            c['t'], key))
      else:
        require(all(isnull(x) for x in a[key]),
                'list has values at %s where the child alone has none', key)
    require(set(b) <= set(a), 'list lacks rows of its child')
  labels.add('list_parts')


@st.composite
def gen_custom(draw):
  """Leaves are replaced by user-defined equivalents."""
  spec = draw(gen_case())
  for m in spec['pool']:
    for n in tree.walk(m):
      if isinstance(n, dict) and n.get('t') in ('Sum', 'Count', 'Mean', 'Max',
                                                'Min') and draw(st.booleans()):
        if custom.able(n):
          n['as'] = draw(st.sampled_from(['scalar', 'slice', 'util', 'uslice',
                                          'uslice', 'derived', 'vector']))
  return spec


SUITES = [Suite('history', gen_case, run, 2400, 60000),
          Suite('custom', gen_custom, run, 700, 20000)]
