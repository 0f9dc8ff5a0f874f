"""C26: metric trees print, traverse and chain without changing meaning."""
import contextlib
import copy
import io

from hypothesis import strategies as st

from vp import conds, dsl, gen, table, tgen, tree
from vp.core import Skip, Suite, Violation, close, isnull, require, sut
from vp.props import c05, c06

RULE = ('trees suite: a random metric tree, possibly with shared nodes, '
        'traversed and rendered to DOT, compared with its own children links; '
        'chains suite: a random history of chaining operation objects, fresh '
        'or used before, onto metrics; each resulting metric is compared, by '
        'value, name and equality, with the same tree written out explicitly, '
        'after every later chaining too; non-trivial = at least 3 nodes / an '
        'operation object used twice or a chain of two')


@st.composite
def gen_tree(draw):
  pool = [draw(tgen.leaf(tgen.Opts(depth=0)))]
  for _ in range(draw(st.integers(1, 4))):
    pool.append(draw(c05.node(pool)))
  if draw(st.integers(0, 3)) == 0:
    pool.append(draw(c06.spec()))
  return {'pool': pool, 'strict': draw(st.booleans()),
          'table': draw(c06.gen_table())}


def kids(m):
  return list(getattr(m, 'children', ()) or ())


def count(m):
  return 1 + sum(count(c) for c in kids(m))


def metrics_in(m):
  """Metrics of the tree by position."""
  out = []
  todo = [m]
  while todo:
    x = todo.pop()
    out.append(x)
    todo.extend(c for c in kids(x) if hasattr(c, 'compute_on'))
  return out


def label(m):
  if not hasattr(m, 'compute_on'):
    return str(m)
  s = str(m.name)
  return s + (' where %s' % m.where if m.where else '')


def canon(lab, kids_):
  return (lab, tuple(sorted(set(kids_))))


def canon_metric(m):
  return canon(label(m), [canon_metric(c) for c in kids(m)])


def unquote(s):
  s = str(s)
  if s.startswith('"') and s.endswith('"'):
    s = s[1:-1].replace('\\"', '"').replace('\\\\', '\\')
  return s


def parse(dot):
  import pydot
  g = pydot.graph_from_dot_data(dot)[0]
  nodes = {}
  for n in g.get_nodes():
    lab = unquote(n.get('label'))
    old = nodes.setdefault(n.get_name(), lab)
    require(old == lab, 'one DOT node has labels %s and %s', old, lab)
  edges = [(e.get_source(), e.get_destination()) for e in g.get_edges()]
  return nodes, edges


def run_tree(spec):
  specs = [m for m in spec['pool']]
  try:
    objs = []
    for m in specs:
      objs.append(c06_build(m, objs))
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('not a valid metric: %s' % type(e).__name__)
  root = objs[-1]
  labels = ['m:' + specs[-1]['t'], 'strict' if spec['strict'] else 'multi']
  with sut('traverse'):
    before = c05.snapshot(root)
    fp = root.get_fingerprint()
    want = metrics_in(root)
    got = list(root.traverse())
    require(sorted(map(id, got)) == sorted(map(id, want)),
            'traverse yields %s, the tree has %s', got, want)
    require(got[0] is root, 'traverse starts with %s', got[0])
    seen = set()
    for m in got:  # parents first
      require(m is root or id(m) in seen, '%s before its parent', m)
      seen |= {id(c) for c in kids(m)}
    rest = list(root.traverse(include_self=False))
    require(sorted(map(id, rest)) == sorted(map(id, want[1:])),
            'without itself traverse yields %s', rest)
    everything = list(root.traverse(include_constants=True))
    require(len(everything) == count(root), 'with constants %d of %d nodes',
            len(everything), count(root))
    from meterstick import utils
    leaf = utils.get_leaf_metrics(root)
    require(sorted(map(id, leaf)) == sorted(
        id(m) for m in want if not kids(m)), 'leaves are %s', leaf)
  with sut('to_dot'):
    dot = root.to_dot(spec['strict'])
    require(dot == root.to_dot(spec['strict']), 'to_dot is not repeatable')
    shown = []
    root.visualize_metric_tree(shown.append, spec['strict'])
    require(shown == [dot], 'visualize_metric_tree renders something else')
    nodes, edges = parse(dot)
    dst = {d for _, d in edges}
    roots = [n for n in nodes if n not in dst]
    require(len(roots) == 1, 'DOT text has roots %s', roots)
    children = {}
    for a, b in edges:
      children.setdefault(a, []).append(b)
      require(a in nodes and b in nodes, 'edge to an unknown node')
    def walk(n):
      return canon(nodes[n], [walk(c) for c in sorted(set(children.get(n, ())))])
    require(walk(roots[0]) == canon_metric(root),
            'DOT text shows %s, the tree is %s', walk(roots[0]),
            canon_metric(root))
    n_metrics = len({id(m) for m in want})
    consts = [c for c in everything if not hasattr(c, 'compute_on')]
    require(n_metrics + len(set(map(str, consts))) <= len(nodes) <= n_metrics +
            len(consts), '%d DOT nodes for %d metrics', len(nodes), n_metrics)
    require(dot.startswith('strict ') == spec['strict'], 'strictness')
    require(c05.snapshot(root) == before and root.get_fingerprint() == fp,
            'traversing or printing changed the tree')
  if len(want) < len(everything):
    labels.append('constants')
  if n_metrics < len(want):
    labels.append('shared')
  if len(want) >= 3:
    labels.append('nontrivial')
  return labels


def c06_build(m, objs):
  real = dsl.build
  def b(s):
    if isinstance(s, dict) and s.get('t') == 'ref':
      return objs[s['i']]
    return real(s)
  dsl.build = b
  try:
    return c06.build(m)
  finally:
    dsl.build = real


OPS = ['Distribution', 'CumulativeDistribution', 'PercentChange',
       'AbsoluteChange', 'HHI', 'TopK', 'Nxx', 'Entropy']


@st.composite
def opobj(draw):
  k = draw(st.integers(0, 5))
  if k <= 3:
    m, _ = draw(tgen.wrapper(tgen.Opts(ops=OPS), [draw(
        st.sampled_from(['h', 'p']))]))
    return m
  return {'t': draw(st.sampled_from(['Jackknife', 'Bootstrap'])), 'unit': 'u',
          'n': 3, 'opt': draw(st.booleans()),
          'confidence': draw(st.sampled_from([None, 0.9]))}


@st.composite
def gen_chain(draw):
  steps = []
  ops = [draw(opobj()) for _ in range(draw(st.integers(1, 3)))]
  leaves = [draw(tgen.leaf(c05.SUMS)) for _ in range(2)]
  for _ in range(draw(st.integers(1, 5))):
    steps.append([draw(st.integers(0, len(ops) - 1)),
                  draw(st.integers(0, 7))])
  return {'ops': ops, 'leaves': leaves, 'steps': steps,
          'where': draw(st.sampled_from([None, None, ['f', '<=', 3]])),
          'table': draw(c06.gen_table()),
          'split': draw(st.sampled_from([[], ['g']]))}


def run_chain(spec):
  """steps: [operation i, metric j]; metric j is a leaf or an earlier result."""
  import meterstick as ms
  ops, steps = spec['ops'], spec['steps']
  with sut('building'):
    objs = [dsl.build(o) for o in ops]
    metrics = [dsl.build(m) for m in spec['leaves']]
  specs = list(spec['leaves'])
  uses = {}
  depth = 0
  made = []  # index in metrics
  labels = set()
  for i, j in steps:
    j = j % len(metrics)
    node = dict(ops[i], child=specs[j])
    chain = [n['t'] for n in tree.walk(node) if isinstance(n, dict)]
    if sum(t in ('Jackknife', 'Bootstrap') for t in chain) > 1 or any(
        t in ('Jackknife', 'Bootstrap') for t in chain[1:]) or len(chain) > 4:
      continue
    dims = [d for n in tree.walk(node) if isinstance(n, dict)
            for k in ('over', 'cond') if k in n
            for d in ([n[k]] if isinstance(n[k], str) else n[k])]
    if len(set(dims)) < len(dims) or any(
        t in tgen.FLAT for t in chain[:-2] if t not in (
            'Jackknife', 'Bootstrap')):
      continue
    if uses.get(i) is not None and metrics[j] is objs[i]:
      continue
    # the first metric made from an operation object is that object itself
    with sut('chaining'):
      snap = [(k, c05.snapshot(metrics[k])) for k in made]
      new = metrics[j] | objs[i]
      require(hasattr(new, 'compute_on'), 'chaining gives %r', new)
      for k, s in snap:
        require(c05.snapshot(metrics[k]) == s,
                'chaining changed the metric made in step %d', k)
    uses[i] = uses.get(i, 0) + 1
    metrics.append(new)
    specs.append(node)
    made.append(len(metrics) - 1)
    if uses[i] > 1 or len(chain) > 2:
      labels.add('nontrivial')
    if uses[i] > 1:
      labels.add('reused')
    labels.add('depth%d' % (len(chain) - 1))
  if spec['where'] and made:
    k = made[-1]
    with sut('add_where'):
      others = [(n, c05.snapshot(metrics[n])) for n in range(len(metrics))
                if metrics[k] not in map(lambda x: x, ()) and not any(
                    x is metrics[k] for x in metrics_in(metrics[n]))]
      metrics[k].add_where(conds.render(spec['where']))
      for n, s in others:
        require(c05.snapshot(metrics[n]) == s,
                'a filter added to %s changed %s', metrics[k], metrics[n])
    specs[k] = dict(specs[k], w=(specs[k].get('w') or []) + [spec['where']])
    labels.add('where_added')
    stale = [n for n in made if n != k and any(
        x is metrics[k] for x in metrics_in(metrics[n]))]
  else:
    stale = []
  if not made:
    raise Skip('no chain')
  for k in made:
    if k in stale:
      continue
    full = specs[k]
    with sut('the chained metric'):
      explicit = dsl.build(full)
      if not (spec['where'] and k == made[-1]) or not made:
        require(metrics[k] == explicit, '%s chained is not equal to %s',
                metrics[k], explicit)
        require(str(metrics[k]) == str(explicit), 'named %s instead of %s',
                metrics[k], explicit)
      df = table.to_df(spec['table'])
      got = c05.run_metric(metrics[k], df, spec['split'], False, True)
      want = c05.run_metric(explicit, df, spec['split'], False, True)
      c05.raise_or_same(got, want, 'chained %s' % metrics[k])
      if want[0] == 'raised':
        labels.add('both_raise')
  return labels


SUITES = [Suite('trees', gen_tree, run_tree, 4000, 80000),
          Suite('chains', gen_chain, run_chain, 2400, 60000)]
