"""C23: display() of interval results shows the results themselves."""
import contextlib
import copy
import io
import math
import re

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from vp import bq, case, conds, dsl, gen, obs, ref, sqlcase, table, tgen, tree
from vp.core import Skip, Suite, close, isnull, require, sut
from vp.props import c02, c10, c11, c15

RULE = ('a random table x Jackknife/Bootstrap with a confidence level over a '
        'random comparison or metric x split_by x display options, on '
        'DataFrames and through SQL: the rows, control values, changes and '
        'bounds that display() shows against the result itself and the child '
        'evaluated by the reference per slice and condition; the HTML against '
        'get_formatted_df on a long table of these numbers; lower <= value <= '
        'upper; non-trivial = a comparison with at least two rows displayed, '
        'one of them with a finite interval')
LEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Dot', 'Max', 'Quantile', 'Variance']
SLEAVES = ['Sum', 'Sum', 'Count', 'Mean', 'Dot', 'Max', 'Variance']
DIMS = {'h': gen.HVALS, 'p': [0, 1], 'q': ['on', 'off'], 'z': [0.5, 2.0]}


@st.composite
def gen_plain(draw, leaves=tuple(LEAVES)):
  """A comparison (or another metric) under Jackknife or Bootstrap."""
  o = tgen.Opts(list(leaves), where=draw(st.integers(0, 2)) == 0, depth=draw(
      st.integers(0, 1)), broadcast=False, pow_=False)
  kind = draw(st.sampled_from(['PercentChange', 'PercentChange',
                               'AbsoluteChange', 'AbsoluteChange', 'none']))
  child = draw(tgen.base(o))
  cond = draw(st.permutations(['h', 'p', 'q', 'z']))[
      :draw(st.sampled_from([1, 1, 1, 2]))]
  if kind == 'none':
    m = child
  else:
    base = [draw(st.sampled_from(DIMS[c][:2])) for c in cond]
    if draw(st.integers(0, 7)) == 0:
      child = {'t': 'Distribution', 'over': draw(st.sampled_from(
          [c for c in 'hpq' if c not in cond])), 'child': child}
    m = {'t': kind, 'cond': list(cond), 'base': base, 'child': child,
         'include_base': draw(st.booleans())}
    if len(cond) == 1:
      m['base'] = base[0]
      m['cond'] = draw(st.sampled_from([cond[0], list(cond)]))
    if draw(st.integers(0, 3)) == 0:
      w = draw(conds.where(g=False))
      if w:
        m['w'] = w
  n = draw(st.sampled_from([6, 12, 18]))
  t = draw(gen.table(
      min_n=n, max_n=n + 6, g=2, h=draw(st.integers(2, 3)),
      x=draw(st.sampled_from([('int',), ('quarter',), ('posint',)])),
      y=('posint', 'int'),
      extra={'p': st.integers(0, 1), 'q': st.sampled_from(DIMS['q']),
             'z': st.sampled_from(DIMS['z']), 'i': st.integers(0, 1),
             'u': st.sampled_from(c11.UNITS[:3])}))
  if draw(st.integers(0, 7)):
    t['cols']['u'][:5] = [3, 1, 3, 1, 2]
    t['cols']['g'][:4] = list(
        draw(st.sampled_from(['aabb', 'aabb', 'bbbb'])))
  return {'table': t, 'child': m, 'split': draw(st.sampled_from(
      [[], [], ['g'], ['g'], ['g', 'i'], ['i']]))}


@st.composite
def gen_adjusted(draw):
  m = draw(c10.gen_metric(cov_max=2))
  return {'table': draw(c10.gen_table()), 'child': m,
          'split': draw(st.sampled_from([[], [], ['g']]))}


@st.composite
def gen_case(draw, make=None, mode=False):
  s = draw(make() if make else gen_plain())
  s['w'] = draw(conds.where(g=False)) if not make and draw(
      st.integers(0, 4)) == 0 else []
  s['melted'] = draw(st.booleans())
  s['boot'] = draw(st.booleans())
  s['confidence'] = draw(st.sampled_from([0.001, 0.5, 0.9, 0.95, 0.999]))
  if mode:
    s['mode'] = draw(st.sampled_from([None, None, 'mixed']))
  opt = {'aggregate_dimensions': draw(st.booleans())}
  flags = ['hide_null_ctrl', 'auto_add_description', 'display_expr_info']
  if compares(s['child']):
    flags += ['show_control', 'show_metric_value_when_control_hidden']
  for k in flags:
    if draw(st.integers(0, 2)) == 0:
      opt[k] = draw(st.booleans())
  if draw(st.integers(0, 3)) == 0:
    opt['metric_formats'] = draw(st.sampled_from(
        [{'Value': 'percent'}, {'Ratio': 'pp', 'Value': 'absolute'},
         {'Ratio': '{:.1f}'}]))
  opt['order'] = draw(st.sampled_from([None, None, 'reverse', 'drop']))
  opt['flip'] = draw(st.sampled_from([0, 0, 1]))
  opt['sort'] = draw(st.sampled_from([0, 0, 0, 1]))
  s['opt'] = opt
  return s


@st.composite
def gen_sql(draw):
  s = draw(gen_case(make=lambda: gen_plain(tuple(SLEAVES)), mode=True))
  s['child'] = c15.supported(s['child'])
  s['melted'] = False  # nulls
  return s


def compares(m):
  return m['t'] in ('PercentChange', 'AbsoluteChange', 'CUPED', 'PrePostChange')


def shown_name(c):
  return re.sub('( Percent Change| Absolute Change)$', '', c)


def conditions(m):
  return [m['cond']] if isinstance(m['cond'], str) else list(m['cond'])


def control_values(spec):
  """The child per slice and condition, by the reference; None if no comparison."""
  m, split = spec['child'], spec['split']
  if not compares(m):
    return None
  rows = conds.keep(spec['w'], table.to_rows(spec['table']))
  every = rows
  rows = conds.keep(m.get('w') or [], rows)
  if not rows or c02.emptied(m['child'], rows):
    raise Skip('filters leave nothing')
  by = list(split) + conditions(m)
  if 'mode' in spec:
    every = {tuple(r[c] for c in by) for r in every}
    if any({tuple(r[c] for c in by) for r in rs} != every
           for rs in c11.leaf_rows(m['child'], rows)):
      raise Skip('slices that filters leave empty')
    with ref.sql():
      return case.expected(m['child'], rows, by)
  return case.expected(m['child'], rows, by)


def run(spec):
  import meterstick as ms
  from meterstick import confidence_interval_display as cid
  from meterstick import utils
  m, split = spec['child'], list(spec['split'])
  kept = conds.keep(spec['w'], table.to_rows(spec['table']))
  if not kept or c02.emptied(m, kept):
    raise Skip('filters leave nothing')
  case.expected(m, kept, split)
  base = control_values(spec)
  kw = {'confidence': spec['confidence']}
  if spec['w']:
    kw['where'] = conds.to_where(spec['w'])
  labels = [m['t'], 'split%d' % len(split)]
  label = 'Bootstrap' if spec['boot'] else 'Jackknife'
  np.random.seed(7)
  with sut('compute'), contextlib.redirect_stdout(io.StringIO()) as out:
    if spec['boot']:
      metric = ms.Bootstrap(None, dsl.build(m), 3, **kw)
    else:
      metric = ms.Jackknife('u', dsl.build(m), **kw)
    df = table.to_df(spec['table'])
    try:
      if 'mode' in spec:
        e = sqlcase.engine(spec['table'], 3)
        res = metric.compute_on_sql('T', split or None, bq.execute(e),
                                    melted=spec['melted'], mode=spec['mode'])
      else:
        res = metric.compute_on(df, split or None, melted=spec['melted'])
    except Exception as ex:  # C11, C12 and C18 tell when it should work
      raise Skip('no result: %s' % str(ex)[:70])
  if not len(res):
    raise Skip('an empty result')
  with sut('the result'):
    before = pd.DataFrame(res).copy(deep=True)
    wide = utils.unmelt(pd.DataFrame(res)) if spec['melted'] else res
    require(wide.columns.nlevels == 2, 'columns %s', wide.columns)
    subs = list(dict.fromkeys(wide.columns.get_level_values(1)))
    require(subs == ['Value', label + ' CI-lower', label + ' CI-upper'],
            'columns %s', subs)
    names, cols, got = obs.observe(pd.DataFrame(wide))
  metrics = list(dict.fromkeys(c for c, _ in cols))
  if len({shown_name(c) for c in metrics}) != len(metrics):
    raise Skip('names that differ in the suffix only')
  cells = {}
  for key, vals in got.items():
    for (c, _), i in zip(cols[::3], range(0, len(vals), 3)):
      v, lo, hi = vals[i:i + 3]
      cells[key, shown_name(c)] = v, lo, hi
      if not (isnull(lo) or isnull(hi)) and math.isfinite(v):
        eps = 1e-9 * (abs(v) + abs(lo) + abs(hi) + 1)
        require(lo <= v + eps and v <= hi + eps and close(
            v - lo, hi - v, 1e-6, 1e-6), 'bounds %s of %s at %s', (lo, hi), v,
                key)
  want, is_ctrl = {}, {}
  if base is None:
    dims, exp = names, None
    for (key, c), (v, lo, hi) in cells.items():
      want.setdefault(key, {})[c] = None, v, lo, hi
    wanted_order = [shown_name(c) for c in metrics]
    ctrl = None
  else:
    cond = conditions(m)
    dims = [n for n in names if n not in cond]
    exp = cond
    ctrl = tuple(m['base']) if isinstance(m['base'], list) else (m['base'],)
    require(sorted(names) == sorted(base.idx), 'index %s, expected %s', names,
            base.idx)
    wanted_order = list(base.cols)
    suffix = ('' if m['t'] in ('PercentChange', 'AbsoluteChange') else None)
    if suffix is None:
      wanted_order = [shown_name(c) for c in metrics]
    for bkey, vals in base.rows.items():
      key = tuple(bkey[base.idx.index(n)] for n in names)
      for c, v in zip(wanted_order, vals):
        want.setdefault(key, {})[c] = (v,) + cells.get(
            (key, c), (None, None, None))
    for (key, c), v in cells.items():
      if key not in want:  # the child has nothing there
        require(all(isnull(x) for x in v), 'values %s at %s', v, key)
  with sut('display'), contextlib.redirect_stdout(io.StringIO()):
    o = options(spec, dims, wanted_order)
    pre = res.display(return_pre_agg_df=True, **dict(
        o, aggregate_dimensions=False, display_expr_info=True))
    require_rows(spec, pre, want, names, dims, exp, ctrl,
                 o.get('metric_order') or wanted_order)
    labels += html(spec, res, pre, dims, exp, ctrl, options(
        spec, dims, wanted_order), cid)
    shown = []
    old, cid.display = cid.display, shown.append
    try:
      require(res.display(**options(spec, dims, wanted_order)) is None,
              'display returns')
    finally:
      cid.display = old
    require(len(shown) == 1, 'display() shows %d tables', len(shown))
    pd.testing.assert_frame_equal(pd.DataFrame(res), before)
  if len(pre) > 1 and base is not None and any(
      not isnull(x) and math.isfinite(x) for r in want.values()
      for x in (v[2] for v in r.values())):
    labels.append('nontrivial')
  return labels


def options(spec, dims, metrics):
  o = copy.deepcopy(spec['opt'])
  order, flip, sort = (o.pop(k) for k in ('order', 'flip', 'sort'))
  if order:
    o['metric_order'] = list(metrics)[::-1] if order == 'reverse' else list(
        metrics)[:1]
  if flip:
    o['flip_color'] = list(metrics)[:1]
  if sort:
    o['sort_by'] = [{'column': ('Ratio', metrics[0]), 'ascending': False}]
  return o


def plain(v):
  return obs.plain(v)


def require_rows(spec, pre, want, names, dims, exp, ctrl, order):
  """The rows display() shows against the expected cells."""
  o = spec['opt']
  hidden = not (o.get('show_control') if o.get('show_control') is not None
                else ctrl is not None)
  head = list(dims)
  if exp:
    head += [exp[0] if len(exp) == 1 else '_expr_id', 'Control_Id',
             'Is_Control']
    head += ['Description'] if o.get('auto_add_description') else []
  if hidden and exp and all(cond_of(k, names, exp) == ctrl for k in want):
    require(not len(pre), 'control rows displayed:\n%s', pre)
    raise Skip('nothing to display')
  require(list(pre.columns) == head + order, 'columns %s, expected %s',
          list(pre.columns), head + order)
  seen = set()
  for _, row in pre.iterrows():
    d = {n: plain(row[n]) for n in dims}
    if exp and len(exp) == 1:
      d[exp[0]] = plain(row[exp[0]])
    keys = [k for k in want if all(d[n] == v for n, v in zip(names, k)
                                   if n in d) and (
                                       not exp or len(exp) == 1 or str(
                                           cond_of(k, names, exp))
                                       == row['_expr_id'])]
    require(len(keys) == 1, 'a row of %s; expected one of %s', row.tolist(),
            list(want))
    key = keys[0]
    require(key not in seen, 'two rows of %s', key)
    seen.add(key)
    is_ctrl = bool(exp) and cond_of(key, names, exp) == ctrl
    if exp:
      require(bool(row['Is_Control']) == is_ctrl, 'Is_Control of %s', key)
      if o.get('auto_add_description'):
        require(row['Description'] == ('Control' if is_ctrl else 'Not Control'),
                'description %s of %s', row['Description'], key)
    for c in order:
      got = row[c]
      v = want[key].get(c, (None,) * 4)
      if hidden and not (exp and o.get(
          'show_metric_value_when_control_hidden')):
        v = (None,) + v[1:]
      if is_ctrl:
        v = (v[0], None) + v[2:]
      if not isinstance(got, (list, tuple)):
        require(all(isnull(x) for x in v), 'no cell for %s of %s: %s', c, key,
                v)
        continue
      for what, a, b in zip(['control value', 'change', 'lower', 'upper'], got,
                            v):
        require(isnull(a) and isnull(b) or ref.is_any(b) or (
            b.has(a) if hasattr(b, 'has') else not (
                isnull(a) or isnull(b)) and close(a, b, 1e-6, 1e-6)),
                '%s of %s at %s is %s, expected %s', what, c, key, a, b)
  for key, r in want.items():
    dim = lambda k: [v for n, v in zip(names, k) if n in dims]
    if exp and 'mode' in spec and not any(
        dim(k) == dim(key) and cond_of(k, names, exp) == ctrl for k in want):
      continue  # nothing to compare with
    if key in seen or hidden and exp and cond_of(key, names, exp) == ctrl:
      continue
    require(all(isnull(x) or ref.is_any(x) for v in r.values() for x in v),
            'no row of %s', key)


def cond_of(key, names, exp):
  return tuple(key[names.index(c)] for c in exp)


def html(spec, res, pre, dims, exp, ctrl, o, cid):
  """The HTML against the one of a long table with the same numbers."""
  labels = []
  order = o.pop('metric_order', None)
  long, metrics = [], []
  name = (exp[0] if len(exp) == 1 else '_expr_id') if exp else None
  metrics = [c for c in pre.columns if c not in dims + [
      name, 'Control_Id', 'Is_Control', 'Description']]
  for _, row in pre.iterrows():
    for c in metrics:
      v = row[c] if isinstance(row[c], (list, tuple)) else [None] * 4
      r = {n: row[n] for n in dims}
      if name:
        r[name] = row[name]
      long.append(dict(r, Metric=c, Value=v[0], Ratio=v[1], CI_Lower=v[2],
                       CI_Upper=v[3]))
  if not long:
    raise Skip('nothing to display')
  long = pd.DataFrame(long)
  for c in ('Value', 'Ratio', 'CI_Lower', 'CI_Upper'):
    long[c] = long[c].astype(float)
  f = o.get('metric_formats') or (
      {'Ratio': 'percent'} if spec['child']['t'] in (
          'PercentChange', 'PrePostChange') else None)
  kw = dict({'hide_null_ctrl': True, 'auto_add_description': False,
             'show_control': ctrl is not None}, **o)
  kw['metric_formats'] = copy.deepcopy(f)
  if name:
    kw.update(expr_id=name, ctrl_id=str(ctrl) if len(exp) > 1 else ctrl[0])
  want = cid.get_formatted_df(long, dims or None, metric_order=metrics, **kw)
  got = res.display(return_formatted_df=True, metric_order=order, **o)
  require(list(got.columns) == list(want.columns), 'columns %s, expected %s',
          list(got.columns), list(want.columns))
  rows = lambda x: [tuple(r) for r in x.values.tolist()]
  a, b = rows(got), rows(want)
  if o.get('sort_by'):  # ties
    a, b = sorted(a), sorted(b)
  require(len(a) == len(b), '%d rows, expected %d', len(a), len(b))
  for x, y in zip(a, b):
    require(x == y, 'shows %s, expected %s', x, y)
  return labels


SUITES = [Suite('plain', gen_case, run, 1400, 40000),
          Suite('sql', gen_sql, run, 900, 30000),
          Suite('adjusted', lambda: gen_case(make=gen_adjusted), run, 450, 15000)]
