"""C21: the confidence-interval table shows the right numbers and highlights."""
import contextlib
import copy
import io
import itertools
import math
import re

from hypothesis import strategies as st
import pandas as pd

from vp.core import Skip, Suite, isnull, require, sut

RULE = ('a random long table (experiments, controls, slices, metrics, missing '
        'and repeated cells, nulls, column names, types) x display options; '
        'the HTML cells are parsed back and compared, text by text and '
        'highlight by highlight, with a model that groups the rows itself; '
        'non-trivial = at least two rows displayed and one highlighted cell')
VALS = st.sampled_from([0.0, 1.0, 0.5, -0.5, 0.12345, 12.3456, -3.25, 1234.5,
                        0.001, -0.00004, 3e-6, 7.0, None])
POS = st.sampled_from([0.0, 0.5, 1.0, 0.02, 3.0, 8.0, None])
EXPS = [[0, 1, 2], [3, 1, 2], ['A', 'B', 'C'], ['ctl', '', 'Z'], [1.5, 0.5, 2.5]]
DIMS = [['us', 'jp', 'fr'], [1, 0, 2], ['on', 'off'], [True, False]]
METRICS = ['m1', 'click', 'a b', 'Z', 'sum(x)']
RENAMED = {'Metric': 'metric', 'Ratio': 'r', 'Value': 'val', 'CI_Upper': 'up',
           'CI_Lower': 'low', 'CI_Range': 'rng', 'Control_Value': 'ctrl val',
           'Experiment_Id': 'expr', 'Description': 'desc'}
ARGS = {'Metric': 'metric', 'Ratio': 'ratio', 'Value': 'value',
        'CI_Upper': 'ci_upper', 'CI_Lower': 'ci_lower', 'CI_Range': 'ci_range',
        'Control_Value': 'control_value', 'Experiment_Id': 'expr_id',
        'Description': 'description'}


@st.composite
def gen_case(draw):
  s = {'exps': draw(st.sampled_from(EXPS))}
  s['exps'] = s['exps'][:draw(st.sampled_from([2, 2, 3]))]
  s['ctrl'] = draw(st.sampled_from(['scalar', 'scalar', 'dict', 'column',
                                    'is_control', 'none', 'noexp']))
  nd = draw(st.sampled_from([0, 0, 1, 1, 2]))
  s['dims'] = [draw(st.sampled_from(DIMS)) for _ in range(nd)]
  s['dim_names'] = draw(st.sampled_from([None, None, ['country', 'device'],
                                         ['Dim_2', 'Dim_1']]))
  s['cat'] = draw(st.booleans())
  s['str_dim'] = nd == 1 and draw(st.booleans())
  ms = draw(st.lists(st.sampled_from(METRICS), min_size=1, max_size=3,
                     unique=True))
  s['metrics'] = ms
  s['range'] = draw(st.booleans())
  s['rename'] = draw(st.booleans())
  rows = []
  drop = draw(st.sampled_from([0, 0, 0, 4]))
  desc = draw(st.sampled_from([None, None, 'text', 'holes']))
  s['desc'] = desc
  exps = s['exps'] if s['ctrl'] != 'noexp' else [None]
  no_ctrl = draw(st.integers(0, 3)) == 0
  s['auto'] = draw(st.integers(0, 2)) == 0 and s['ctrl'] in (
      'scalar', 'dict', 'column')
  steady = draw(st.booleans())
  texts = {e: draw(st.sampled_from(['d1', 'd2', 'new UI'])) if (
      desc == 'text' or draw(st.booleans())) else draw(st.sampled_from(
          [None, ''])) for e in map(repr, exps)}
  if s['ctrl'] == 'dict' and len(exps) == 3 and draw(st.booleans()):
    s['two'] = True  # two controls
  if s['auto']:
    for e in set(controls(s).values()):  # Added control rows are described so.
      texts[repr(e)] = 'Control'
  for sl in itertools.product(*s['dims']):
    base = {m: draw(VALS) for m in ms}
    for e in exps:
      if e is not None and e == exps[0] and no_ctrl:
        continue
      for m in ms:
        if drop and draw(st.integers(0, drop)) == 0:
          continue
        r = {'dims': list(sl), 'e': e, 'm': m, 'v': draw(VALS), 'r': draw(VALS),
             'c': base[m] if steady else draw(st.sampled_from(
                 [base[m], base[m], 0.25, 5.0]))}
        if s['range']:
          r['rng'] = draw(POS)
        else:
          r['lo'] = draw(VALS)
          w = draw(POS)
          r['hi'] = None if w is None or r['lo'] is None else r['lo'] + w
        if desc:
          r['d'] = texts[repr(e)]
        rows.append(r)
        if draw(st.integers(0, 9)) == 0:
          rows.append(dict(r))
  s['rows'] = draw(st.permutations(rows)) if len(rows) > 1 else rows
  s['opt'] = {
      'aggregate_dimensions': draw(st.sampled_from([True, True, False])),
      'show_control': draw(st.sampled_from([True, True, False])),
      'hide_null_ctrl': draw(st.booleans()),
      'display_expr_info': draw(st.booleans()),
      'auto_add_description': draw(st.sampled_from([True, True, False])),
      'show_metric_value_when_control_hidden': draw(st.booleans()),
      'auto_decide_control_vals': s['auto'],
      'flip_color': draw(st.lists(st.sampled_from(ms), max_size=2, unique=True)),
  }
  form = st.sampled_from(['absolute', 'percent', 'pp', '{:.1f}', '{:.2%}'])
  s['formats'] = draw(st.sampled_from([None, 1, 2, 3]))
  if s['formats']:
    s['formats'] = {k: draw(form) for k in (
        ['Value'], ['Ratio'], ['Value', 'Ratio'])[s['formats'] - 1]}
  s['order'] = draw(st.permutations(ms)) if draw(st.booleans()) else None
  if s['order'] and len(ms) > 1 and draw(st.integers(0, 3)) == 0:
    s['order'] = s['order'][:-1]
  s['sort'] = []
  if draw(st.integers(0, 2)) == 0:
    for _ in range(draw(st.integers(1, 2))):
      by = draw(st.sampled_from(['dim', 'exp', 'metric']))
      if by == 'dim' and not nd or by == 'exp' and s['ctrl'] == 'noexp':
        by = 'metric'
      b = {'by': by, 'asc': draw(st.sampled_from([None, True, False]))}
      if by == 'metric':
        b['m'] = draw(st.sampled_from(sorted({r['m'] for r in rows}) or ms))
        b['f'] = draw(st.sampled_from(['Value', 'Ratio', 'CI_Lower', 'CI_Upper']))
      elif by == 'dim':
        b['i'] = draw(st.integers(0, nd - 1))
        if draw(st.booleans()):
          b['order'] = draw(st.permutations(s['dims'][b['i']]))
      elif draw(st.booleans()):
        b['order'] = draw(st.permutations(s['exps']))
      same = lambda x: [x.get(k) for k in ('by', 'i', 'm', 'f')]
      if same(b) not in map(same, s['sort']):
        s['sort'].append(b)
  return s


def names(s):
  n = len(s['dims'])
  return (s['dim_names'] or ['Dim_1', 'Dim_2'])[:n]


def column(s, c):
  return RENAMED[c] if s['rename'] else c


def controls(s):
  """Experiment -> its control."""
  e = s['exps']
  if s['ctrl'] == 'dict' and s.get('two'):
    return {e[0]: e[0], e[1]: e[0], e[2]: e[2]}
  return {x: e[0] for x in e}


def frame(s):
  out = {c: [] for c in names(s)}
  cs = controls(s)
  f = lambda c: column(s, c)
  data = {k: [r['dims'][i] for r in s['rows']] for i, k in enumerate(names(s))}
  data[f('Metric')] = [r['m'] for r in s['rows']]
  for k, c in (('v', 'Value'), ('r', 'Ratio')):
    data[f(c)] = [r[k] for r in s['rows']]
  if s['range']:
    data[f('CI_Range')] = [r['rng'] for r in s['rows']]
  else:
    data[f('CI_Lower')] = [r['lo'] for r in s['rows']]
    data[f('CI_Upper')] = [r['hi'] for r in s['rows']]
  if s['auto']:
    data[f('Control_Value')] = [r['c'] for r in s['rows']]
  if s['ctrl'] != 'noexp':
    data[f('Experiment_Id')] = [r['e'] for r in s['rows']]
    if s['ctrl'] == 'column':
      data['Control_Id'] = [cs[r['e']] for r in s['rows']]
    if s['ctrl'] == 'is_control':
      data['Is_Control'] = [r['e'] == cs[r['e']] for r in s['rows']]
  if s['desc']:
    data[f('Description')] = [r['d'] for r in s['rows']]
  df = pd.DataFrame(data)
  for c in ('Value', 'Ratio', 'CI_Range', 'CI_Lower', 'CI_Upper',
            'Control_Value'):
    if f(c) in df:
      df[f(c)] = df[f(c)].astype(float)
  if s['cat']:
    for i, c in enumerate(names(s)):
      df[c] = pd.Categorical(df[c], s['dims'][i] if not isinstance(
          s['dims'][i][0], bool) else None)
  return df


def arguments(s):
  kw = dict(s['opt'])
  f = lambda c: column(s, c)
  if s['rename']:
    kw.update({a: RENAMED[c] for c, a in ARGS.items()})
  if s['dim_names']:
    kw['dims'] = names(s)[0] if s['str_dim'] else names(s)
    if not names(s):
      kw['dims'] = None
  e = s['exps']
  if s['ctrl'] == 'scalar':
    kw['ctrl_id'] = e[0]
  elif s['ctrl'] == 'dict':
    cs = controls(s)
    kw['ctrl_id'] = {c: [x for x in e if cs[x] == c and x != c]
                     for c in sorted(set(cs.values()), key=e.index)}
  if s['formats']:
    kw['metric_formats'] = dict(s['formats'])
  if s['order']:
    kw['metric_order'] = list(s['order'])
  if s['sort']:
    kw['sort_by'] = []
    for b in s['sort']:
      col = {'dim': lambda: names(s)[b['i']], 'exp': lambda: f('Experiment_Id'),
             'metric': lambda: (b['f'], b['m'])}[b['by']]()
      d = {'column': col}
      if b['asc'] is not None:
        d['ascending'] = b['asc']
      if 'order' in b:
        d['order'] = list(b['order'])
      kw['sort_by'].append(d)
  return kw


# ------------------------------------------------------------------- model

def model(s):
  """(rows: [(dims, exp, is control, description)] -> {metric: cell}), warned."""
  o, cs = s['opt'], controls(s)
  known = s['ctrl'] not in ('noexp', 'none')
  rows = {}
  lines = []
  for r in s['rows']:
    lo, hi = r.get('lo'), r.get('hi')
    if s['range']:
      ok = r['r'] is not None and r['rng'] is not None
      lo = r['r'] - r['rng'] / 2 if ok else None
      hi = r['r'] + r['rng'] / 2 if ok else None
    ctrl = known and cs[r['e']] == r['e']
    d = r.get('d')
    if o['auto_add_description'] and known and not d:
      d = 'Control' if ctrl else 'Not Control'
    lines.append(dict(r, lo=lo, hi=hi, ctrl=ctrl, d=d))
  warned = set()
  out = []
  for r in lines:
    if r['ctrl'] and not o['show_control']:
      continue
    r = dict(r)
    if r['ctrl']:
      r['r'] = None
    if not o['show_control'] and not o['show_metric_value_when_control_hidden']:
      r['v'] = None
    out.append(r)
  if s['auto'] and o['show_control']:
    groups = {}
    for r in lines:
      if not r['ctrl']:
        groups.setdefault((r['m'], cs[r['e']], tuple(r['dims'])), []).append(
            r['c'])
    for (m, c, sl), vs in groups.items():
      vs = [v for v in vs if v is not None]
      if not vs:
        continue
      if max(vs) - min(vs) > 1e-5:
        warned.add((m, c, sl))
        continue
      mine = [r for r in out if r['ctrl'] and r['m'] == m and r['e'] == c and
              tuple(r['dims']) == sl]
      for r in mine:
        if r['v'] is None:
          r['v'] = min(vs)
      if not mine:
        out.append({'dims': list(sl), 'e': c, 'm': m, 'v': min(vs), 'r': None,
                    'lo': None, 'hi': None, 'ctrl': True, 'd': 'Control' if (
                        s['desc'] or o['auto_add_description']) else None})
  for r in out:
    key = (tuple(r['dims']), r['e'], r['ctrl'], r['d'] or None)
    cell = (r['v'], r['r'], r['lo'], r['hi'])
    old = rows.setdefault(key, {}).setdefault(r['m'], cell)
    require(old == cell, 'bad generator: %s, %s', old, cell)
  return rows, warned


UNITS = {'percent': '%', 'pp': 'pp'}
FORMS = {'percent': '%.2f', 'pp': '%.2f', 'absolute': '%.4f', '{:.1f}': '%.1f'}


def show(v, form):
  if v is None:
    return 'N/A'
  if form == '{:.2%}':
    return '%.2f%%' % (v * 100)
  return FORMS[form] % v + UNITS.get(form, '')


def cell(s, m, c):
  """Texts of the lines and the highlight."""
  if c is None:
    return ['N/A'], None
  v, r, lo, hi = c
  f = dict({'Value': 'absolute', 'Ratio': 'absolute'}, **(s['formats'] or {}))
  if f['Value'] == 'percent' and v is not None:
    v = v * 100.0
  if r is None:
    return [show(v, f['Value'])], None
  number = lambda x: 'N/A' if x is None else (
      '%.2f%%' % (x * 100) if f['Ratio'] == '{:.2%}' else FORMS[f['Ratio']] % x)
  unit = UNITS.get(f['Ratio'])
  lines = [show(r, f['Ratio']), '[%s, %s]' % (number(lo), number(hi)) + (
      ' ' + unit if unit else '')]
  if v is not None:
    lines.insert(0, show(v, f['Value']))
  elif not s['opt']['hide_null_ctrl']:
    lines.insert(0, '-')
  color = None
  if lo is not None and lo > 0:
    color = 'good'
  elif hi is not None and hi < 0:
    color = 'bad'
  if color and m in s['opt']['flip_color']:
    color = {'good': 'bad', 'bad': 'good'}[color]
  return lines, color


TAG = re.compile(r'<[^>]*>')
BREAK = '<div class="ci-display-flex-line-break"></div>'


def parse(html):
  require(isinstance(html, str) and html.count('<div') == html.count('</div>')
          and html.count('<span') == html.count('</span>'), 'cell %r', html)
  color = [c for c in ('good', 'bad') if 'ci-display-%s-change' % c in html]
  require(len(color) < 2, 'colors %s', html)
  lines = [TAG.sub('', p) for p in html.split(BREAK)]
  return lines, color[0] if color else None


def run(s):
  from meterstick import confidence_interval_display as d
  rows, warned = model(s)
  if not rows:
    raise Skip('nothing to display')
  shown = {m for r in rows.values() for m in r}
  if any(b['by'] == 'metric' and b['m'] not in shown for b in s['sort']):
    raise Skip('sorted by a metric that is not there')
  df = frame(s)
  before = df.copy(deep=True)
  o = s['opt']
  printed = io.StringIO()
  with sut('get_formatted_df'):
    with contextlib.redirect_stdout(printed):
      kw = arguments(s)
      pre = d.get_formatted_df(df, return_pre_agg_df=True, **arguments(s))
      got = d.get_formatted_df(df, **kw)
    pd.testing.assert_frame_equal(df, before)
    require(len(got) == len(rows) == len(pre), '%d rows displayed of %d:\n%s',
            len(got), len(rows), pre)
    metrics = list(s['order'] or sorted({m for r in rows.values() for m in r}))
    metrics = [m for m in metrics if any(m in r for r in rows.values())]
    known = s['ctrl'] not in ('noexp', 'none')
    with_desc = bool(s['desc']) or known and o['auto_add_description']
    heads = head(s, known, with_desc)
    require(list(got.columns) == heads + metrics, 'columns %s, expected %s',
            list(got.columns), heads + metrics)
    seen = []
    for i in range(len(got)):
      lead = [parse(got.iloc[i, j])[0] for j in range(len(heads))]
      key = [k for k in rows if lead == heading(s, k, heads)]
      cells = [parse(got.iloc[i, len(heads) + j]) for j in range(len(metrics))]
      want = {k: [cell(s, m, rows[k].get(m)) for m in metrics] for k in key}
      key = [k for k in key if k not in seen]
      require(key, 'row %d is headed %s; the data has %s', i, lead,
              [heading(s, k, heads) for k in rows])
      hit = [k for k in key if want[k] == cells]
      require(hit, 'row %s shows %s, expected %s', lead, cells, want[key[0]])
      seen.append(hit[0])
    if len({repr(heading(s, k, heads)) for k in rows}) == len(rows):
      check_order(s, seen, rows)
    for m, c, sl in warned:
      require(re.search(re.escape('"%s"' % m) + '.*inconsistent',
                        printed.getvalue()), 'no warning on %s: %s', m,
              printed.getvalue())
    if not warned:
      require('inconsistent' not in printed.getvalue(), 'warns: %s',
              printed.getvalue())
  with sut('render'):
    shown = []
    old = d.display
    d.display = shown.append
    try:
      with contextlib.redirect_stdout(io.StringIO()):
        require(d.render(df, **arguments(s)) is None, 'render returns')
        again = d.render(df, return_formatted_df=True, **arguments(s))
    finally:
      d.display = old
    require(len(shown) == 1, 'render displays %d times', len(shown))
    pd.testing.assert_frame_equal(again, got)
    html, at = shown[0].data, 0
    for v in got.to_numpy().ravel():
      at = html.find(v, at)
      require(at >= 0, 'cell %s is not in the page', v)
      at += len(v)
  labels = ['ctrl:' + s['ctrl'], 'dims%d' % len(s['dims'])]
  colors = {cell(s, m, c)[1] for r in rows.values() for m, c in r.items()}
  labels += ['color:%s' % c for c in colors]
  labels += ['warned'] if warned else []
  labels += ['auto'] if s['auto'] else []
  labels += ['sorted'] if s['sort'] else []
  if len(rows) > 1 and colors - {None}:
    labels.append('nontrivial')
  return labels


def head(s, known, with_desc):
  o = s['opt']
  f = lambda c: column(s, c)
  exp = s['ctrl'] != 'noexp'
  if o['aggregate_dimensions']:
    return ['Dimensions'] if s['dims'] or exp or with_desc else []
  out = names(s) + ([f('Experiment_Id')] if exp else [])
  if not s['dim_names']:
    out = sorted(names(s)) + out[len(names(s)):]
  if o['display_expr_info']:
    extra = (['Is_Control'] if known else []) + (
        [f('Description')] if with_desc else [])
    if s['order']:
      if known and s['ctrl'] != 'is_control':
        out.append('Control_Id')
      out += extra
    else:
      out = names(s)
      if known and s['ctrl'] != 'is_control':
        out.append('Control_Id')
      out += ['Is_Control'] if known else []
      out += [f('Experiment_Id')] if exp else []
      out += [f('Description')] if with_desc else []
  else:
    # Neither the description nor the control are displayed.
    pass
  return out


def heading(s, key, heads):
  """The texts of the leading cells of a row."""
  sl, e, ctrl, d = key
  if heads == ['Dimensions']:
    lines = []
    if d:
      lines.append(str(d))
    if e is not None and e != '':
      lines.append(str(e))
    if sl:
      lines.append(' * '.join(map(str, sl)))
    return [lines or ['']]
  out = []
  for h in heads:
    if h in names(s):
      v = sl[names(s).index(h)]
    elif h == column(s, 'Experiment_Id'):
      v = e
    elif h == 'Is_Control':
      v = ctrl
    elif h == 'Control_Id':
      v = controls(s)[e]
    else:
      v = '' if d is None else d
    out.append([str(v)])
  return out


def check_order(s, seen, rows):
  def rank(values, v):
    return values.index(v)
  keys = []
  for k in seen:
    sl, e, ctrl, d = k
    key = []
    if not s['sort']:
      for i, v in enumerate(sl):
        vs = s['dims'][i]
        cat = s['cat'] and not isinstance(vs[0], bool)
        key.append((0, vs.index(v) if cat else sorted(vs).index(v)))
      if s['ctrl'] not in ('noexp', 'none'):
        if s['ctrl'] != 'is_control':
          key.append((0, sorted(s['exps']).index(controls(s)[e])))
        key.append((0, not ctrl))
      if e is not None:
        key.append((0, sorted(s['exps']).index(e)))
    for b in s['sort']:
      if b['by'] == 'metric':
        c = rows[k].get(b['m'])
        v = None if c is None else c[['Value', 'Ratio', 'CI_Lower',
                                      'CI_Upper'].index(b['f'])]
      else:
        v = sl[b['i']] if b['by'] == 'dim' else e
        vs = s['dims'][b['i']] if b['by'] == 'dim' else s['exps']
        cat = b['by'] == 'dim' and s['cat'] and not isinstance(vs[0], bool)
        v = (list(b['order']) if 'order' in b else list(vs) if cat else
             sorted(vs)).index(v)
      if b['asc'] is False and v is not None:
        v = -v
      key.append((1, 0) if v is None else (0, v))
    keys.append(key)
  for a, b in zip(keys, keys[1:]):
    require(a <= b, 'rows are in order %s by %s', seen, s['sort'] or 'default')


SUITES = [Suite('table', gen_case, run, 3000, 60000)]
