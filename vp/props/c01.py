"""C01: simple metrics equal their mathematical definition."""
from hypothesis import strategies as st

from vp import dsl, gen, mgen, obs, ref, table
from vp.core import Skip, Suite, close, require, sut

RULE = ('a random table (0-24 rows, ints/quarters/floats, nulls, duplicate or '
        'reordered index) x one simple metric with random options, computed '
        'overall and sliced; non-trivial = at least 2 rows and a finite '
        'expected value')
TYPES = sorted(ref.SIMPLE)


@st.composite
def case(draw, types=TYPES):
  kinds = draw(st.sampled_from([('int',), ('quarter',), ('int', 'quarter'),
                                ('coarse',), ('float',), ('big',)]))
  m = draw(mgen.simple(types))
  if kinds in (('big',), ('float',)) and m['t'] in (
      'Variance', 'StandardDeviation', 'CV', 'Correlation', 'Cov'):
    kinds = ('quarter',)
  t = draw(gen.table(x=kinds, y=kinds))
  if m['t'] == 'Nth' and m['sort_by'] == 'k' and t['n'] and draw(st.booleans()):
    # One row has no sort key.
    i = draw(st.integers(0, t['n'] - 1))
    t['cols']['kn'] = [None if j == i else v
                       for j, v in enumerate(t['cols']['k'])]
    m['sort_by'] = 'kn'
  split = draw(st.sampled_from([[], [], ['g'], ['g', 'h'], ['h']]))
  return {'table': t, 'metric': m, 'split': split,
          'as_df': draw(st.booleans())}


def run(spec):
  import pandas as pd
  m, split = spec['metric'], spec['split']
  rows = table.to_rows(spec['table'])
  t = m['t']
  if t == 'Quantile' and m.get('weight') and not rows:
    raise Skip('weighted quantile of nothing')
  if split and not rows:
    raise Skip('no slices')
  want = ref.Res(split, ref.labels(m),
                 {k: ref.simple(m, r) for k, r in ref.groups(rows, split).items()}
                 if split else {(): ref.simple(m, rows)})
  rtol = 1e-7
  atol = 1e-8 if t not in ('StandardDeviation', 'CV', 'Correlation') else 1e-6
  with sut('compute_on'):
    metric = dsl.build(m)
    df = table.to_df(spec['table'])
    multi = len(want.cols) > 1
    if spec['as_df'] or multi:
      got = metric.compute_on(df, split)
      obs.compare(got, want, t, rtol, atol, missing_is_nan=(t == 'Nth' or m.get('weight') == 'wn'))
    elif split:
      got = metric.compute_on(df, split if len(split) > 1 else split[0],
                              return_dataframe=False)
      require(isinstance(got, pd.Series), 'expected a Series, got %s',
              type(got))
      require(got.name == want.cols[0], 'series is named %r', got.name)
      obs.compare(got.to_frame(), want, t, rtol, atol,
                  missing_is_nan=(t == 'Nth' or m.get('weight') == 'wn'))
    else:
      got = metric.compute_on(df, return_dataframe=False)
      require(not isinstance(got, (pd.Series, pd.DataFrame)),
              'expected a scalar, got %s', type(got))
      w = want.rows[()][0]
      require(ref.is_any(w) or close(got, w, rtol, atol), '%s is %r, expected %r', t, got, w)
  vals = [v for r in want.rows.values() for v in r]
  out = [t, 'split%d' % len(split)] + spec.get('labels', [])
  if len(rows) >= 2 and any(not ref.isnull(v) for v in vals):
    out.append('nontrivial')
  if any(ref.isnull(v) for v in vals):
    out.append('null result')
  return out


# Columns that are not numbers, and weights that may be null.
OBJECTS = {
    'str': ['a', 'b', 'B', '', 'a b', "it's", 'é', '10', '9'],
    'bool': [True, False],
    'mixed': ['1', 1, 'a', True],
    'date': ['2020-01-01', '2021-12-31', '2020-02-29'],
}


@st.composite
def kinds(draw):
  t = draw(gen.table())
  n = t['n']
  kind = draw(st.sampled_from(sorted(OBJECTS) + ['weights', 'weights']))
  if kind == 'weights':
    t['cols']['wn'] = draw(st.lists(
        st.sampled_from([None, 0.25, 1, 2, 3.5]), min_size=n, max_size=n))
    other = draw(st.sampled_from(['Quantile', 'Quantile', 'Mean', 'Variance',
                                  'StandardDeviation', 'Correlation', 'Cov']))
    m = {'t': other, 'var': 'x', 'weight': 'wn'}
    if other in ('Variance', 'StandardDeviation'):
      m['unbiased'] = draw(st.booleans())
    elif other in ('Correlation', 'Cov'):
      m['var2'] = 'y'
      if other == 'Cov':
        m['bias'] = draw(st.booleans())
    elif other == 'Quantile':
      m = {'t': 'Quantile', 'var': draw(st.sampled_from(['x', 'xn'])),
         'weight': 'wn', 'q': draw(st.one_of(
             st.sampled_from(mgen.QS),
             st.lists(st.sampled_from(mgen.QS), min_size=1, max_size=3,
                      unique=True)))}
  else:
    vals = OBJECTS[kind]
    if draw(st.booleans()) and kind != 'bool':
      vals = vals + [None]
    t['cols']['o'] = draw(st.lists(st.sampled_from(vals), min_size=n,
                                   max_size=n))
    types = ['Count']
    if kind == 'bool':
      types += ['Sum', 'Mean', 'Max', 'Min']
    elif None not in vals and kind != 'mixed':
      types += ['Max', 'Min', 'Nth', 'Nth']
    m = {'t': draw(st.sampled_from(types)), 'var': 'o'}
    if m['t'] == 'Count':
      m['distinct'] = draw(st.booleans())
    elif m['t'] == 'Nth':
      m.update(n=draw(st.integers(-4, 4)), sort_by='k',
               ascending=draw(st.booleans()), dropna=draw(st.booleans()))
  return {'table': t, 'metric': m, 'kind': kind,
          'split': draw(st.sampled_from([[], [], ['g'], ['g', 'h'], ['h']])),
          'as_df': draw(st.booleans())}


def run_kinds(spec):
  m, split, kind = spec['metric'], spec['split'], spec['kind']
  rows = table.to_rows(spec['table'])
  if kind in ('bool', 'weights') or m['t'] == 'Count':
    if kind == 'weights' and not any(
        r['wn'] is not None and r[m['var']] is not None for r in rows):
      raise Skip('no weights')
    return run(dict(spec, labels=[kind]))
  # The values are returned as they are.
  import pandas as pd
  if not rows:
    raise Skip('nothing')

  def value(part):
    if m['t'] in ('Max', 'Min'):
      return (max if m['t'] == 'Max' else min)(r['o'] for r in part)
    n, asc = m['n'], m['ascending']
    part = sorted(part, key=lambda r: r['k'], reverse=not asc)
    return part[n]['o'] if -len(part) <= n < len(part) else None

  with sut('compute_on'):
    got = dsl.build(m).compute_on(table.to_df(spec['table']), split)
  shown = {}
  for key, v in zip(got.index if split else [()], got.iloc[:, 0]):
    shown[key if isinstance(key, tuple) else (key,)] = v
  want = {k: value(r) for k, r in (
      ref.groups(rows, split).items() if split else [((), rows)])}
  for k, w in want.items():
    v = shown.pop(k, None)
    if isinstance(v, float) and pd.isnull(v):
      v = None
    require(v == w, '%s of %s is %r, expected %r', m['t'], k, v, w)
  require(not shown, 'unexpected slices %r', shown)
  return [kind, m['t'], 'nontrivial']


SUITES = [Suite('kinds', kinds, run_kinds, 2000, 50000),
          Suite('simple', case, run, 8000, 200000)]
