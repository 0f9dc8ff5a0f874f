"""C12: Bootstrap and PoissonBootstrap on DataFrames."""
import collections
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vp import (boot, case, conds, dsl, gen, obs, ref, sqlcase, table, tgen,
                tree)
from vp.core import Skip, Suite, close, isnull, require, sut
from vp.props import c02, c11, c18

RULE = ('a random table with a unit column x a random child (leaves, '
        'arithmetic, lists, operations, filters) x unit or rows x Bootstrap or '
        'PoissonBootstrap x split_by x confidence x numpy seed: the point '
        'estimate against the reference evaluator, the spread of 2 or 3 '
        'replicates against those of all resamples that can be drawn '
        '(enumerated), the samples a custom child receives, and the spread of '
        '300 replicates against the exact bootstrap variance; non-trivial = a '
        'positive spread')


@st.composite
def gen_small(draw):
  spec = draw(c18.gen_bootstrap(leaves=c11.LEAVES))
  del spec['mode'], spec['tbl']
  if draw(st.integers(0, 5)) == 0:
    # Samples that repeat, which are cached.
    spec['n'] = draw(st.sampled_from([5, 7, 9]))
    t = spec['table']['cols']
    for c in 'uv':
      t[c] = [t[c][0] if x == t[c][0] else t[c][1] for x in t[c]]
  return dict(spec, melted=draw(st.integers(0, 3)) == 0,
              sym=draw(st.booleans()))


def make(spec, child, opt, **kw):
  import meterstick as ms
  kw['confidence'] = spec['confidence']
  if spec['w']:
    kw['where'] = conds.to_where(spec['w'])
  cls = ms.PoissonBootstrap if spec['poisson'] else ms.Bootstrap
  return cls(spec['unit'], child, spec['n'], enable_optimization=opt, **kw)


def run_small(spec):
  ref.ROUNDED = True  # Correlation is computed as Cov / sd / sd.
  try:
    with conds.symbols(spec.get('sym')):
      return small(spec)
  finally:
    ref.ROUNDED = False


def small(spec):
  from meterstick import utils
  m, split = spec['child'], spec['split']
  rows = conds.keep(spec['w'], table.to_rows(spec['table']))
  if not rows or c02.emptied(m, rows):
    raise Skip('filters leave nothing')
  want = case.expected(m, rows, split)
  if not want.rows:
    raise Skip('an empty result')
  # The optimization keeps the slices that filters in the child empty: a known
  # finding.
  ghosts = lambda m, kept, by: sqlcase.ghosts(
      {'t': 'BS', 'child': m}, kept, by, types=None)
  known = not spec.get('known') and ghosts(m, rows, split)
  what = 'PoissonBootstrap' if spec['poisson'] else 'Bootstrap'
  labels = [m['t'], what, 'unit:%s' % spec['unit'], 'split%d' % len(split)]
  df = table.to_df(spec['table'])
  seen = []
  parts = ref.groups(rows, split) if split else {(): rows}
  for opt in (False,) if known else (True, False):
    with sut(what), contextlib.redirect_stdout(io.StringIO()):
      bs = make(spec, dsl.build(m), opt)
      if opt:
        labels.append('precomputed' if bs.can_precompute() else 'general')
      np.random.seed(spec['seed'])
      try:
        res = bs.compute_on(df, list(split), melted=spec['melted'])
      except Exception:
        if sparse(m, parts.values(), spec):
          raise Skip('a resample is too sparse')
        raise
      if spec['melted']:
        res = utils.unmelt(res)
      got = obs.observe(res)
      seen.append(got)
      if (opt or known) and boot.check(
          got, spec, want, rows, '%s(enable_optimization=%s)' % (what, opt),
          spec['poisson'], ghosts if opt else None):
        labels.append('nontrivial')
  if not known and not same(*seen):
    if not sparse(m, parts.values(), spec):
      require(False, 'with optimization %s, without %s', seen[0], seen[1])
  return labels


def sparse(m, parts, spec):
  """Whether a resample may leave the child undefined."""
  return any(not r or r == 'open' for part in parts
             for r in boot.replicates(
                 m, part, spec['unit'], spec['poisson'], 2,
                 lambda m, *a: sqlcase.ghosts({'t': 'BS', 'child': m}, *a,
                                              types=None)))


def same(a, b):
  if a[1] != b[1] or a[0] != b[0]:
    return False
  for k in set(a[2]) | set(b[2]):
    x, y = a[2].get(k), b[2].get(k)
    if x is None or y is None:
      if not all(map(isnull, x or y)):
        return False
    elif not all(close(p, q, 1e-6, 1e-6) for p, q in zip(x, y)):
      return False
  return True


@st.composite
def gen_spy(draw):
  n = draw(st.integers(4, 14))
  k = draw(st.integers(1, 5))
  t = draw(gen.table(
      min_n=n, max_n=n, g=2, h=2, x=('int',), extra={
          'u': st.sampled_from(c11.UNITS[:k]),
          'v': st.sampled_from(c11.SUNITS[:k])}))
  return {'table': t, 'unit': draw(st.sampled_from(['u', 'v', None])),
          'split': draw(st.sampled_from([[], ['g'], ['g', 'h']])),
          'n': draw(st.sampled_from([2, 3, 5, 12])),
          'poisson': draw(st.booleans()), 'seed': draw(st.integers(0, 999)),
          'confidence': None, 'opt': draw(st.booleans()),
          'shape': draw(st.sampled_from(['plain', 'scaled', 'list', 'change'])),
          'w': draw(st.sampled_from([[], [], draw(conds.where(g=False))]))}


def run_spy(spec):
  import meterstick as ms
  rows = conds.keep(spec['w'], table.to_rows(spec['table']))
  if not rows:
    raise Skip('filters leave nothing')
  unit, split, n = spec['unit'], spec['split'], spec['n']
  what = 'PoissonBootstrap' if spec['poisson'] else 'Bootstrap'
  base = {r['k']: r for r in table.to_rows(spec['table'])}
  runs = []
  for _ in range(2):
    samples = []

    class Spy(ms.Metric):

      def compute(self, df):
        return float((df['k'] ** 2).sum())

      def compute_slices(self, df, split_by=None):
        samples.append(df.copy())
        return super(Spy, self).compute_slices(df, split_by)

    child = Spy('spy')
    if spec['shape'] == 'scaled':
      child = child * 2
    elif spec['shape'] == 'list':
      child = ms.MetricList([child, ms.Sum('x')])
    elif spec['shape'] == 'change':
      child = ms.AbsoluteChange('f', 1, child, include_base=True)
    with sut(what):
      bs = make(spec, child, spec['opt'])
      df = table.to_df(spec['table'])
      np.random.seed(spec['seed'])
      try:
        res = bs.compute_on(df, list(split))
      except Exception:
        if spec['shape'] == 'change':
          raise Skip('no baseline in a sample')
        if spec['poisson'] and samples and samples[-1].empty:
          raise Skip('nothing is drawn')
        raise
    runs.append((samples, obs.observe(res)))
  samples, got = runs[0]
  require(len(samples) == len(runs[1][0]) and all(
      list(a['k']) == list(b['k']) for a, b in zip(samples, runs[1][0])),
          'the seed does not decide the samples')
  require(obs.same(got, runs[1][1]) if hasattr(obs, 'same') else repr(
      got) == repr(runs[1][1]), 'the seed does not decide the result')
  full = sorted(r['k'] for r in rows)
  whole = [i for i, df in enumerate(samples) if sorted(df['k']) == full]
  require(whole, 'the child is never computed on all the data')
  samples.pop(whole[0])  # The order of the computations does not matter.
  few = len(samples)
  require(few <= n, '%d samples are drawn for %d replicates', few, n)
  if unit is None:
    require(few == n, '%d samples are drawn for %d replicates', few, n)
  slices = ref.groups(rows, split) if split else {(): rows}
  vals = {k: [] for k in slices}
  seen = set()
  for df in samples:
    count = collections.Counter()
    for _, r in df.iterrows():
      i = int(r['k'])
      count[i] += 1
      for c in ('g', 'h', 'u', 'v', 'x', 'f'):
        require(r[c] == base[i][c], 'row %d of a sample is %s', i, dict(r))
    require(set(count) <= set(r['k'] for r in rows),
            'rows filtered out are sampled: %s', dict(count))
    seen.add(tuple(sorted(count.items())))
    for key, part in slices.items():
      total, units = 0, boot.blocks(part, unit)
      for rs in units:
        times = set(count[r['k']] for r in rs)
        require(len(times) == 1,
                'rows of a unit are drawn apart in slice %s: %s', key, {
                    r['k']: count[r['k']] for r in rs})
        total += times.pop()
      require(spec['poisson'] or total == len(units),
              'slice %s: %s of %s units are drawn', key, total, len(units))
      vals[key].append(float(sum(r['k'] ** 2 * count[r['k']] for r in part))
                       if any(count[r['k']] for r in part) else None)
  if few == n and spec['shape'] in ('plain', 'scaled'):
    scale = 2 if spec['shape'] == 'scaled' else 1
    for key, v in vals.items():
      if spec['poisson'] and None in v:
        continue  # An empty sample gives nothing or 0.
      want = boot.spread([x * scale for x in v])[0]
      cell = got[2][key]
      require(close(cell[0], scale * sum(r['k'] ** 2 for r in slices[key])),
              'slice %s has value %s', key, cell[0])
      require(close(cell[1], want, 1e-6, 1e-6),
              'slice %s: SE is %s but the replicates %s have %s', key, cell[1],
              v, want)
  labels = [what, spec['shape'], 'unit:%s' % unit, 'split%d' % len(split),
            'all run' if few == n else 'some cached']
  if len(seen) > 1:
    labels.append('nontrivial')
  return labels


@st.composite
def gen_spread(draw):
  spec = draw(c18.gen_spread())
  del spec['batch']
  n = spec['table']['n']
  spec['table']['cols']['h'] = draw(st.lists(
      st.integers(0, 1), min_size=n, max_size=n))
  spec['table']['cols']['g'] = ['a'] * n  # splitting may leave few units
  spec['rep'] = draw(st.integers(1, 3))  # rows per unit
  return dict(spec, shape=draw(st.sampled_from(
      ['sum', 'neg', 'two', 'distinct', 'max'])), confidence=draw(
          st.sampled_from([None, 0.9])), n=N)


N = 400


def run_spread(spec):
  """Many replicates against the exact variance."""
  import meterstick as ms
  from scipy import stats
  t = spec['table']
  cols = {c: [x for x in v for _ in range(spec['rep'])]
          for c, v in t['cols'].items()}
  cols['z'] = [i % 3 for i in range(len(cols['x']))]
  t = {'n': len(cols['x']), 'cols': cols}
  rows = conds.keep(spec['w'], table.to_rows(t))
  if not rows:
    raise Skip('filters leave nothing')
  child = {'sum': lambda: ms.Sum('x'), 'neg': lambda: -ms.Sum('x'),
           'two': lambda: ms.Sum('x') + 0 * ms.Sum('x', where='z >= 0'),
           'distinct': lambda: ms.Sum('x') + 0 * ms.Count('z', distinct=True),
           'max': lambda: ms.Sum('x') + 0 * ms.Max('z')}[spec['shape']]()
  cls = 'PoissonBootstrap' if spec['poisson'] else 'Bootstrap'
  with sut(cls):
    np.random.seed(spec['seed'])
    res = make(spec, child, spec['opt']).compute_on(
        table.to_df(t), list(spec['split']) or None)
    got = obs.observe(res)[2]
  for k, part in (ref.groups(rows, spec['split']) if spec['split'] else {
      (): rows}).items():
    units = boot.blocks(part, spec['unit'])
    if spec['poisson'] and len(units) < 3:
      continue
    want = c18.variance(part, spec['unit'], spec['poisson']) ** 0.5
    cell = got[k]
    se = cell[1] if spec['confidence'] is None else (
        cell[2] - cell[1]) / 2 / stats.t.ppf(
            (1 + spec['confidence']) / 2, N - 1)
    require(close(se, want, 0.3, 1e-9),
            'slice %s: the spread of %d replicates is %s, expected around %s',
            k, N, se, want)
  return ['nontrivial', cls, spec['shape'], 'unit:%s' % spec['unit']]


SUITES = [Suite('small', gen_small, run_small, 1800, 60000),
          Suite('spy', gen_spy, run_spy, 400, 12000),
          Suite('spread', gen_spread, run_spread, 64, 3000)]
