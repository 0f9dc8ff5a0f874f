"""JSON metric specs -> meterstick objects."""
from vp import conds


def build(m):
  """Builds a meterstick Metric from a spec; numbers stay numbers."""
  import meterstick as ms
  if isinstance(m, (int, float)):
    return m
  if m.get('as'):
    from vp import custom
    return custom.build(m, build)
  t = m['t']
  kw = {}
  if m.get('w'):
    kw['where'] = conds.to_where(m['w'])
  nm = {'name': m['name']} if m.get('name') else {}
  if t == 'Count':
    return ms.Count(m['var'], distinct=bool(m.get('distinct')), **nm, **kw)
  if t in ('Sum', 'Max', 'Min'):
    return getattr(ms, t)(m['var'], **nm, **kw)
  if t == 'Dot':
    return ms.Dot(m['var'], m['var2'], bool(m.get('normalize')), **nm, **kw)
  if t == 'Mean':
    return ms.Mean(m['var'], m.get('weight'), **nm, **kw)
  if t == 'Nth':
    return ms.Nth(m['var'], m['n'], m['sort_by'], m.get('ascending', True),
                  m.get('dropna', False), **nm, **kw)
  if t == 'Quantile':
    return ms.Quantile(m['var'], m['q'], m.get('weight'),
                       m.get('interp', 'linear'), **nm, **kw)
  if t in ('Variance', 'StandardDeviation'):
    return getattr(ms, t)(m['var'], m.get('unbiased', True), m.get('weight'),
                          **nm, **kw)
  if t == 'CV':
    return ms.CV(m['var'], m.get('unbiased', True), **nm, **kw)
  if t == 'Correlation':
    return ms.Correlation(m['var'], m['var2'], m.get('weight'),
                          method=m.get('method', 'pearson'), **nm, **kw)
  if t == 'Cov':
    return ms.Cov(m['var'], m['var2'], m.get('bias', False), m.get('ddof'),
                  m.get('weight'), m.get('fweight'), **nm, **kw)
  if t == 'Ratio':
    return ms.Ratio(m['num'], m['den'], m.get('name'), **kw)
  if t == 'op':
    return build_op(m)
  if t == 'List':
    return ms.MetricList([build(c) for c in m['c']], name_tmpl=m.get('tmpl'),
                         rename_columns=m.get('rename'), **kw)
  child = build(m['child']) if m.get('child') is not None else None
  if t in ('Distribution', 'Normalize'):
    return getattr(ms, t)(m['over'], child, **kw)
  if t == 'CumulativeDistribution':
    return ms.CumulativeDistribution(
        m['over'], child, m.get('order'), m.get('ascending', True),
        m.get('by_values', False), **kw)
  if t in ('PercentChange', 'AbsoluteChange'):
    base = m['base']
    base = tuple(base) if isinstance(base, list) else base
    return getattr(ms, t)(m['cond'], base, child, m.get('include_base', False),
                          **kw)
  if t == 'MH':
    base = m['base']
    base = tuple(base) if isinstance(base, list) else base
    return ms.MH(m['cond'], base, m['strat'], child,
                 include_base=m.get('include_base', False), **kw)
  if t in ('CUPED', 'PrePostChange'):
    base = m['base']
    base = tuple(base) if isinstance(base, list) else base
    cov = m['cov']
    cov = [build(c) for c in cov] if isinstance(cov, list) else build(cov)
    return getattr(ms, t)(m['cond'], base, child, cov, m['strat'],
                          include_base=m.get('include_base', False), **kw)
  if t == 'Jackknife':
    return ms.Jackknife(m['unit'], child, m.get('confidence'),
                        m.get('opt', True), **kw)
  if t in ('Bootstrap', 'PoissonBootstrap'):
    return getattr(ms, t)(m['unit'], child, m['n'], m.get('confidence'),
                          m.get('opt', True), **kw)
  if t in ('HHI', 'Entropy'):
    r = getattr(ms, t)(m['over'], child)
  elif t == 'TopK':
    r = ms.TopK(m['over'], m['k'], child)
  elif t == 'Nxx':
    r = ms.Nxx(m['over'], m['share'], child)
  else:
    raise ValueError(t)
  if m.get('w'):
    r.where = conds.to_where(m['w'])
  return r


def build_op(m):
  op = m['op']
  a = build(m['a'])
  if op == 'neg':
    r = -a
  else:
    b = build(m['b'])
    r = {
        '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
        '/': lambda: a / b, '**': lambda: a ** b,
    }[op]()
  if m.get('w'):
    r.where = conds.to_where(m['w'])
  if m.get('name'):
    r.set_name(m['name'])
  if m.get('rename'):
    r.rename_columns(m['rename'])
  return r
