From 3b71bf86d1f357f1dbd46bd77be66f986b97996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 01/63] fix: align multi-column operands by index in
 CompositeMetric

The columns used to be overwritten in place by position, which gave values of
other slices when the operands list slices in different orders or lack some,
and modified results that live in the cache.
---
 metrics.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/metrics.py b/metrics.py
index 430ec2e..dca5262 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1479,20 +1479,23 @@ class CompositeMetric(Metric):
             self.name_tmpl.format(c1, c2)
             for c1, c2 in zip(a.columns, b.columns)
         ]
-        a.columns = columns
-        b.columns = columns
+        # The children could be cached so don't modify them in place.
+        a = a.set_axis(columns, axis=1)
+        b = b.set_axis(columns, axis=1)
     elif isinstance(a, pd.DataFrame):
-      for i in range(len(a.columns)):
-        a.iloc[:, i] = self.op(a.iloc[:, i], b)
-      res = a
+      res = pd.concat(
+          [self.op(a.iloc[:, i], b) for i in range(len(a.columns))], axis=1
+      )
+      res.columns = a.columns
       columns = [
           self.name_tmpl.format(c, getattr(m2, 'name', m2)) for c in res.columns
       ]
       res.columns = columns
     elif isinstance(b, pd.DataFrame):
-      for i in range(len(b.columns)):
-        b.iloc[:, i] = self.op(a, b.iloc[:, i])
-      res = b
+      res = pd.concat(
+          [self.op(a, b.iloc[:, i]) for i in range(len(b.columns))], axis=1
+      )
+      res.columns = b.columns
       columns = [
           self.name_tmpl.format(getattr(m1, 'name', m1), c) for c in res.columns
       ]
-- 
2.43.0


From 9d89661edac21f819f2165b43ba03826a4b022e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 02/63] fix: only ratios of Sum and Count share a fingerprint
 with Mean

Any operator applied to Sum(x) and Count(x) used to get Mean(x)'s fingerprint
and the filter of the composite itself was dropped, so cached values of Mean
were returned for, e.g., Sum(x) + Count(x).
---
 metrics.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index dca5262..a528ee4 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1643,9 +1643,17 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
-    if isinstance(s, Sum) and isinstance(
-        c, Count) and s.var == c.var and s.where == c.where and not c.distinct:
-      return Mean(s.var, where=s.where_).get_fingerprint(attr_to_exclude)
+    if (
+        self.name_tmpl == '{} / {}'
+        and isinstance(s, Sum)
+        and isinstance(c, Count)
+        and s.var == c.var
+        and s.where == c.where
+        and not c.distinct
+        and self.op(6.0, 2) == 3
+    ):
+      where = set(s.where_ or ()).union(self.where_ or ()) or None
+      return Mean(s.var, where=where).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
-- 
2.43.0


From 1f2456953f9847a5f1b910c5eef709cec8f6b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 03/63] fix: weighted Quantile and MH with categorical columns,
 null weights

Combinations of categories that do not occur were added with weight 0 and
changed the interpolation (or appeared as extra rows in MH); rows whose weight
is missing were treated as weight 0 instead of being dropped as documented.
---
 metrics.py    | 11 +++++++++--
 operations.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index a528ee4..74a4595 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2117,14 +2117,21 @@ class Quantile(SimpleMetric):
     if self.weight:
       # Adapted from https://stackoverflow.com/a/29677616/12728137.
       def interp(d):
-        res = np.interp(self.quantile, d[self.weight], d[self.var])
+        if d.empty:
+          res = np.full(np.shape(self.quantile), np.nan)
+          res = res.item() if self.one_quantile else res
+        else:
+          res = np.interp(self.quantile, d[self.weight], d[self.var])
         if self.one_quantile:
           return res
         return pd.DataFrame(
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
-      aggregated_weight = df.groupby(split_by + [self.var])[self.weight].sum()
+      df = df[df[self.weight].notna()]
+      aggregated_weight = df.groupby(split_by + [self.var], observed=True)[
+          self.weight
+      ].sum()
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
           self.group(aggregated_weight, split_by).cumsum()
diff --git a/operations.py b/operations.py
index 7cd42d8..1b024fd 100644
--- a/operations.py
+++ b/operations.py
@@ -1258,7 +1258,7 @@ class MH(Comparison):
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
     weights = 1. / (na + nb)
     to_split = [i for i in ka.index.names if i not in self.stratified_by]
-    res = ((ka * nb * weights).groupby(to_split).sum() /
+    res = ((ka * nb * weights).groupby(to_split, observed=True).sum() /
            (kb * na * weights).groupby(to_split, observed=True).sum() - 1) * 100
     res.name = child.name
     to_split = [i for i in to_split if i not in self.extra_index]
-- 
2.43.0


From 33cb295bd5085958951857e3c11cb8526c08268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 04/63] fix: dividing a Metric by zero gives inf/nan for Python
 numbers too

Some Metrics return Python numbers when not sliced, so a division by zero that
gives inf or nan when sliced raised ZeroDivisionError.
---
 metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 74a4595..1cb50ce 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1502,7 +1502,11 @@ class CompositeMetric(Metric):
       res.columns = columns
 
     if res is None:
-      res = self.op(a, b)
+      try:
+        res = self.op(a, b)
+      except ZeroDivisionError:
+        # Python numbers raise while numpy ones and pd.Series give inf or nan.
+        res = self.op(np.float64(a), np.float64(b))
     if isinstance(res, pd.Series):
       res.name = self.name
       if self.columns:
-- 
2.43.0


From 0be8facf70ab2db1b8ff117f9dc438b74d416624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 05/63] fix: Nxx counts contributors robustly to rounding of
 cumulative shares

Six equal contributors gave N(100) = 7 because their shares add up to 1 - 1e-16.
---
 diversity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index 8c0916e..d36d6e8 100644
--- a/diversity.py
+++ b/diversity.py
@@ -228,6 +228,9 @@ class TopK(DiversityBase):
 class Nxx(DiversityBase):
   """The minimum number of contributors to achieve certain share."""
 
+  # Cumulative shares are inexact, e.g., that of everyone could be 1 - 1e-16.
+  share_tolerance = 1e-9
+
   def __init__(
       self, over, share, child=None, additional_fingerprint_attrs=None
   ):
@@ -251,7 +254,8 @@ class Nxx(DiversityBase):
   def nxx_for_one_col(self, col, split_by):
     sorted_col = col.sort_values(split_by + list(col.columns), ascending=False)
     cumsum = self.group(sorted_col, split_by).cumsum()
-    res = self.group(cumsum < self.share, split_by).sum() + 1
+    below = cumsum < self.share - self.share_tolerance
+    res = self.group(below, split_by).sum() + 1
     return self.to_dataframe(res)
 
   def get_sql_and_with_clause(
@@ -309,7 +313,7 @@ class Nxx(DiversityBase):
 
       nxx_col = sql.Column(
           cumsum_col.alias,
-          'COUNTIF({} < %s) + 1' % self.share,
+          'COUNTIF({} < %s - %s) + 1' % (self.share, self.share_tolerance),
       )
       nxx_col.set_alias(self.name_tmpl.format(c.alias_raw))
       nxx_cols.add(nxx_col)
-- 
2.43.0


From 3ef72580caac4061d61b99c2f119e06e170f6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 06/63] fix: MH of a ratio whose numerator and denominator
 share a name

---
 operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 1b024fd..0ba959e 100644
--- a/operations.py
+++ b/operations.py
@@ -1249,10 +1249,11 @@ class MH(Comparison):
     """Computes MH statistics for one Metric."""
     level = self.extra_index[0] if len(
         self.extra_index) == 1 else self.extra_index
+    # The children might have the same name, e.g., if only their filters differ.
+    numer, denom = 'numer', 'denom'
+    df_all = df_all.set_axis([numer, denom], axis=1)
     df_baseline = df_all.xs(self.baseline_key, level=level)
     suffix = '_base'
-    numer = child.children[0].name
-    denom = child.children[1].name
     df_mh = df_all.join(df_baseline, rsuffix=suffix)
     ka, na = df_mh[numer], df_mh[denom]
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
-- 
2.43.0


From ef30d5ae6967364c7afb063caa42308ae7710c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 07/63] fix: cached results are not modified; filtered Sum /
 Count is not cached as Mean

---
 metrics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index 1cb50ce..0df4bda 100644
--- a/metrics.py
+++ b/metrics.py
@@ -355,7 +355,9 @@ class Metric(object):
 
   def get_cached(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-    return self.cache[key]
+    val = self.cache[key]
+    # The result might be modified in place, for example, when being renamed.
+    return val.copy() if isinstance(val, (pd.Series, pd.DataFrame)) else val
 
   def in_cache(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
@@ -1652,12 +1654,13 @@ class CompositeMetric(Metric):
         and isinstance(s, Sum)
         and isinstance(c, Count)
         and s.var == c.var
-        and s.where == c.where
+        # The filters of the children are not in the where of the cache key.
+        and not s.where_
+        and not c.where_
         and not c.distinct
         and self.op(6.0, 2) == 3
     ):
-      where = set(s.where_ or ()).union(self.where_ or ()) or None
-      return Mean(s.var, where=where).get_fingerprint(attr_to_exclude)
+      return Mean(s.var, where=self.where_).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
-- 
2.43.0


From 0538557d90db2d7f247216f5959471d3d421827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 08/63] fix: cache keys with colliding hashes (e.g. -1 and -2)
 are not equal

---
 utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils.py b/utils.py
index a7c29d5..0ba04e8 100644
--- a/utils.py
+++ b/utils.py
@@ -402,17 +402,24 @@ class CacheKey:
     return new_key
 
   def __eq__(self, other):
-    return isinstance(other, CacheKey) and hash(self) == hash(other)
+    # Different attributes can have the same hash, for example, -1 and -2.
+    return (
+        isinstance(other, CacheKey)
+        and self._hashable_fingerprint() == other._hashable_fingerprint()
+    )
 
   def __hash__(self):
-    return hash((
+    return hash(self._hashable_fingerprint())
+
+  def _hashable_fingerprint(self):
+    return (
         self.fingerprint['metric'],
         self.fingerprint['key'],
         self.fingerprint['split_by'],
         self.fingerprint['slice_val'],
         self.fingerprint['where'],
         self.fingerprint['extra_info'],
-    ))
+    )
 
   def __repr__(self):
     return (
-- 
2.43.0


From a44fd42f17202744682edf93ceac632327bf1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 09/63] fix: cached results keep the labels of their own
 children

---
 metrics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 0df4bda..ad83738 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1043,6 +1043,8 @@ class Metric(object):
           c.get_fingerprint(attr_to_exclude) if isinstance(c, Metric) else c
           for c in self.children
       )
+      # The columns of the result can be named after the children.
+      fingerprint['children_names'] = map(utils.get_name, self.children)
     if self.extra_split_by:
       fingerprint['extra_split_by'] = self.extra_split_by
     if self.extra_index != self.extra_split_by:
@@ -1119,7 +1121,13 @@ class MetricList(Metric):
       name = children[0].name
     else:
       name = tmpl.format(', '.join(m.name for m in children))
-    super(MetricList, self).__init__(name, children, where, name_tmpl)
+    super(MetricList, self).__init__(
+        name,
+        children,
+        where,
+        name_tmpl,
+        additional_fingerprint_attrs=['name_tmpl', 'columns'],
+    )
     self.children_return_dataframe = children_return_dataframe
     self.names = [m.name for m in children]
     self.columns = rename_columns
@@ -1414,7 +1422,7 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl'])
+        additional_fingerprint_attrs=['name_tmpl', 'columns'])
     self.op = op
     self.columns = rename_columns
 
-- 
2.43.0


From c9f2d3d49238c6bd3a0e2e9f0b3d0b8c52bb9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 10/63] fix: a missing share in one column does not drop the
 others in CumulativeDistribution

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 0ba959e..252a165 100644
--- a/operations.py
+++ b/operations.py
@@ -324,7 +324,7 @@ class CumulativeDistribution(Distribution):
     if self.order:
       order = self.order if self.ascending else reversed(self.order)
       level = None if len(dist.index.names) == 1 else self.extra_index[0]
-      dist = dist.reindex(order, level=level).dropna()
+      dist = dist.reindex(order, level=level).dropna(how='all')
       res = self.group(dist, split_by).cumsum()
     elif not self.sort_by_values:
       dist.sort_values(self.extra_index, ascending=self.ascending, inplace=True)
-- 
2.43.0


From 92151d3b0a85ba3a3e8d87a39b01fdbfe71f681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 11/63] fix: CumulativeDistribution follows the given order
 when the child is not sorted

---
 operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 252a165..6572ad8 100644
--- a/operations.py
+++ b/operations.py
@@ -324,7 +324,8 @@ class CumulativeDistribution(Distribution):
     if self.order:
       order = self.order if self.ascending else reversed(self.order)
       level = None if len(dist.index.names) == 1 else self.extra_index[0]
-      dist = dist.reindex(order, level=level).dropna(how='all')
+      # reindex() on a level only reorders the rows if the index is sorted.
+      dist = dist.sort_index().reindex(order, level=level).dropna(how='all')
       res = self.group(dist, split_by).cumsum()
     elif not self.sort_by_values:
       dist.sort_values(self.extra_index, ascending=self.ascending, inplace=True)
-- 
2.43.0


From aa4f81f9414da3ae1e1e7896b9c64a7d7733dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 12/63] fix: computations restore the cache key of the metrics
 they use

---
 metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index ad83738..c56b174 100644
--- a/metrics.py
+++ b/metrics.py
@@ -325,19 +325,22 @@ class Metric(object):
       pd.DataFrame, otherwise it could be a base type.
     """
     self.cache = {} if cache is None else cache
+    original_key = self.cache_key
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
       else:
-        self.cache_key = key
         raw_res = compute_fn(df, split_by, *args, **kwargs)
         self.save_to_cache(key, raw_res)
 
       res = self.manipulate(raw_res, melted, return_dataframe, apply_name_tmpl)
       return self.final_compute(res, melted, return_dataframe, split_by, df)
     finally:
+      # The instance might be used elsewhere with a different key.
+      self.cache_key = original_key
       if cache_key is None:  # Only root metric can have None as cache_key
         self.clean_up_cache()
 
-- 
2.43.0


From b0ea963440304ffb71cafd292f6fa9f4aba829e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 13/63] fix: cached leave-one-out and bootstrap replicates are
 not shared across data and filters

The reserved cache keys used for the resampled data only had the unit (and the
sample), so Jackknifes/Bootstraps with different filters, units or original
cache keys read each other's replicates.
---
 operations.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/operations.py b/operations.py
index 6572ad8..0ae4583 100644
--- a/operations.py
+++ b/operations.py
@@ -2262,6 +2262,23 @@ class MetricWithCI(Operation):
   ):
     raise NotImplementedError
 
+  def get_reserved_key(self, *sample):
+    """The raw cache_key of the resampled data.
+
+    The resampled data depend on the data being resampled, which are decided by
+    the original cache_key and the filters applied so far, not only on the unit.
+
+    Args:
+      *sample: What identifies the sample among all the samples of self.
+
+    Returns:
+      A tuple that can be used as a raw cache_key.
+    """
+    key, where = self.cache_key, ()
+    if isinstance(key, utils.CacheKey):
+      key, where = key.key, tuple(sorted(key.where))
+    return ('_RESERVED', type(self).__name__, self.unit, key, where) + sample
+
   def can_precompute(self):
     return False
 
@@ -2368,8 +2385,7 @@ class Jackknife(MetricWithCI):
     Returns:
       None. Two additional results are saved to the cache.
       1. The total sum/count, which is each_bucket summed over self.unit.
-      2. The LOO estimates, which is saved under key
-        ('_RESERVED', 'Jackknife', self.unit).
+      2. The LOO estimates, which is saved under key self.get_reserved_key().
     """
     if not cache_key.split_by:
       return
@@ -2385,7 +2401,7 @@ class Jackknife(MetricWithCI):
     key = cache_key.replace_split_by(split_by)
     self.save_to_cache(key, total)
 
-    key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
+    key = cache_key.replace_key(self.get_reserved_key())
     if not self.in_cache(key):
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
                                                 df)
@@ -2411,7 +2427,7 @@ class Jackknife(MetricWithCI):
         df,
         split_by + [self.unit],
         True,
-        cache_key=('_RESERVED', 'Jackknife', self.unit),
+        cache_key=self.get_reserved_key(),
     )
     return [replicates.unstack(self.unit)]
 
@@ -2427,8 +2443,8 @@ class Jackknife(MetricWithCI):
       return_cache_key: If to return a cache key.
 
     Yields:
-      ('_RESERVED', 'Jackknife', unit, i) if return_cache_key else None, and the
-      leave-i-out DataFrame.
+      self.get_reserved_key(i) if return_cache_key else None, and the leave-i-out
+      DataFrame.
     """
     levels = df[self.unit].unique()
     if len(levels) < 2:
@@ -2436,8 +2452,8 @@ class Jackknife(MetricWithCI):
 
     if not split_by:
       for lvl in levels:
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
-        yield key if return_cache_key else None, df[df[self.unit] != lvl]
+        key = self.get_reserved_key(lvl) if return_cache_key else None
+        yield key, df[df[self.unit] != lvl]
     else:
       df = df.set_index(split_by)
       max_slices = len(df.index.unique())
@@ -2447,8 +2463,8 @@ class Jackknife(MetricWithCI):
         if len(unique_slice_val) != max_slices:
           # Keep only the slices that appeared in the dropped bucket.
           df_rest = df_rest[df_rest.index.isin(unique_slice_val)]
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
-        yield key if return_cache_key else None, df_rest.reset_index()
+        key = self.get_reserved_key(lvl) if return_cache_key else None
+        yield key, df_rest.reset_index()
 
   @staticmethod
   def get_stderrs(bucket_estimates):
@@ -2480,7 +2496,7 @@ class Jackknife(MetricWithCI):
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
-        key = ('_RESERVED', 'Jackknife', self.unit, unit)
+        key = self.get_reserved_key(unit)
         loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
                                      key)
         # If a slice doesn't have the unit in the input data, we should exclude
@@ -2501,7 +2517,7 @@ class Jackknife(MetricWithCI):
             ).join(table, on='meterstick_resample_idx != %s' % self.unit),
             self.where_,
         )
-        key = ('_RESERVED', 'Jackknife', self.unit, tuple(units))
+        key = self.get_reserved_key(tuple(units))
         loo = self.compute_child_sql(
             loo,
             split_by + ['meterstick_resample_idx'],
@@ -2683,7 +2699,7 @@ class Bootstrap(MetricWithCI):
       for _ in range(self.n_replicates):
         resampled = units_grped.sample(frac=1, replace=True).index
         if use_cache:
-          cache_key = tuple(resampled)
+          cache_key = self.get_reserved_key(tuple(resampled))
           if cache_key in sampled:
             yield cache_key, None
           else:
@@ -2850,7 +2866,7 @@ class PoissonBootstrap(Bootstrap):
         weights = self.get_sample_weight(n)
         cache_key = None
         if use_cache:
-          cache_key = tuple(weights)
+          cache_key = self.get_reserved_key(tuple(weights))
           if cache_key in sampled:
             yielded = True
             yield cache_key, None
-- 
2.43.0


From ae4c7e7f98997c61b306726b9f793d522b6982ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 14/63] fix: falsy cache keys like 0 or '' are cache keys too

---
 metrics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index c56b174..e8c3c8d 100644
--- a/metrics.py
+++ b/metrics.py
@@ -328,7 +328,9 @@ class Metric(object):
     original_key = self.cache_key
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     try:
-      key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      key = self.wrap_cache_key(
+          self.cache_key if cache_key is None else cache_key, split_by
+      )
       self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
@@ -345,9 +347,10 @@ class Metric(object):
         self.clean_up_cache()
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
-    if key and not isinstance(key, utils.CacheKey) and self.cache_key:
+    if key is None:
+      key = self.cache_key
+    elif not isinstance(key, utils.CacheKey) and self.cache_key is not None:
       key = self.cache_key.replace_key(key)
-    key = key or self.cache_key
     return utils.CacheKey(self, key, where or self.where_, split_by, slice_val)
 
   def save_to_cache(self, key, val, split_by=None):
-- 
2.43.0


From e955adaa2f00dc8657c81392525dde350c9a2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 15/63] fix: the op of a CompositeMetric and the prefix of a
 MetricWithCI identify them

Metrics with different ops but the same template were considered equal and
shared cached results. Jackknife/Bootstrap with different prefixes shared
cached columns.
---
 metrics.py    | 14 +++++++++++++-
 operations.py |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index e8c3c8d..c5f0c58 100644
--- a/metrics.py
+++ b/metrics.py
@@ -20,6 +20,7 @@ from __future__ import print_function
 import copy
 import datetime
 import itertools
+import types
 from typing import Any, Iterable, List, Optional, Sequence, Text, Union
 
 from meterstick import sql
@@ -1428,10 +1429,21 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl', 'columns'])
+        additional_fingerprint_attrs=['name_tmpl', 'columns', 'op_fingerprint'])
     self.op = op
     self.columns = rename_columns
 
+  @property
+  def op_fingerprint(self):
+    """What identifies op across instances."""
+    op = self.op
+    if isinstance(op, types.FunctionType) and not (
+        op.__closure__ or op.__defaults__ or op.__kwdefaults__
+    ):
+      return op.__code__
+    # A copied Metric must have the same fingerprint.
+    return op if copy.deepcopy(op) is op else None
+
   def rename_columns(self, rename_columns):
     self.columns = rename_columns
     return self
diff --git a/operations.py b/operations.py
index 0ae4583..e150667 100644
--- a/operations.py
+++ b/operations.py
@@ -1670,7 +1670,7 @@ class MetricWithCI(Operation):
     self.unit = unit
     self.confidence = confidence
     additional_fingerprint_attrs = additional_fingerprint_attrs or []
-    additional_fingerprint_attrs += ['unit', 'confidence']
+    additional_fingerprint_attrs += ['unit', 'confidence', 'prefix']
     super(MetricWithCI, self).__init__(
         child,
         name_tmpl,
-- 
2.43.0


From 0b5a4dc763baa681e8b32fa54b4edd5f267eeb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 16/63] fix: Dot and Quantile keep their column when no row is
 left

Dot and Quantile on a DataFrame whose rows are all filtered out returned
columns of the data (or a wrong index) when there were split_by columns.
---
 metrics.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metrics.py b/metrics.py
index c5f0c58..d06576f 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1834,11 +1834,10 @@ class Dot(SimpleMetric):
     if not split_by:
       prod = (df[self.var] * df[self.var2])
       return prod.mean() if self.normalize else prod.sum()
-    if self.normalize:
-      fn = lambda df: (df[self.var] * df[self.var2]).mean()
-    else:
-      fn = lambda df: (df[self.var] * df[self.var2]).sum()
-    return df.groupby(split_by, observed=True).apply(fn)
+    # groupby().apply() would return all the columns if no row is left.
+    prod = df[self.var] * df[self.var2]
+    grped = prod.groupby([df[s] for s in split_by], observed=True)
+    return grped.mean() if self.normalize else grped.sum()
 
   def get_equivalent_without_filter(self, *auxiliary_cols):
     if self.normalize:
@@ -2173,6 +2172,8 @@ class Quantile(SimpleMetric):
       weighted_quantiles /= self.group(aggregated_weight, split_by).sum()
       if split_by:
         weighted_quantiles = weighted_quantiles.reset_index(self.var)
+        if weighted_quantiles.empty:
+          return self.empty_result(weighted_quantiles.index)
         return self.group(weighted_quantiles, split_by).apply(interp)
       else:
         weighted_quantiles = weighted_quantiles.to_frame().reset_index()
@@ -2183,6 +2184,8 @@ class Quantile(SimpleMetric):
     if self.one_quantile:
       return res
     if split_by:
+      if res.empty:
+        return self.empty_result(res.index.droplevel(-1))
       res = res.unstack()
       res.columns = [self.name_tmpl.format(self.var, c) for c in res]
       return res
@@ -2190,6 +2193,13 @@ class Quantile(SimpleMetric):
     res.columns = [self.name_tmpl.format(self.var, c[0]) for c in res]
     return res
 
+  def empty_result(self, index):
+    """The result when there are split_by columns but no row is left."""
+    if self.one_quantile:
+      return pd.Series(index=index, dtype=float)
+    columns = [self.name_tmpl.format(self.var, q) for q in self.quantile]
+    return pd.DataFrame(index=index, columns=columns, dtype=float)
+
   def get_sql_columns(self, local_filter):
     """Get SQL columns."""
     if self.weight:
-- 
2.43.0


From d5f52af8b0cc508cfdc1ea16e26a0b8373d30c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 17/63] fix: jackknife of Correlation ignores incomplete pairs

The metric used for the optimized jackknife and bootstrap used all values of
each variable, even where the other one is missing.
---
 metrics.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index d06576f..50e8d87 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2570,14 +2570,23 @@ class Correlation(SimpleMetric):
         df[self.var2], method=self.method)
 
   def get_equivalent_without_filter(self, *auxiliary_cols):
-    del auxiliary_cols  # unused
     if self.method == 'pearson':
+      var, var2 = auxiliary_cols or (self.var, self.var2)
       return (
-          Cov(self.var, self.var2, True, weight=self.weight)
-          / StandardDeviation(self.var, False, self.weight)
-          / StandardDeviation(self.var2, False, self.weight)
+          Cov(var, var2, True, weight=self.weight)
+          / StandardDeviation(var, False, self.weight)
+          / StandardDeviation(var2, False, self.weight)
       )
 
+  def get_auxiliary_cols(self):
+    if self.method != 'pearson' or self.weight or self.var == self.var2:
+      return ()
+    # A row only counts when both variables are present.
+    return (
+        (self.var, '+', (self.var2, '*', 0)),
+        (self.var2, '+', (self.var, '*', 0)),
+    )
+
   def get_sql_columns(self, local_filter):
     if self.weight:
       return
-- 
2.43.0


From 1fa47ceb038e458b73fff120c7b094457c8486ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 18/63] fix: SQL of MetricList keeps the names and the values
 of its columns (name_tmpl, rename_columns, merged aliases)

---
 metrics.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/metrics.py b/metrics.py
index 50e8d87..12c57ed 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1261,6 +1261,10 @@ class MetricList(Metric):
         mode,
     )
 
+  def to_series_or_number_if_not_operation(self, df):
+    # Keeps the DataFrame because the column is not necessarily named self.name.
+    return df
+
   def compute_children_sql(self, table, split_by, execute, mode=None):
     """The return should be similar to compute_children()."""
     children = []
@@ -1317,7 +1321,11 @@ class MetricList(Metric):
                                   local_filter, with_data)[0]
         for c in self.children
     ]
-    children_sql_copy = copy.deepcopy(children_sql)
+    # Merging might change the aliases of the columns in-place.
+    children_columns = [
+        [(c, c.alias_raw) for c in child_sql.columns]
+        for child_sql in children_sql
+    ]
     incompatible_sqls = sql.Datasources()
     child_table_aliases = []
     for i, child_sql in enumerate(children_sql):
@@ -1330,15 +1338,16 @@ class MetricList(Metric):
     name_tmpl = self.name_tmpl or '{}'
     if len(incompatible_sqls) == 1:
       res = next(iter(incompatible_sqls.children.values()))
-      for c in res.columns:
-        if c not in indexes:
-          c.alias_raw = name_tmpl.format(c.alias_raw)
+      value_columns = [c for c in res.columns if c not in indexes]
+      for c in value_columns:
+        c.alias_raw = name_tmpl.format(c.alias_raw)
+      self.rename_sql_columns(value_columns)
       return res, with_data
 
     columns = sql.Columns(indexes.aliases)
     alias_lookup = {}
     from_data = None
-    for i, child_sql in enumerate(children_sql_copy):
+    for i, child_columns in enumerate(children_columns):
       child_table_alias = child_table_aliases[i]
       if child_table_alias in alias_lookup:
         alias = alias_lookup[child_table_alias]
@@ -1352,27 +1361,30 @@ class MetricList(Metric):
         else:
           join = 'FULL' if indexes else 'CROSS'
           from_data = sql.Join(from_data, alias, join=join, using=indexes)
-      for c in child_sql.columns:
+      for c, alias_raw in child_columns:
         if c not in columns:
           columns.add(
               sql.Column(
                   '%s.%s' % (alias, c.alias),
-                  alias=name_tmpl.format(c.alias_raw),
+                  alias=name_tmpl.format(alias_raw),
               )
           )
 
     query = sql.Sql(columns, from_data)
-    if self.columns:
-      columns = query.columns[len(indexes):]
-      if len(columns) != len(self.columns):
-        raise ValueError(
-            'rename_columns has length %s but there are %s columns in '
-            'the result!' % (len(self.columns), len(columns)))
-      for col, rename in zip(columns, self.columns):
-        col.set_alias(rename)  # Modify in-place.
-
+    self.rename_sql_columns(query.columns[len(indexes):])
     return query, with_data
 
+  def rename_sql_columns(self, columns):
+    """Applies rename_columns to the SQL columns in-place."""
+    if not self.columns:
+      return
+    if len(columns) != len(self.columns):
+      raise ValueError(
+          'rename_columns has length %s but there are %s columns in '
+          'the result!' % (len(self.columns), len(columns)))
+    for col, rename in zip(columns, self.columns):
+      col.set_alias(rename)  # Modify in-place.
+
   def __iter__(self):
     for m in self.children:
       yield m
-- 
2.43.0


From d9e960a40bd970e1ac5c06f768aadc9fdf1c6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 19/63] fix: weighted Quantile in SQL at quantiles that fall on
 a data point

---
 metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index 12c57ed..d6a73cd 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2265,10 +2265,10 @@ class Quantile(SimpleMetric):
         LEAD(val) OVER (PARTITION BY split_by ORDER BY val) AS next_value
       FROM QuantileWeights)
     2. For each quantile q, SELECT
-    SUM(IF((prev_weight IS NULL AND q < weight) OR
+    SUM(IF((prev_weight IS NULL AND q <= weight) OR
              (next_weight IS NULL AND q > weight),
            val,
-           IF(q BETWEEN weight AND next_weight,
+           IF(q > weight AND q <= next_weight,
               (next_value * (q - weight) + (next_weight - q) * val) /
                 (next_weight - weight),
               0))).
@@ -2378,8 +2378,8 @@ class Quantile(SimpleMetric):
       )
       cols.add(
           sql.Column(
-              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} > {w}), {v},
-    IF({q} BETWEEN {w} AND {next_w}, {interp}, 0)))""",
+              f"""SUM(IF(({prev_w} IS NULL AND {q} <= {w}) OR ({next_w} IS NULL AND {q} > {w}), {v},
+    IF({q} > {w} AND {q} <= {next_w}, {interp}, 0)))""",
               alias=f'{self.weight}-weighted quantile({self.var}, {q})',
           )
       )
-- 
2.43.0


From 9753cbba765501f84a92fd57bdb842c4617a7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 20/63] fix: Quantile in SQL rounds to the nearest percentile
 and keeps its name

---
 metrics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index d6a73cd..b2758b3 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2217,11 +2217,10 @@ class Quantile(SimpleMetric):
     if self.weight:
       raise ValueError('SQL for weighted quantile should already be handled!')
     if self.one_quantile:
-      alias = 'quantile(%s, %s)' % (self.var, self.quantile)
       return sql.Column(
           self.var,
-          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % int(100 * self.quantile),
-          alias, local_filter)
+          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % round(100 * self.quantile),
+          self.name, local_filter)
 
     query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
     quantiles = []
@@ -2230,7 +2229,7 @@ class Quantile(SimpleMetric):
       if alias.startswith('0.'):
         alias = 'point_' + alias[2:]
       quantiles.append(
-          sql.Column(self.var, query % int(100 * q), alias, local_filter))
+          sql.Column(self.var, query % round(100 * q), alias, local_filter))
     return sql.Columns(quantiles)
 
   def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
-- 
2.43.0


From 5b6785c413fcaa8cf7e43f00384c46e8d59ee849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 21/63] fix: Distribution in SQL keeps the index columns that
 its child adds

---
 operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.py b/operations.py
index e150667..ba30b4a 100644
--- a/operations.py
+++ b/operations.py
@@ -261,6 +261,9 @@ class Distribution(Operation):
     for c in child_sql.columns:
       if c.alias in groupby:
         continue
+      if c.alias in indexes.aliases:  # An index that the child adds.
+        groupby.add(c.alias)
+        continue
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-- 
2.43.0


From 0bc868e7472108931921e070a713203fbb63a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 22/63] fix: Entropy in SQL of zero shares

---
 diversity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diversity.py b/diversity.py
index d36d6e8..8842315 100644
--- a/diversity.py
+++ b/diversity.py
@@ -128,7 +128,7 @@ class Entropy(DiversityBase):
 
       col = sql.Column(
           (c.alias, c.alias),
-          '-SUM({} * LOG({}))',
+          '-SUM({} * SAFE.LOG({}))',
       )
       col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
-- 
2.43.0


From b654597c4f9f66c4f32e640e0f51be1366537719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 23/63] fix: Distribution in SQL keeps the index columns that
 its child groups by

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index ba30b4a..e1a55f8 100644
--- a/operations.py
+++ b/operations.py
@@ -258,7 +258,7 @@ class Distribution(Operation):
     child_table_alias = with_data.merge(child_table)
     groupby = sql.Columns(all_split_by.aliases)
     columns = sql.Columns()
-    for c in child_sql.columns:
+    for c in child_sql.all_columns:
       if c.alias in groupby:
         continue
       if c.alias in indexes.aliases:  # An index that the child adds.
-- 
2.43.0


From ff6fa2956adacc9a12f83301a907a48572c5347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 24/63] fix: diversity indices in SQL over metrics that need
 joins

---
 diversity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diversity.py b/diversity.py
index 8842315..5e0e2f1 100644
--- a/diversity.py
+++ b/diversity.py
@@ -38,8 +38,10 @@ class DiversityBase(operations.Distribution):
   def get_distribution_sql_and_columns(
       self, table, split_by, global_filter, indexes, local_filter, with_data
   ):
+    # The columns to normalize over are not in the final indexes.
+    dist_indexes = sql.Columns(indexes).add(self.extra_split_by)
     dist_sql, with_data = super(DiversityBase, self).get_sql_and_with_clause(
-        table, split_by, global_filter, indexes, local_filter, with_data
+        table, split_by, global_filter, dist_indexes, local_filter, with_data
     )
     # Remove 'Distribution of ' in column names.
     for c in dist_sql.columns:
-- 
2.43.0


From e6d3b673d6a80128ab0fd3b2840c6b4ec743ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 25/63] fix: MH and merged queries in SQL refer to the right
 columns when names collide

---
 metrics.py    | 47 +++++++++++++++++++++++++-------
 operations.py | 75 +++++++++++++++------------------------------------
 sql.py        |  5 ++--
 3 files changed, 63 insertions(+), 64 deletions(-)

diff --git a/metrics.py b/metrics.py
index b2758b3..ac5ce77 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1312,6 +1312,28 @@ class MetricList(Metric):
       The global with_data which holds all datasources we need in the WITH
         clause.
     """
+    return self.get_sql_and_child_columns(table, split_by, global_filter,
+                                          indexes, local_filter, with_data)[:2]
+
+  def get_sql_and_child_columns(self, table, split_by, global_filter, indexes,
+                                local_filter, with_data):
+    """Same as get_sql_and_with_clause() but also locates children's columns.
+
+    Args:
+      table: See get_sql_and_with_clause().
+      split_by: See get_sql_and_with_clause().
+      global_filter: See get_sql_and_with_clause().
+      indexes: See get_sql_and_with_clause().
+      local_filter: See get_sql_and_with_clause().
+      with_data: See get_sql_and_with_clause().
+
+    Returns:
+      The SQL instance for metric, without the WITH clause component.
+      The global with_data which holds all datasources we need in the WITH
+        clause.
+      A list that for every child has the positions of its value columns in the
+        columns of the SQL instance. Different children can share columns.
+    """
     utils.get_extra_idx(self)  # Check if indexes are compatible.
     local_filter = (
         sql.Filters(self.where_).add(local_filter).remove(global_filter)
@@ -1338,14 +1360,20 @@ class MetricList(Metric):
     name_tmpl = self.name_tmpl or '{}'
     if len(incompatible_sqls) == 1:
       res = next(iter(incompatible_sqls.children.values()))
+      positions = [
+          [res.columns.aliases.index(c.alias) for c, _ in child_columns
+           if c not in indexes]
+          for child_columns in children_columns
+      ]
       value_columns = [c for c in res.columns if c not in indexes]
       for c in value_columns:
         c.alias_raw = name_tmpl.format(c.alias_raw)
       self.rename_sql_columns(value_columns)
-      return res, with_data
+      return res, with_data, positions
 
     columns = sql.Columns(indexes.aliases)
     alias_lookup = {}
+    positions = []
     from_data = None
     for i, child_columns in enumerate(children_columns):
       child_table_alias = child_table_aliases[i]
@@ -1361,18 +1389,19 @@ class MetricList(Metric):
         else:
           join = 'FULL' if indexes else 'CROSS'
           from_data = sql.Join(from_data, alias, join=join, using=indexes)
+      positions.append([])
       for c, alias_raw in child_columns:
-        if c not in columns:
-          columns.add(
-              sql.Column(
-                  '%s.%s' % (alias, c.alias),
-                  alias=name_tmpl.format(alias_raw),
-              )
-          )
+        if c in indexes:
+          continue
+        column = sql.Column(
+            '%s.%s' % (alias, c.alias), alias=name_tmpl.format(alias_raw)
+        )
+        columns.add(column)
+        positions[-1].append(columns.aliases.index(column.alias))
 
     query = sql.Sql(columns, from_data)
     self.rename_sql_columns(query.columns[len(indexes):])
-    return query, with_data
+    return query, with_data, positions
 
   def rename_sql_columns(self, columns):
     """Applies rename_columns to the SQL columns in-place."""
diff --git a/operations.py b/operations.py
index e1a55f8..6035894 100644
--- a/operations.py
+++ b/operations.py
@@ -1365,18 +1365,19 @@ class MH(Comparison):
         sql.Filters(self.where_).add(local_filter).remove(global_filter)
     )
 
-    if isinstance(child, metrics.MetricList):
-      grandchildren = []
-      for m in child:
-        grandchildren.append(metrics.MetricList(m.children, where=m.where_))
-      util_metric = metrics.MetricList(grandchildren, where=child.where_)
-    else:
-      util_metric = metrics.MetricList(child.children, where=child.where_)
+    is_list = isinstance(child, metrics.MetricList)
+    ratios = child.children if is_list else [child]
+    # The numerator and the denominator of every ratio.
+    util_metric = metrics.MetricList([
+        metrics.MetricList([m], where=ratio.where_)
+        for ratio in ratios
+        for m in ratio.children
+    ], where=child.where_ if is_list else None)
 
     cond_cols = sql.Columns(self.extra_index)
     groupby = sql.Columns(split_by).add(self.extra_split_by)
     util_indexes = sql.Columns(indexes).add(self.stratified_by)
-    raw_table_sql, with_data = util_metric.get_sql_and_with_clause(
+    raw_table_sql, with_data, positions = util_metric.get_sql_and_child_columns(
         table, groupby, global_filter, util_indexes, local_filter, with_data)
 
     raw_table = sql.Datasource(raw_table_sql, 'MHRaw')
@@ -1411,51 +1412,19 @@ class MH(Comparison):
       denom=f'COALESCE(SUM({denominator}), 0)')} - 100"""
     columns = sql.Columns()
     alias_tmpl = self.name_tmpl
-    # The columns might get consolidated and have different aliases. We need to
-    # find them by reconstruction. Reusing the with_data in reconstruction will
-    # make sure the columns get renamed the same way as in raw_table_sql.
-    if isinstance(child, metrics.MetricList):
-      for c in child:
-        with_data2 = copy.deepcopy(with_data)
-        util = metrics.MetricList(c.children[:1], where=c.where_)
-        numer_sql, with_data2 = util.get_sql_and_with_clause(
-            table, groupby, global_filter, util_indexes, local_filter,
-            with_data2)
-        with_data2.merge(sql.Datasource(numer_sql))
-        numer = numer_sql.columns[-1].alias
-        with_data2 = copy.deepcopy(with_data)
-        util = metrics.MetricList(c.children[1:], where=c.where_)
-        denom_sql, with_data2 = util.get_sql_and_with_clause(
-            table, groupby, global_filter, util_indexes, local_filter,
-            with_data2)
-        with_data2.merge(sql.Datasource(denom_sql))
-        denom = denom_sql.columns[-1].alias
-        columns.add(
-            sql.Column(
-                col_tmpl % {
-                    'numer': numer,
-                    'denom': denom
-                },
-                alias=alias_tmpl.format(c.name)))
-    else:
-      with_data2 = copy.deepcopy(with_data)
-      util = metrics.MetricList(child.children[:1], where=child.where_)
-      numer_sql, with_data2 = util.get_sql_and_with_clause(
-          table, groupby, global_filter, util_indexes, local_filter, with_data2)
-      with_data2.merge(sql.Datasource(numer_sql))
-      numer = numer_sql.columns[-1].alias
-      with_data2 = copy.deepcopy(with_data)
-      util = metrics.MetricList(child.children[1:], where=child.where_)
-      denom_sql, with_data2 = util.get_sql_and_with_clause(
-          table, groupby, global_filter, util_indexes, local_filter, with_data2)
-      with_data2.merge(sql.Datasource(denom_sql))
-      denom = denom_sql.columns[-1].alias
-      columns = sql.Column(
-          col_tmpl % {
-              'numer': numer,
-              'denom': denom,
-          },
-          alias=alias_tmpl.format(child.name))
+    # The columns might get consolidated and have different aliases so we need to
+    # look them up.
+    for i, ratio in enumerate(ratios):
+      numer, denom = positions[2 * i][-1], positions[2 * i + 1][-1]
+      columns.add(
+          sql.Column(
+              col_tmpl % {
+                  'numer': raw_table_sql.columns[numer].alias,
+                  'denom': raw_table_sql.columns[denom].alias,
+              },
+              alias=alias_tmpl.format(ratio.name),
+          )
+      )
 
     using = indexes.difference(cond_cols).add(self.stratified_by)
     return (
diff --git a/sql.py b/sql.py
index 0240477..e1b84c3 100644
--- a/sql.py
+++ b/sql.py
@@ -456,9 +456,10 @@ class Columns(SqlComponents):
     if isinstance(children, str):
       return self.add(Column(children))
     alias, expr = children.alias, children.expression
-    found = self.get_alias(expr)
+    found = [c for c in self if c.expression == expr]
     if found:
-      children.set_alias(found)
+      children.set_alias(found[0].alias_raw)
+      children.suffix = found[0].suffix
       return self
     if alias not in self.aliases:
       self.children.append(children)
-- 
2.43.0


From 07009a673f84fb6e85a3bfec03fff75e09c04021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 26/63] fix: SQL of nested arithmetic between metrics with
 different indexes

---
 metrics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index ac5ce77..9f7c495 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1630,10 +1630,18 @@ class CompositeMetric(Metric):
       query.columns = sql.Columns(
           (c if c in indexes else op(c, constant) for c in query.columns))
     else:
+      # A child can have fewer extra indexes than the other.
+      extra_idx = [
+          utils.get_extra_idx(c, return_superset=True) for c in self.children
+      ]
+      indexes0, indexes1 = (
+          indexes.difference(set(other).difference(own, split_by.aliases))
+          for own, other in zip(extra_idx, extra_idx[::-1])
+      )
       query0, with_data = self.children[0].get_sql_and_with_clause(
-          table, split_by, global_filter, indexes, local_filter, with_data)
+          table, split_by, global_filter, indexes0, local_filter, with_data)
       query1, with_data = self.children[1].get_sql_and_with_clause(
-          table, split_by, global_filter, indexes, local_filter, with_data)
+          table, split_by, global_filter, indexes1, local_filter, with_data)
       idx_aliases = sql.Columns(indexes).aliases
       val_cols0 = [c for c in query0.columns if c.alias not in idx_aliases]
       val_cols1 = [c for c in query1.columns if c.alias not in idx_aliases]
-- 
2.43.0


From 7c204b9af938f564323c5562b4699022249d40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 27/63] fix: TopK and Nxx in SQL refer to the columns of the
 merged queries

---
 diversity.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/diversity.py b/diversity.py
index 5e0e2f1..7323dcb 100644
--- a/diversity.py
+++ b/diversity.py
@@ -202,7 +202,7 @@ class TopK(DiversityBase):
         sql.Columns(split_by.aliases).add(self.extra_split_by).aliases
     )
     top_k_array_columns = sql.Columns()
-    top_k_sum_columns = sql.Columns(indexes.aliases)
+    names = []
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
@@ -213,17 +213,21 @@ class TopK(DiversityBase):
       )
       top_k_array_col.set_alias(c.alias_raw)
       top_k_array_columns.add(top_k_array_col)
-      top_k_sum_col = sql.Column(
-          top_k_array_col.alias,
-          '(SELECT SUM(x) FROM UNNEST({}) AS x)',
-      )
-      top_k_sum_col.set_alias(self.name_tmpl.format(c.alias_raw))
-      top_k_sum_columns.add(top_k_sum_col)
+      names.append(c.alias_raw)
     top_k_sql = sql.Sql(
         top_k_array_columns, child_table_alias, groupby=indexes.aliases
     )
     top_k_table = sql.Datasource(top_k_sql, 'TopKArrays')
+    # Merging might change the aliases of top_k_array_columns in-place.
     top_k_table_alias = with_data.merge(top_k_table)
+    top_k_sum_columns = sql.Columns(indexes.aliases)
+    for name, top_k_array_col in zip(names, top_k_array_columns):
+      top_k_sum_col = sql.Column(
+          top_k_array_col.alias,
+          '(SELECT SUM(x) FROM UNNEST({}) AS x)',
+      )
+      top_k_sum_col.set_alias(self.name_tmpl.format(name))
+      top_k_sum_columns.add(top_k_sum_col)
     return sql.Sql(top_k_sum_columns, top_k_table_alias), with_data
 
 
@@ -297,8 +301,8 @@ class Nxx(DiversityBase):
     all_split_by = (
         sql.Columns(split_by.aliases).add(self.extra_split_by).aliases
     )
-    cumsum_cols = sql.Columns(indexes.aliases)
-    nxx_cols = sql.Columns()
+    cumsum_cols = sql.Columns()
+    names = []
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
@@ -312,14 +316,19 @@ class Nxx(DiversityBase):
       )
       cumsum_col.set_alias('Cumulative %s' % c.alias_raw)
       cumsum_cols.add(cumsum_col)
-
+      names.append(c.alias_raw)
+    cumsum_sql = sql.Sql(
+        sql.Columns(indexes.aliases).add(cumsum_cols), child_table_alias
+    )
+    cumsum_table = sql.Datasource(cumsum_sql, 'CumulativeDistribution')
+    # Merging might change the aliases of cumsum_cols in-place.
+    cumsum_alias = with_data.merge(cumsum_table)
+    nxx_cols = sql.Columns()
+    for name, cumsum_col in zip(names, cumsum_cols):
       nxx_col = sql.Column(
           cumsum_col.alias,
           'COUNTIF({} < %s - %s) + 1' % (self.share, self.share_tolerance),
       )
-      nxx_col.set_alias(self.name_tmpl.format(c.alias_raw))
+      nxx_col.set_alias(self.name_tmpl.format(name))
       nxx_cols.add(nxx_col)
-    cumsum_sql = sql.Sql(cumsum_cols, child_table_alias)
-    cumsum_table = sql.Datasource(cumsum_sql, 'CumulativeDistribution')
-    cumsum_alias = with_data.merge(cumsum_table)
     return sql.Sql(nxx_cols, cumsum_alias, groupby=indexes.aliases), with_data
-- 
2.43.0


From d3472c28a7ba45fa36899e0df133d54e7fa9468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 28/63] fix: SQL keeps the same metric under different names

---
 sql.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sql.py b/sql.py
index e1b84c3..a51b505 100644
--- a/sql.py
+++ b/sql.py
@@ -436,8 +436,10 @@ class Columns(SqlComponents):
 
     If the Column already exists with the same alias. Do nothing.
     If neither the Column nor the alias exist. Add it.
-    If the Column exists but with a different alias. Don't add the Column but
+    If the Column exists but its alias got a suffix. Don't add the Column but
     set its alias to the existing one's.
+    If the Column exists but under a different name. Add it, because it's another
+    column to users.
     If the Column doesn't exists but the alias exists. Give the Column
     a new alias by adding a unique suffix. Then add it under the new alias.
 
@@ -456,9 +458,12 @@ class Columns(SqlComponents):
     if isinstance(children, str):
       return self.add(Column(children))
     alias, expr = children.alias, children.expression
-    found = [c for c in self if c.expression == expr]
+    found = [
+        c
+        for c in self
+        if c.expression == expr and c.alias_raw == children.alias_raw
+    ]
     if found:
-      children.set_alias(found[0].alias_raw)
       children.suffix = found[0].suffix
       return self
     if alias not in self.aliases:
-- 
2.43.0


From 065b77acc58eb9d9bb82a8b0bd6d336a3e05fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 29/63] fix: merging SQL queries keeps names that look the same
 after escaping

---
 sql.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sql.py b/sql.py
index a51b505..36e6368 100644
--- a/sql.py
+++ b/sql.py
@@ -764,10 +764,8 @@ class Sql(SqlComponent):
     """
     if not isinstance(other, Sql):
       raise ValueError('Expected a Sql instance but got %s!' % type(other))
-    if self == other:
-      return True
     if not is_compatible(self, other):
-      return False
+      return self == other
     self.columns.add(other.columns)
     return True
 
-- 
2.43.0


From c24e8216125a13b308c538321480e6998a203023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 30/63] fix: CUPED and PrePostChange with covariates named like
 the metric or without strata

---
 operations.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/operations.py b/operations.py
index 6035894..af3849d 100644
--- a/operations.py
+++ b/operations.py
@@ -765,8 +765,11 @@ class PrePostChange(PercentChange):
     else:
       covariates = covariates - covariates.mean()
     # Align child with covariates in case there is any missing slices.
-    covariates = covariates.reorder_levels(child.index.names)
+    if isinstance(child.index, pd.MultiIndex):
+      covariates = covariates.reorder_levels(child.index.names)
     aligned = pd.concat([child, covariates], axis=1)
+    # The columns might have same names, e.g., if only their filters differ.
+    aligned.columns = ['col_%s' % i for i in range(aligned.shape[1])]
     len_child = child.shape[1]
     lm = linear_model.LinearRegression()
 
@@ -807,7 +810,9 @@ class PrePostChange(PercentChange):
         ]
         return pd.DataFrame([adjusted], columns=child_slice.columns)
 
-    return Adjust('').compute_on(aligned, split_by + self.extra_index)
+    adjusted = Adjust('').compute_on(aligned, split_by + self.extra_index)
+    adjusted.columns = child.columns
+    return adjusted
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(PrePostChange,
@@ -996,8 +1001,11 @@ class CUPED(AbsoluteChange):
     else:
       covariates = covariates - covariates.mean()
     # Align child with covariates in case there is any missing slices.
-    covariates = covariates.reorder_levels(child.index.names)
+    if isinstance(child.index, pd.MultiIndex):
+      covariates = covariates.reorder_levels(child.index.names)
     aligned = pd.concat([child, covariates], axis=1)
+    # The columns might have same names, e.g., if only their filters differ.
+    aligned.columns = ['col_%s' % i for i in range(aligned.shape[1])]
     len_child = child.shape[1]
     lm = linear_model.LinearRegression()
     extra_index = self.extra_index
@@ -1038,7 +1046,9 @@ class CUPED(AbsoluteChange):
           adjusted[c] = adjusted[c] - adjusted.iloc[:, len_child:].dot(theta)
         return adjusted.iloc[:, :len_child]
 
-    return Adjust('').compute_on(aligned, split_by)
+    adjusted = Adjust('').compute_on(aligned, split_by)
+    adjusted.columns = child.columns
+    return adjusted
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
     child = super(CUPED, self).compute_children_sql(table, split_by, execute,
-- 
2.43.0


From 210896296ce2543ab5853be6c5079298fe351f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 31/63] fix: SQL arithmetic with indexes given as a list

---
 metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 9f7c495..ba76c62 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1634,8 +1634,11 @@ class CompositeMetric(Metric):
       extra_idx = [
           utils.get_extra_idx(c, return_superset=True) for c in self.children
       ]
+      split_by_aliases = sql.Columns(split_by).aliases
       indexes0, indexes1 = (
-          indexes.difference(set(other).difference(own, split_by.aliases))
+          sql.Columns(indexes).difference(
+              set(other).difference(own, split_by_aliases)
+          )
           for own, other in zip(extra_idx, extra_idx[::-1])
       )
       query0, with_data = self.children[0].get_sql_and_with_clause(
-- 
2.43.0


From 6fd707c9cb7ed1d5c7610768c6663825eeca3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 32/63] fix: CUPED and PrePostChange in SQL find the columns of
 their children

---
 operations.py | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/operations.py b/operations.py
index af3849d..a1955bd 100644
--- a/operations.py
+++ b/operations.py
@@ -871,24 +871,35 @@ class PrePostChange(PercentChange):
     )
     all_split_by = sql.Columns(split_by).add(self.extra_split_by)
     all_indexes = sql.Columns(split_by).add(self.extra_index)
-    child_sql, with_data = self.children[0].get_sql_and_with_clause(
-        table, all_split_by, global_filter, indexes, local_filter, with_data)
+    child_indexes = sql.Columns(indexes).add(all_split_by)
+    child_sql, with_data, positions = self.children[0].get_sql_and_child_columns(
+        table,
+        all_split_by,
+        global_filter,
+        child_indexes,
+        local_filter,
+        with_data,
+    )
     child_table = sql.Datasource(child_sql, 'PrePostRaw')
     child_table_alias = with_data.merge(child_table)
 
     split_by = split_by.aliases
     all_split_by = all_split_by.aliases
     all_indexes = all_indexes.aliases
-    cols = [
+    child_columns = [child_sql.columns[i] for i in positions[0]]
+    covariate = child_sql.columns[positions[1][0]].alias
+    cols = sql.Columns(
         sql.Column(c.alias, alias=c.alias_raw)
-        for c in child_sql.all_columns[:-1]
-    ]
-    covariate = child_sql.all_columns[-1].alias
+        for c in child_sql.all_columns
+        if c.alias in all_split_by
+    )
+    cols.add([sql.Column(c.alias, alias=c.alias_raw) for c in child_columns])
     covariate_mean = sql.Column(covariate, 'AVG({})', partition=split_by)
     covariate_centered = (sql.Column(covariate) - covariate_mean).set_alias(
         covariate
     )
-    cols.append(covariate_centered)
+    cols.add(covariate_centered)
+    covariate = covariate_centered.alias
     covariate_centered_sql = sql.Sql(cols, child_table_alias)
     covariate_centered_table = sql.Datasource(
         covariate_centered_sql, 'PrePostcovariateCentered'
@@ -896,9 +907,7 @@ class PrePostChange(PercentChange):
     covariate_centered_table_alias = with_data.merge(covariate_centered_table)
 
     to_adjust = []
-    for c in child_sql.all_columns[:-1]:
-      if c.alias in all_split_by:
-        continue
+    for c in child_columns:
       adjusted = metrics.Mean(c.alias) - metrics.Mean(covariate) * metrics.Cov(
           c.alias, covariate
       ) / metrics.Variance(covariate)
@@ -1111,19 +1120,23 @@ class CUPED(AbsoluteChange):
     )
     all_split_by = sql.Columns(split_by).add(self.extra_split_by)
     all_indexes = sql.Columns(split_by).add(self.extra_index)
-    child_sql, with_data = self.children[0].get_sql_and_with_clause(
-        table, all_split_by, global_filter, indexes, local_filter, with_data)
+    child_indexes = sql.Columns(indexes).add(all_split_by)
+    child_sql, with_data, positions = self.children[0].get_sql_and_child_columns(
+        table,
+        all_split_by,
+        global_filter,
+        child_indexes,
+        local_filter,
+        with_data,
+    )
     child_table = sql.Datasource(child_sql, 'CUPEDRaw')
     child_table_alias = with_data.merge(child_table)
 
     split_by = split_by.aliases
     all_split_by = all_split_by.aliases
     all_indexes = all_indexes.aliases
-    cols = []
-    for c in child_sql.columns:
-      if c.alias not in all_split_by:
-        cols.append(c)
-    covariate = cols.pop().alias
+    cols = [child_sql.columns[i] for i in positions[0]]
+    covariate = child_sql.columns[positions[1][0]].alias
     theta = metrics.MetricList(
         [
             (
-- 
2.43.0


From 7b2e40206f5520d8e9a08a68d65cec6e4e920878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 33/63] fix: CUPED and PrePostChange on SQL over several
 metrics or covariates

---
 operations.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/operations.py b/operations.py
index a1955bd..5aaff3e 100644
--- a/operations.py
+++ b/operations.py
@@ -815,10 +815,14 @@ class PrePostChange(PercentChange):
     return adjusted
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
-    child = super(PrePostChange,
-                  self).compute_children_sql(table, split_by, execute, mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    child, covariates = self.compute_util_metric_on_sql(
+        self.children[0],
+        table,
+        split_by + self.extra_split_by,
+        execute,
+        mode=mode,
+        return_dataframe=False,
+    )
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
@@ -1060,10 +1064,14 @@ class CUPED(AbsoluteChange):
     return adjusted
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
-    child = super(CUPED, self).compute_children_sql(table, split_by, execute,
-                                                    mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    child, covariates = self.compute_util_metric_on_sql(
+        self.children[0],
+        table,
+        split_by + self.extra_split_by,
+        execute,
+        mode=mode,
+        return_dataframe=False,
+    )
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
-- 
2.43.0


From 2da45839389f0eed1e8aa036ed7895060b488121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 34/63] fix: leave-one-out SQL handles units missing in slices
 of nested splits

The precomputed leave-one-out totals were NULL instead of the total when a
unit did not appear in a slice added by an Operation without an index of its
own, for example HHI, or when it only had missing values in a slice.
---
 operations.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/operations.py b/operations.py
index 5aaff3e..f69b6b9 100644
--- a/operations.py
+++ b/operations.py
@@ -2100,8 +2100,6 @@ class MetricWithCI(Operation):
       # When each unit only has one row after preaggregation, we sample by rows.
       if not utils.get_extra_split_by(equiv, return_superset=True):
         equiv.unit = None
-    else:
-      equiv.has_local_filter = any([l.where for l in leaf])
     return equiv.to_sql(preagg, split_by)
 
   def get_sql_and_with_clause(
@@ -3400,10 +3398,7 @@ def get_jackknife_data_fast(
     split_by,
     extra_index,
     unit AS meterstick_resample_idx,
-    # if needs_adjustment
     total.`sum(X)` - COALESCE(unit.`sum(X)`, 0) AS `sum(X)`
-    # else
-    total.`sum(X)` - unit.`sum(X)` AS `sum(X)`
   FROM
   TotalCount AS total
   RIGHT JOIN  # Or CROSS JOIN (SELECT DISTINCT unit FROM UnitSliceCount)
@@ -3437,13 +3432,9 @@ def get_jackknife_data_fast(
 
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
-  # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = getattr(
-      metric, 'has_local_filter', False
-  ) or split_by != sql.Columns(indexes)
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
-      metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+      metric, columns_to_preagg, columns_in_loo, global_filter
   )
   metric.children = modified_jk.children
 
@@ -3494,7 +3485,6 @@ def modify_descendants_for_jackknife_fast(
     columns_to_preagg,
     columns_in_loo,
     global_filter,
-    needs_adjustment,
 ):
   """Gets the columns for leaf Metrics and modify them for fast Jackknife SQL.
 
@@ -3528,8 +3518,6 @@ def modify_descendants_for_jackknife_fast(
     columns_in_loo: A global container for all metric columns we need in LOO
       table. It's being added in-place.
     global_filter: The filters that can be applied to the whole Metric tree.
-    needs_adjustment: If we need to adjust the slices. See
-      utils.adjust_slices_for_loo() for more discussions.
 
   Returns:
     The modified metric tree.
@@ -3540,10 +3528,9 @@ def modify_descendants_for_jackknife_fast(
   metric = copy.deepcopy(metric)
   local_filter = sql.Filters(metric.where_)
   metric.where = None
-  if needs_adjustment:
-    tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
-  else:
-    tmpl = 'total_table.%s - unit_slice_table.%s'
+  # A unit might be missing, or only have missing values, in a slice. See
+  # utils.adjust_slices_for_loo() for more discussions.
+  tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
   if isinstance(metric, (metrics.Sum, metrics.Count)):
     filters = sql.Filters(local_filter).remove(global_filter)
     c = sql.Column(metric.var).alias
@@ -3561,7 +3548,7 @@ def modify_descendants_for_jackknife_fast(
   new_children = []
   for m in metric.children:
     modified = modify_descendants_for_jackknife_fast(
-        m, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+        m, columns_to_preagg, columns_in_loo, global_filter
     )
     new_children.append(modified)
   metric.children = new_children
-- 
2.43.0


From b6321c7c8f5bc49546bb05fe63c9931ee341ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 35/63] fix: mixed mode Jackknife tolerates leave-one-out data
 that is too sparse

A replicate in which, for example, the baseline of a change does not exist
failed the whole computation in the mixed mode while it is skipped, with a
warning, when computing on a DataFrame.
---
 operations.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index f69b6b9..ba65ff1 100644
--- a/operations.py
+++ b/operations.py
@@ -2057,6 +2057,19 @@ class MetricWithCI(Operation):
     """The return should be similar to compute_children()."""
     raise NotImplementedError
 
+  def compute_replicate_sql(self, table, split_by, execute, melted, mode, key):
+    """Computes the child on resampled data, None if the data is too sparse."""
+    try:
+      res = self.compute_child_sql(table, split_by, execute, melted, mode, key)
+      return None if res.empty else res
+    except KeyError as e:  # For example, the baseline is not in the sample.
+      print(
+          'Warning: Failed on%s sample data for reason %s. If you see many '
+          'such failures, your data might be too sparse.'
+          % (self.name_tmpl.format(''), repr(e))
+      )
+      return None
+
   def to_sql(self, table, split_by=None):
     if not isinstance(self, (Jackknife, Bootstrap)):
       raise NotImplementedError
@@ -2498,8 +2511,11 @@ class Jackknife(MetricWithCI):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
         key = self.get_reserved_key(unit)
-        loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
-                                     key)
+        loo = self.compute_replicate_sql(
+            loo_sql, split_by, execute, False, mode, key
+        )
+        if loo is None:
+          continue
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
@@ -2519,7 +2535,7 @@ class Jackknife(MetricWithCI):
             self.where_,
         )
         key = self.get_reserved_key(tuple(units))
-        loo = self.compute_child_sql(
+        loo = self.compute_replicate_sql(
             loo,
             split_by + ['meterstick_resample_idx'],
             execute,
@@ -2527,6 +2543,8 @@ class Jackknife(MetricWithCI):
             mode,
             key,
         )
+        if loo is None:
+          continue
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
-- 
2.43.0


From 3cbef99c58627e0c8f45f2002fdeec850f967635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:56 +0000
Subject: [PATCH 36/63] fix: Bootstrap in the mixed mode computes a replicate
 on the same draws

The leaf Metrics were computed in different queries, each of which made its
own random draws, so a replicate of, for example, a Ratio had its numerator and
denominator computed on different resamples.
---
 operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.py b/operations.py
index ba65ff1..b333e0f 100644
--- a/operations.py
+++ b/operations.py
@@ -2731,6 +2731,9 @@ class Bootstrap(MetricWithCI):
       self, table, split_by, execute, mode=None, batch_size=None
   ):
     """Compute the children on resampled data in SQL."""
+    # Every query makes its own random draws so we cannot let the leaf Metrics
+    # be computed in different queries.
+    mode = None if mode == 'mixed' else mode
     batch_size = batch_size or 1000
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
-- 
2.43.0


From 3489e8291ed730d127955d8fd808732b33e635be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 37/63] fix: Bootstrap in the mixed mode tolerates resamples
 that are too sparse

A batch in which no resample gives any result, for example because the baseline
of a change is not in it, failed the whole computation.
---
 operations.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/operations.py b/operations.py
index b333e0f..95002db 100644
--- a/operations.py
+++ b/operations.py
@@ -2753,11 +2753,20 @@ class Bootstrap(MetricWithCI):
     resampled = with_data.children.popitem()[1]
     resampled.with_data = with_data
     replicates = []
-    for _ in range(self.n_replicates // batch_size):
+
+    def add_replicates(resampled):
       bst = self.children[0].compute_on_sql(
-          resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
+          resampled,
+          ['meterstick_resample_idx'] + split_by,
+          execute,
+          mode=mode,
       )
-      replicates.append(bst.unstack('meterstick_resample_idx'))
+      if not bst.empty:  # The resamples might be too sparse.
+        bst = utils.melt(bst)
+        replicates.append(bst.unstack('meterstick_resample_idx'))
+
+    for _ in range(self.n_replicates // batch_size):
+      add_replicates(resampled)
     util_metric.n_replicates = self.n_replicates % batch_size
     if util_metric.n_replicates:
       _, with_data2 = util_metric.get_resampled_data_sql(
@@ -2769,10 +2778,7 @@ class Bootstrap(MetricWithCI):
       )
       resampled = with_data2.children.popitem()[1]
       resampled.with_data = with_data2
-      bst = self.children[0].compute_on_sql(
-          resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
-      )
-      replicates.append(bst.unstack('meterstick_resample_idx'))
+      add_replicates(resampled)
     return replicates
 
   def get_resampled_data_sql(
-- 
2.43.0


From b25a08edf7382631896ea39e1461ec433acf5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:24 +0000
Subject: [PATCH 38/63] fix: PoissonBootstrap in the mixed mode makes new draws
 in every batch

The weights of the units are decided by the index of the resample, which started
from one in every batch, so all batches had the same replicates.
---
 operations.py | 48 +++++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/operations.py b/operations.py
index 95002db..d267ab8 100644
--- a/operations.py
+++ b/operations.py
@@ -2646,6 +2646,7 @@ class Bootstrap(MetricWithCI):
         **kwargs,
     )
     self.n_replicates = n_replicates
+    self.resample_idx_offset = 0
 
   def compute_slices(self, df, split_by=None):
     """Computes Bootstrap with unit with precomputation when possible.
@@ -2737,24 +2738,24 @@ class Bootstrap(MetricWithCI):
     batch_size = batch_size or 1000
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
-    util_metric.n_replicates = batch_size
     util_metric.confidence = None
     with_data = sql.Datasources()
     if not sql.Datasource(table).is_table:
       table = with_data.add(sql.Datasource(table, 'BootstrapData'))
-    with_data2 = copy.deepcopy(with_data)
-    _, with_data = util_metric.get_resampled_data_sql(
-        table,
-        sql.Columns(split_by),
-        global_filter,
-        None,
-        with_data,
-    )
-    resampled = with_data.children.popitem()[1]
-    resampled.with_data = with_data
     replicates = []
-
-    def add_replicates(resampled):
+    for start in range(0, self.n_replicates, batch_size):
+      util_metric.n_replicates = min(batch_size, self.n_replicates - start)
+      # The draws might be decided by the index of the resample.
+      util_metric.resample_idx_offset = start
+      _, resampled_data = util_metric.get_resampled_data_sql(
+          table,
+          sql.Columns(split_by),
+          global_filter,
+          None,
+          copy.deepcopy(with_data),
+      )
+      resampled = resampled_data.children.popitem()[1]
+      resampled.with_data = resampled_data
       bst = self.children[0].compute_on_sql(
           resampled,
           ['meterstick_resample_idx'] + split_by,
@@ -2764,21 +2765,6 @@ class Bootstrap(MetricWithCI):
       if not bst.empty:  # The resamples might be too sparse.
         bst = utils.melt(bst)
         replicates.append(bst.unstack('meterstick_resample_idx'))
-
-    for _ in range(self.n_replicates // batch_size):
-      add_replicates(resampled)
-    util_metric.n_replicates = self.n_replicates % batch_size
-    if util_metric.n_replicates:
-      _, with_data2 = util_metric.get_resampled_data_sql(
-          table,
-          sql.Columns(split_by),
-          global_filter,
-          None,
-          with_data2,
-      )
-      resampled = with_data2.children.popitem()[1]
-      resampled.with_data = with_data2
-      add_replicates(resampled)
     return replicates
 
   def get_resampled_data_sql(
@@ -3058,7 +3044,11 @@ class PoissonBootstrap(Bootstrap):
       )
     uniform_columns.add(uniform_var)
     replicates = sql.Datasource(
-        'UNNEST(GENERATE_ARRAY(1, %s))' % self.n_replicates,
+        'UNNEST(GENERATE_ARRAY(%s, %s))'
+        % (
+            self.resample_idx_offset + 1,
+            self.resample_idx_offset + self.n_replicates,
+        ),
         'meterstick_resample_idx',
     )
     table_with_uniform_var = sql.Sql(
-- 
2.43.0


From ac796d2e7880760afea7f60368feafc76bac2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:04 +0000
Subject: [PATCH 39/63] fix: Jackknife and Bootstrap of metrics that also split
 by the unit

For example, Jackknife('cookie') of a PrePostChange stratified by cookie failed
in the optimized computation as cookie was split by twice.
---
 operations.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index d267ab8..065fd30 100644
--- a/operations.py
+++ b/operations.py
@@ -2577,7 +2577,16 @@ class Jackknife(MetricWithCI):
 
   def can_precompute(self):
     """LOO can be precomputed if all leaves can be expressed as Sum or Count."""
-    return self.enable_optimization and is_metric_precomputable(self)
+    return (
+        self.enable_optimization
+        and not is_unit_in_extra_split_by(self)
+        and is_metric_precomputable(self)
+    )
+
+
+def is_unit_in_extra_split_by(metric: MetricWithCI) -> bool:
+  """If an Operation inside also splits the data by the unit of metric."""
+  return metric.unit in utils.get_extra_split_by(metric, return_superset=True)
 
 
 def is_metric_precomputable(metric: MetricWithCI) -> bool:
@@ -2784,7 +2793,10 @@ class Bootstrap(MetricWithCI):
 
   def can_precompute(self):
     return (
-        self.unit and self.enable_optimization and is_metric_precomputable(self)
+        self.unit
+        and self.enable_optimization
+        and not is_unit_in_extra_split_by(self)
+        and is_metric_precomputable(self)
     )
 
 
-- 
2.43.0


From a97a62a4975b95a938e58676f2b5529c817e0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 40/63] fix: preaggregated columns of different filters never
 share a name

---
 operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 065fd30..b7b4359 100644
--- a/operations.py
+++ b/operations.py
@@ -20,6 +20,7 @@ from __future__ import print_function
 import copy
 from typing import Any, Iterable, List, Optional, Sequence, Text, Tuple, Union
 import warnings
+import zlib
 
 from meterstick import confidence_interval_display
 from meterstick import metrics
@@ -3247,7 +3248,11 @@ def get_preaggregated_metric_var(m: metrics.Metric):
   }
   name = tmpl_lookup[type(m)] % m.var
   name = f'{name} where {m.where}' if m.where else name
-  return sql.Column(name).alias
+  alias = sql.Column(name).alias
+  if str(m.var).isidentifier() and not m.where:
+    return alias
+  # Escaping is lossy, e.g. 'x > 1 | y > 1' and 'x > 1 & y > 1' look the same.
+  return f'{alias}_{zlib.crc32(name.encode())}'
 
 
 def get_se_sql(
-- 
2.43.0


From 5701e315f10985aeb559db97356d81a6f2713b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:07 +0000
Subject: [PATCH 41/63] fix: batched mixed mode Jackknife of metrics that also
 split by the unit

---
 operations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/operations.py b/operations.py
index b7b4359..1358dcb 100644
--- a/operations.py
+++ b/operations.py
@@ -2525,7 +2525,11 @@ class Jackknife(MetricWithCI):
         replicates.append(utils.melt(loo))
     else:
       if split_by:
-        slice_and_units.set_index(self.unit, append=True, inplace=True)
+        # The unit might be an index of the child too so don't use its name.
+        slice_and_units.columns = ['meterstick_resample_idx']
+        slice_and_units.set_index(
+            'meterstick_resample_idx', append=True, inplace=True
+        )
       for i in range(int(np.ceil(len(unique_units) / batch_size))):
         units = unique_units[i * batch_size:(i + 1) * batch_size]
         loo = sql.Sql(
@@ -2549,13 +2553,9 @@ class Jackknife(MetricWithCI):
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
-          loo.index.set_names(
-              self.unit, level='meterstick_resample_idx', inplace=True
-          )
           loo = slice_and_units.join(utils.unmelt(loo), how='inner')
-          loo = utils.melt(loo).unstack(self.unit)
-        else:
-          loo = loo.unstack('meterstick_resample_idx')
+          loo = utils.melt(loo)
+        loo = loo.unstack('meterstick_resample_idx')
         replicates.append(loo)
     return replicates
 
-- 
2.43.0


From 99f9863b9d87daaac6bc80009068c843b3b9c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:00 +0000
Subject: [PATCH 42/63] fix: Jackknife of metrics that cannot be computed on a
 single unit

---
 operations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 1358dcb..dcedd31 100644
--- a/operations.py
+++ b/operations.py
@@ -2359,7 +2359,13 @@ class Jackknife(MetricWithCI):
       util, df = utils.get_fully_expanded_equivalent_metric_tree(self, df)
       return self.compute_util_metric_on(util, df, split_by)
 
-    self.compute_child(df, split_by + [self.unit])
+    try:
+      self.compute_child(df, split_by + [self.unit])
+    except Exception:  # pylint: disable=broad-except
+      # The child, e.g. a Model, might not be computable on a single unit.
+      util = copy.copy(self)
+      util.enable_optimization = False
+      return self.compute_util_metric_on(util, df, split_by)
     precomputed = self.find_all_in_cache_by_metric_type(metric=metrics.Sum)
     precomputed.update(
         self.find_all_in_cache_by_metric_type(metric=metrics.Count)
-- 
2.43.0


From 36c19a6460a259b4f2e817533ebc9a9abea55cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 43/63] fix: SQL string literals of values with quotes or
 backslashes

---
 operations.py | 4 ++--
 sql.py        | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index dcedd31..f8f7c83 100644
--- a/operations.py
+++ b/operations.py
@@ -412,7 +412,7 @@ class CumulativeDistribution(Distribution):
 
 def _format_to_condition(val):
   if isinstance(val, str) and not val.startswith('$'):
-    return '"%s"' % val
+    return sql.to_literal(val)
   return '%s' % val
 
 
@@ -2513,7 +2513,7 @@ class Jackknife(MetricWithCI):
       loo_sql = sql.Sql(None, table, where=self.where_)
       where = copy.deepcopy(loo_sql.where)
       for unit in unique_units:
-        loo_where = '%s != "%s"' % (self.unit, unit)
+        loo_where = '%s != %s' % (self.unit, sql.to_literal(unit))
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
diff --git a/sql.py b/sql.py
index 36e6368..976409f 100644
--- a/sql.py
+++ b/sql.py
@@ -20,6 +20,7 @@ from __future__ import print_function
 import collections
 from collections import abc
 import functools
+import json
 import re
 from typing import Iterable, Optional, Text, Union
 
@@ -71,6 +72,11 @@ def get_alias(c):
   return getattr(c, 'alias_raw', c)
 
 
+def to_literal(val):
+  """Formats a value as a SQL literal, quoted and escaped if it's a string."""
+  return json.dumps(val, ensure_ascii=False) if isinstance(val, str) else str(val)
+
+
 def escape_alias(alias):
   """Replaces special characters in SQL column name alias."""
   special = set(r""" `~!@#$%^&*()-=+[]{}\|;:'",.<>/?""")
-- 
2.43.0


From 5d17521539bddd2a4c8a62f56865a58010d894e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 44/63] fix: models in the magic mode on split_by columns that
 need escaping; real step sizes

---
 models.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/models.py b/models.py
index 80ba026..4def62b 100644
--- a/models.py
+++ b/models.py
@@ -864,7 +864,7 @@ def fista_for_elastic_net(
   # If we just use 1, depending on how a float is stored, maybe the step_size
   # will be slightly larger than the max allowed? I don't know if it will ever
   # happen but to be safe I use 1 - 1e-6.
-  step_size = (1 - 1e-6) / np.linalg.eigvals(x_t_x).max()
+  step_size = (1 - 1e-6) / np.linalg.eigvalsh(x_t_x).max()
   k = l2 * step_size + 1
   threshold = l1 * step_size / k
 
@@ -910,6 +910,9 @@ def compute_normalized_coef(coef, norms, avgs, split_by):
   cols = coef.columns
   coef.drop(columns='intercept', inplace=True)
   if split_by:
+    # Special characters in split_by got escaped during SQL execution.
+    for df in (norms, avgs):
+      df.columns = split_by + list(df.columns)[len(split_by) :]
     norms = norms.set_index(coef.index.names).reindex(coef.index)
     avgs = avgs.set_index(coef.index.names).reindex(coef.index)
   coef /= norms
@@ -1072,9 +1075,8 @@ class LogisticRegression(Model):
       xs.append('1')
     conds = []
     if split_by:
-      slices = execute(
-          str(sql.Sql(sql.Columns(split_by, True), table, with_data=with_data))
-      )
+      slices = sql.Columns(sql.Columns(split_by).aliases, True)
+      slices = execute(str(sql.Sql(slices, table, with_data=with_data)))
       slices.sort_values(list(slices.columns), inplace=True)
       conds = slices.values
     self._hess = None
@@ -1119,7 +1121,7 @@ class LogisticRegression(Model):
         for cond, slice_coef, done in zip(conds, coef, converged):
           if not done:
             condition = [
-                f'{c} = "{v}"' if isinstance(v, str) else f'{c} = {v}'
+                f'{c} = {sql.to_literal(v)}'
                 for c, v in zip(split_cols, cond)
             ]
             condition = ' AND '.join(condition)
@@ -1308,7 +1310,7 @@ def fista_for_logistic_regression(
     # If we just use 4, depending on how a float is stored, maybe the step_size
     # will be slightly larger than the max allowed? I don't know if it will ever
     # happen but to be safe I use 3.999999.
-    return 3.999999 / np.linalg.eigvals(x_t_x).max()
+    return 3.999999 / np.linalg.eigvalsh(x_t_x).max()
 
   if not split_by:
     step_size = np.array([get_step_size(sufficient_stats)])
-- 
2.43.0


From 95fc881d460096601d3ba4c9c338441cb5001948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:54 +0000
Subject: [PATCH 45/63] fix: collecting a PCollection whose folder has glob
 characters or whose strings look like missing values

---
 utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils.py b/utils.py
index 0ba04e8..8808b16 100644
--- a/utils.py
+++ b/utils.py
@@ -706,8 +706,9 @@ def pcollection_to_df_via_file_io(
   pipeline.run()
 
   res = []
-  for f in glob.glob(f'{output_path}-*'):  # output is sharded
-    res.append(pd.read_csv(f))
+  for f in glob.glob(f'{glob.escape(output_path)}-*'):  # output is sharded
+    # Only empty cells are missing, a string like 'NA' is a value.
+    res.append(pd.read_csv(f, keep_default_na=False, na_values=['']))
     if cleanup:
       os.remove(f)
   return pd.concat(res, ignore_index=True)
-- 
2.43.0


From 8a18a8d1893248b1acfc760bc927dcdc8b48badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 46/63] fix: SQL aliases that are reserved words, start with a
 digit, are made of special characters only or differ only in case

---
 sql.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/sql.py b/sql.py
index 976409f..13d039c 100644
--- a/sql.py
+++ b/sql.py
@@ -25,6 +25,17 @@ import re
 from typing import Iterable, Optional, Text, Union
 
 
+# Keywords that cannot be an alias unless quoted.
+RESERVED = frozenset("""
+ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE CAST COLLATE
+CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE END ENUM
+ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP
+GROUPING GROUPS HASH HAVING IF IGNORE IN INNER INTERSECT INTERVAL INTO IS JOIN
+LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR
+ORDER OUTER OVER PARTITION PRECEDING PROTO QUALIFY RANGE RECURSIVE RESPECT RIGHT
+ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE UNBOUNDED
+UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN
+""".split())
 SAFE_DIVIDE = 'IF(({denom}) = 0, NULL, ({numer}) / ({denom}))'
 
 
@@ -80,8 +91,10 @@ def to_literal(val):
 def escape_alias(alias):
   """Replaces special characters in SQL column name alias."""
   special = set(r""" `~!@#$%^&*()-=+[]{}\|;:'",.<>/?""")
-  if not alias or not special.intersection(alias):
+  if not alias:
     return alias
+  if not special.intersection(alias):
+    return _make_identifier(alias)
   escape = {c: '_' for c in special}
   escape.update({
       '!': '_not_',
@@ -105,7 +118,14 @@ def escape_alias(alias):
       .strip(' ')
       .replace('__', '_')
   )
-  return 'col_' + res if res[0].isdigit() else res
+  return _make_identifier(res)
+
+
+def _make_identifier(name):
+  """Prefixes a name that's not a valid identifier on its own."""
+  if not name or name[0].isdigit() or name.upper() in RESERVED:
+    return 'col_' + name
+  return name
 
 
 @functools.total_ordering
@@ -472,7 +492,8 @@ class Columns(SqlComponents):
     if found:
       children.suffix = found[0].suffix
       return self
-    if alias not in self.aliases:
+    # Column names are case-insensitive in SQL.
+    if str(alias).lower() not in [str(a).lower() for a in self.aliases]:
       self.children.append(children)
       return self
     else:
-- 
2.43.0


From a96d22c9b6d659e9906a195bed8c84a366c00016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 47/63] fix: SQL filters whose OR is next to a line break

---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 13d039c..97b4193 100644
--- a/sql.py
+++ b/sql.py
@@ -208,7 +208,8 @@ class Filter(SqlComponent):
   def __str__(self):
     if not self.cond:
       return ''
-    return '(%s)' % self.cond if ' OR ' in self.cond.upper() else self.cond
+    has_or = re.search(r'\bOR\b', self.cond.upper())
+    return '(%s)' % self.cond if has_or else self.cond
 
 
 class Filters(SqlComponents):
-- 
2.43.0


From 2d44bf1acb0876faf2206679f5497332c7dccfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 48/63] fix: nested SQL queries that were merged although they
 mean something else, and WITH tables renamed or lost in nesting

---
 sql.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/sql.py b/sql.py
index 97b4193..d94f34b 100644
--- a/sql.py
+++ b/sql.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import collections
 from collections import abc
+import copy
 import functools
 import json
 import re
@@ -711,18 +712,27 @@ class Datasources(SqlComponents):
       return self.add(children)
 
   def extend(self, other: 'Datasources'):
-    """Merge other to self. Adjust the query if a new alias is needed."""
+    """Merge other to self. Adjust the query if a new alias is needed.
+
+    Args:
+      other: The Datasources to merge.
+
+    Returns:
+      A dict from the aliases in other to those in self.
+    """
     datasources = list(other.datasources)
+    renamed = {}
     while datasources:
       d = datasources.pop(0)
       original_alias = d.alias
       new_alias = self.add(d)
+      renamed[original_alias] = new_alias
       if original_alias != new_alias:
         for d2 in datasources:
           if original_alias in str(d2):
             d2.table = re.sub(r'\b%s\b' % original_alias, new_alias,
                               str(d2.table))
-    return self
+    return renamed
 
   def __str__(self):
     return ',\n'.join((d.get_expression('WITH') for d in self.datasources if d))
@@ -752,20 +762,23 @@ class Sql(SqlComponent):
     from_data_table = from_data.table
     if isinstance(from_data_table, Sql) and not self.from_data.is_table:
       if from_data_table.with_data:
-        with_data_to_merge = from_data_table.with_data
+        with_data_to_merge = copy.deepcopy(from_data_table.with_data)
+        from_data_table = copy.copy(from_data_table)
         from_data_table.with_data = None
+        alias = with_data_to_merge.add(
+            Datasource(from_data_table, from_data.alias or 'NoNameTable')
+        )
         self.from_data = Datasource(
-            with_data_to_merge.add(Datasource(from_data, 'NoNameTable'))
+            self.with_data.extend(with_data_to_merge)[alias]
         )
-        self.with_data.extend(with_data_to_merge)
-      if not self.columns:
-        # Consolidate outer and inner Sql if the outer Sql doesn't have columns.
+      elif not (self.columns or self.where or self.groupby or self.orderby):
+        # Consolidate outer and inner Sql if the outer Sql adds nothing.
         self.columns = from_data_table.columns
-        self.where = Filters(from_data_table.where).add(self.where)
+        self.where = Filters(from_data_table.where)
         self.groupby = from_data_table.groupby
         self.orderby = from_data_table.orderby
         self.from_data = from_data_table.from_data
-      elif not from_data_table.columns:
+      elif not (from_data_table.columns or from_data_table.groupby):
         # Consolidate outer and inner Sql if the inner Sql doesn't have columns.
         self.where = Filters(from_data_table.where).add(self.where)
         self.from_data = from_data_table.from_data
-- 
2.43.0


From 2d9a574f0f007a38490eb52247aa86d906c0356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:10 +0000
Subject: [PATCH 49/63] fix: experiment 0 is not shown in the Dimensions column

---
 confidence_interval_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 667df7a..7dc536f 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -442,7 +442,7 @@ def dimension_formatter(x,
   d = []
   if description:
     d.append(span(description, 'ci-display-description-text'))
-  if expr_id:
+  if expr_id is not None and expr_id != '':  # The id could be 0.
     d.append(span(expr_id, 'ci-display-experiment-id'))
   if slice_info:
     d.append(span(slice_info, 'ci-display-dimension'))
-- 
2.43.0


From 7a183040c9c0ba3f8ac2ed573541623a839b29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:48 +0000
Subject: [PATCH 50/63] fix: control rows filled with inconsistent control
 values, although hidden, or not at all

---
 confidence_interval_display.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 7dc536f..eab6251 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -277,7 +277,7 @@ def _pre_aggregate_df(
       # Make a copy to avoid "A value is trying to be set on a copy of a slice
       # from a DataFrame." warning.
       df = df[~df['Is_Control']].copy()
-  if auto_decide_control_vals:
+  if auto_decide_control_vals and show_control:
     df = add_control_rows(df, dims)
   pre_agg_df = _sorted_long_to_wide(df, dims, sort_by)
   if aggregate_dimensions:
@@ -499,7 +499,7 @@ def add_control_rows(df, dims):
       'Control_Value'
   ]
   control_vals = grp.agg(['max', 'min'])
-  thresh = 1**-5
+  thresh = 1e-5
   ambiguous_vals = control_vals[control_vals['max'] -
                                 control_vals['min'] > thresh]
   msg = ('Warning: Metric "%s" of control %s in slice %s has inconsistent '
@@ -507,12 +507,13 @@ def add_control_rows(df, dims):
   for k in ambiguous_vals.iterrows():
     print(msg % (k[0][0], k[0][1], k[0][2:]))
   valid_ctrl = control_vals[control_vals['max'] -
-                            control_vals['min'] < thresh][['min']]
+                            control_vals['min'] <= thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if valid_ctrl.shape[0]:
-    new_ctrl_rows = curr_ctrl_rows.merge(
-        valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
+  if not valid_ctrl.shape[0]:
+    return df
+  new_ctrl_rows = curr_ctrl_rows.merge(
+      valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
   new_ctrl_rows.drop(columns='min', inplace=True)
   new_ctrl_rows['Is_Control'] = True
-- 
2.43.0


From df1e554fa7aea23f29110f64ba47423e3e6c85d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:48 +0000
Subject: [PATCH 51/63] fix: Control_Id displayed as N/A, or not at all with
 metric_order

---
 confidence_interval_display.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index eab6251..675d34a 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -475,7 +475,9 @@ def _get_formatter(df,
   """
   custom_formatter = {}
   for i, col in enumerate(df.columns):
-    if col in dims + ['Experiment_Id', 'Is_Control', 'Description']:
+    if col in dims + [
+        'Experiment_Id', 'Control_Id', 'Is_Control', 'Description'
+    ]:
       custom_formatter[i] = '<div>{}</div>'.format
     elif col == 'Dimensions':
       custom_formatter[i] = dimension_formatter
@@ -716,7 +718,7 @@ def get_formatted_df(
   if metric_order:
     # Sort metric order based on the given argument or default metric order.
     columns = ['Dimensions'] if aggregate_dimensions else dims[:]
-    columns += ['Experiment_Id', 'Is_Control', 'Description']
+    columns += ['Experiment_Id', 'Control_Id', 'Is_Control', 'Description']
     columns += list(metric_order)
     # Column names are not always the same type.
     column_order = pd.array([c for c in columns if c in formatted_df],
-- 
2.43.0


From fe275f1217e01dec2873bb3ce89b65e0d4a013c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:51 +0000
Subject: [PATCH 52/63] fix: sorting the display by the order of its only
 dimension adds a column

---
 confidence_interval_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 675d34a..95c6529 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -169,9 +169,9 @@ def _sorted_long_to_wide(df, dims, sort_by):
         if col in df:
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
         else:
-          df.reset_index(col, inplace=True)
+          df.reset_index(inplace=True)
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
-          df.set_index(col, append=True, inplace=True)
+          df.set_index(existing_index_cols, inplace=True)
   if sorting_cols:
     df = df.sort_values(sorting_cols, ascending=ascending)
   # Collects [Value, Ratio, CI_Lower, CI_Upper] for each Metric * slice. val_col
-- 
2.43.0


From ee2c5d87c7d26607a6a6a0a931c17758c196600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 53/63] fix: rows without description vanish from the display

---
 confidence_interval_display.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 95c6529..c69ae8d 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -255,6 +255,9 @@ def _pre_aggregate_df(
     df['CI_Upper'] = df['Ratio'] + (df['CI_Range'] / 2)
     df['CI_Lower'] = df['Ratio'] - (df['CI_Range'] / 2)
   df = _add_is_control_and_control_id(df, ctrl_id)
+  if 'Description' in df and df['Description'].isna().any():
+    # groupby() drops the rows that have null.
+    df['Description'] = df['Description'].astype(object).fillna('')
 
   if auto_add_description:
     is_ctrl = df['Is_Control'] if 'Is_Control' in df else None
-- 
2.43.0


From 3ddbce7eb286463211aea159185f377d399e6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 54/63] fix: integer dimensions displayed as floats next to a
 float one

---
 confidence_interval_display.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index c69ae8d..b915430 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -190,7 +190,10 @@ def _merge_dimensions(df, dims):
   agg_cols = dims + ['Experiment_Id', 'Is_Control', 'Description']
   agg_cols = [c for c in agg_cols if c in df]
   if agg_cols:
-    df['Dimensions'] = df[agg_cols].apply(lambda row: row.to_dict(), axis=1)
+    # Keeps the types, otherwise integers become floats next to a float column.
+    df['Dimensions'] = (
+        df[agg_cols].astype(object).apply(lambda row: row.to_dict(), axis=1)
+    )
     df.drop(columns=agg_cols + ['Control_Id'], inplace=True, errors='ignore')
     # Make 'Dimensions' the first column.
     # df[['Dimensions'] + df.columns[:-1].tolist()] will fail when metric aren't
-- 
2.43.0


From 0542bb17cb367d79f25c4b8ffbdf6f15994aefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:14 +0000
Subject: [PATCH 55/63] fix: control rows of conditions with several columns
 not recognized in display()

---
 operations.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index f8f7c83..9dddd51 100644
--- a/operations.py
+++ b/operations.py
@@ -1575,8 +1575,17 @@ def get_display_fn(name,
       if len(condition_column) == 1:
         condition_col = condition_column[0]
       else:
-        res['_expr_id'] = res[condition_column].agg(tuple, axis=1).astype(str)
-        control = str(control)
+        # Row-wise operations would turn integers to floats, so that the control
+        # isn't recognized.
+        expr_ids = list(
+            res[condition_column]
+            .astype(object)
+            .itertuples(index=False, name=None)
+        )
+        res['_expr_id'] = [str(i) for i in expr_ids]
+        control = next(
+            (str(i) for i in expr_ids if i == tuple(control)), str(control)
+        )
         condition_col = '_expr_id'
 
     metric_formats = (
-- 
2.43.0


From 985d267a30e9321c5a18ae907e220e7c53d514a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:27 +0000
Subject: [PATCH 56/63] fix: no control rows in display() of intervals computed
 in SQL without the baseline

---
 operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.py b/operations.py
index 9dddd51..fc03329 100644
--- a/operations.py
+++ b/operations.py
@@ -2007,6 +2007,9 @@ class MetricWithCI(Operation):
         base.columns = [change.name_tmpl.format(c) for c in base.columns]
         base = utils.melt(base)
         base.columns = ['_base_value']
+        if not change.include_base:
+          # The query has no row for the baseline, which display() needs.
+          base = self.compute_change_base(table, split_by, execute)
 
       if len(res.columns) % 3:
         raise ValueError('Wrong shape for a MetricWithCI with confidence!')
-- 
2.43.0


From 9219ffffa0355c75e90e0438f24de93dd6af7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:30 +0000
Subject: [PATCH 57/63] fix: custom operations that return a Series per slice
 give NaN when there is split_by

---
 metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index ba76c62..2618816 100644
--- a/metrics.py
+++ b/metrics.py
@@ -573,7 +573,10 @@ class Metric(object):
     result = []
     slices = []
     for d, i in self.split_data(children, split_by):
-      result.append(self.compute(d))
+      res = self.compute(d)
+      if isinstance(res, pd.Series) and res.index.equals(children.columns):
+        res = pd.DataFrame([res.to_numpy()], columns=children.columns)
+      result.append(res)
       slices.append(i)
     return pd.concat(result, keys=slices, names=split_by, sort=False)
 
-- 
2.43.0


From 7e55ce5d1349dbe6be9ed34df8816d8d4430a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 58/63] fix: arithmetic on custom metrics that return a Series
 or a one-row frame

---
 utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils.py b/utils.py
index 8808b16..d8d1808 100644
--- a/utils.py
+++ b/utils.py
@@ -113,8 +113,9 @@ def unmelt(df):
 
 def remove_empty_level(df):
   """Drops redundant levels in the index of df."""
-  if not isinstance(df, pd.DataFrame) or not isinstance(df.index,
-                                                        pd.MultiIndex):
+  if not isinstance(df, (pd.DataFrame, pd.Series)) or not isinstance(
+      df.index, pd.MultiIndex
+  ):
     return df
 
   drop = []
-- 
2.43.0


From 1fbb9d38fe2654c9e18cd273409bff3295f65bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 59/63] fix: resampling metrics derived from Sum and Count as
 if they were them

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index fc03329..d8a271f 100644
--- a/operations.py
+++ b/operations.py
@@ -2620,7 +2620,7 @@ def is_metric_precomputable(metric: MetricWithCI) -> bool:
       precomputable_leaf_types = tuple(
           list(precomputable_leaf_types) + [metrics.Max, metrics.Min]
       )
-    if isinstance(m, precomputable_leaf_types):
+    if type(m) in precomputable_leaf_types:  # Subclasses can differ.
       continue
     if not m.children:
       equiv, _ = utils.get_equivalent_metric(m)
-- 
2.43.0


From 5baf34d4f50d090da484b1bca0a40cb73a2e46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:03 +0000
Subject: [PATCH 60/63] fix: CumulativeDistribution with an explicit order in
 SQL drops the other rows and leaves the child's indexes alone

---
 operations.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/operations.py b/operations.py
index d8a271f..3d63059 100644
--- a/operations.py
+++ b/operations.py
@@ -380,10 +380,19 @@ class CumulativeDistribution(Distribution):
     child_table_alias = with_data.merge(child_table)
     columns = sql.Columns(indexes.aliases)
     order = list(utils.get_extra_idx(self))
-    order = [
-        sql.Column(self.get_ordered_col(sql.Column(o).alias), auto_alias=False)
-        for o in order
-    ]
+    order = [sql.Column(o).alias for o in order]
+    where = None
+    if self.order:
+      # A custom order only applies to self.extra_index and anything that isn't
+      # in it is dropped. The indexes from the child are always ascending.
+      where = '%s IN (%s)' % (
+          order[0],
+          ', '.join(_format_to_condition(o) for o in self.order),
+      )
+      order = [self.get_ordered_col(order[0])] + order[1:]
+    else:
+      order = [self.get_ordered_col(o) for o in order]
+    order = [sql.Column(o, auto_alias=False) for o in order]
     for c in dist_sql.columns:
       if c in columns:
         continue
@@ -397,7 +406,7 @@ class CumulativeDistribution(Distribution):
       )
       col.set_alias('Cumulative %s' % c.alias_raw)
       columns.add(col)
-    return sql.Sql(columns, child_table_alias), with_data
+    return sql.Sql(columns, child_table_alias, where), with_data
 
   def get_ordered_col(self, over):
     if self.order:
-- 
2.43.0


From bea7e7a5dd14e7cc50c2a1203f057abe24d3c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:04 +0000
Subject: [PATCH 61/63] fix: models that differ in an option of the sklearn
 model compare equal and share the cache

---
 models.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/models.py b/models.py
index 4def62b..123c864 100644
--- a/models.py
+++ b/models.py
@@ -174,6 +174,16 @@ class Model(operations.Operation):
     model.name_tmpl = model.name + ' Coefficient: {}'
     return model
 
+  def get_fingerprint(self, attr_to_exclude=()):
+    # Models whose underlying sklearn models have different options are different
+    # even if we don't keep those options as attributes.
+    fingerprint = super(Model, self).get_fingerprint(attr_to_exclude)
+    if not hasattr(self.model, 'get_params'):
+      return fingerprint
+    params = self.model.get_params(deep=False)
+    params = tuple(sorted((k, repr(v)) for k, v in params.items()))
+    return tuple(sorted(fingerprint + (('model_params', params),)))
+
 
 class LinearRegression(Model):
   """A class that can fit a linear regression."""
-- 
2.43.0


From 523a03b9b4225a10bcb97aa7cd6e5eb6ff1ee89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:29 +0000
Subject: [PATCH 62/63] fix: Lasso and ElasticNet ignore positive in the magic
 mode of SQL

---
 models.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/models.py b/models.py
index 123c864..775aa41 100644
--- a/models.py
+++ b/models.py
@@ -684,6 +684,7 @@ class Lasso(Model):
         self.name,
         tol=self.tol,
         max_iter=self.max_iter,
+        positive=self.model.positive,
     ).compute_on_sql_magic_mode(table, split_by, execute)
 
 
@@ -766,6 +767,7 @@ class ElasticNet(Model):
         self.fit_intercept,
         self.tol,
         self.max_iter,
+        self.model.positive,
     )
     if self.fit_intercept and self.normalize:
       coef = compute_normalized_coef(coef, norms, avgs, split_by)
@@ -776,7 +778,14 @@ class ElasticNet(Model):
 
 
 def compute_coef_for_elastic_net(
-    sufficient_stats_elements, xs, l1, l2, fit_intercept, tol, max_iter
+    sufficient_stats_elements,
+    xs,
+    l1,
+    l2,
+    fit_intercept,
+    tol,
+    max_iter,
+    positive=False,
 ):
   """Computes the coefficients for ElasticNet. Lasso is just a special case."""
   if fit_intercept:
@@ -788,7 +797,7 @@ def compute_coef_for_elastic_net(
   )
   init_guess = np.random.random(*x_t_y.shape)
   coef = fista_for_elastic_net(
-      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive
   )
   columns = list(xs.aliases)
   if fit_intercept:
@@ -835,7 +844,7 @@ def center_x(sufficient_stats_elements, n):
 
 
 def fista_for_elastic_net(
-    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive=False
 ):
   """Applies FISTA algorithm to elastic net.
 
@@ -866,6 +875,8 @@ def fista_for_elastic_net(
     tol: The tolerance for the optimization.
     max_iter: The maximum number of iterations.
     fit_intercept: If the coefficients include an intercept.
+    positive: If the coefficients, except for the intercept, are forced to be
+      positive.
 
   Returns:
     The converged coef, namely, the coefficients of the model.
@@ -886,6 +897,9 @@ def fista_for_elastic_net(
       coef[1:] = soft_thresholding(coef[1:] / k, threshold)
     else:
       coef = soft_thresholding(coef / k, threshold)
+    if positive:
+      start = 1 if fit_intercept else 0
+      coef[start:] = np.maximum(coef[start:], 0)
     delta = coef - coef_old
     if abs(delta).sum() < tol:
       return coef
-- 
2.43.0


From ad0de9e0877217f73e1ed526069e1e8dc402b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:08 +0000
Subject: [PATCH 63/63] fix: LogisticRegression in the magic mode of SQL takes
 classes other than 0 and 1 for numbers

---
 models.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/models.py b/models.py
index 775aa41..8aab259 100644
--- a/models.py
+++ b/models.py
@@ -1098,11 +1098,23 @@ class LogisticRegression(Model):
     if self.fit_intercept:
       xs.append('1')
     conds = []
+    # The larger class is the positive one, same as in sklearn.
+    positive = sql.Column(f'MAX({y})', alias='positive_class')
+    slices = sql.Columns(split_by).aliases
+    slices = execute(
+        str(
+            sql.Sql(
+                sql.Columns(slices).add(positive),
+                table,
+                groupby=slices,
+                with_data=with_data,
+            )
+        )
+    )
     if split_by:
-      slices = sql.Columns(sql.Columns(split_by).aliases, True)
-      slices = execute(str(sql.Sql(slices, table, with_data=with_data)))
-      slices.sort_values(list(slices.columns), inplace=True)
-      conds = slices.values
+      slices.sort_values(list(slices.columns[:-1]), inplace=True)
+      conds = slices.iloc[:, :-1].values
+    positive_classes = slices.iloc[:, -1]
     self._hess = None
 
     def grads(coef, converged, ignore_hess=True):
@@ -1136,20 +1148,24 @@ class LogisticRegression(Model):
       k = len(coef[0])
       if not split_by:
         grads, hessian = get_grads_and_hess_query(
-            coef[0], ignore_hess=ignore_hess
+            coef[0], positive_classes.iloc[0], ignore_hess=ignore_hess
         )
       else:
         grads = []
         hessian = []
         split_cols = sql.Columns(split_by).aliases
-        for cond, slice_coef, done in zip(conds, coef, converged):
+        for cond, slice_coef, positive_class, done in zip(
+            conds, coef, positive_classes, converged
+        ):
           if not done:
             condition = [
                 f'{c} = {sql.to_literal(v)}'
                 for c, v in zip(split_cols, cond)
             ]
             condition = ' AND '.join(condition)
-            j, h = get_grads_and_hess_query(slice_coef, condition, ignore_hess)
+            j, h = get_grads_and_hess_query(
+                slice_coef, positive_class, condition, ignore_hess
+            )
             grads += j
             hessian += h
       for i, c in enumerate(grads):
@@ -1179,7 +1195,9 @@ class LogisticRegression(Model):
       self._hess = np.array(hess_arr)
       return np.array(grads)
 
-    def get_grads_and_hess_query(coef, condition=None, ignore_hess=True):
+    def get_grads_and_hess_query(
+        coef, positive_class, condition=None, ignore_hess=True
+    ):
       """Get the SQL columns to compute the gradients and Hessian matrixes.
 
       The formula of gradients and Hessian matrixes can be found in
@@ -1205,8 +1223,10 @@ class LogisticRegression(Model):
       # A numerically stable implemntation, adapted from
       # http://fa.bianp.net/blog/2019/evaluate_logistic.
       z = ' + '.join(f'{coef[i]} * {xs[i]}' for i in range(len(xs)))
+      is_positive = f'CAST({y} = {sql.to_literal(positive_class)} AS INT64)'
+      errors = sig_minus_b(z, is_positive)
       grads = [
-          sql.Column(f'{x} * {sig_minus_b(z, y)}', 'AVG({})', filters=condition)
+          sql.Column(f'{x} * {errors}', 'AVG({})', filters=condition)
           for x in xs
       ]
       sig_z = """IF({z} < 0,
-- 
2.43.0

