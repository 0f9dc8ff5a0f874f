"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or ['Metric.compute_on'], hook_needed=None)))

p('C01', 'Simple metrics equal their mathematical definitions',
  'Count, Sum, Dot, Mean, Max, Min, Ratio, Nth, Quantile, Variance, StandardDeviation, CV, Correlation and Cov, with every combination of their documented options (distinct, weight, normalize, interpolation, sort order, dropna, unbiased, ddof, method, ...), return on any data the value their documented definition gives, under the documented or user-chosen column name. Missing values are ignored as documented, and empty or degenerate input gives 0 or NaN as defined rather than an error or a wrong number.',
  ['inputs', 'configurations'], 'every table (any number of rows, nulls, ties, negative and fractional values, any row index) and every option combination of each metric',
  'tests fix one small integer table per metric; nulls, ties, weights, unusual indexes and option combinations are sampled once or never',
  ['metrics.py'], [('per-metric compute/compute_slices', 'metrics.py SimpleMetric subclasses'), ('default names', 'metrics.py SimpleMetric.__init__')])
p('C02', 'Slicing equals computing on each slice separately',
  'For every metric, compute_on(df, split_by) has exactly one row per distinct combination of the split_by columns present in the data (plus the levels the metric itself adds), and that row equals what the same metric gives on the rows of that slice alone. The answer depends only on the multiset of rows: not on row order (except where an order is an argument), on the DataFrame index, on unrelated columns, or on whether a split column is stored as object, number or categorical.',
  ['inputs', 'programs'], 'every metric tree (simple, composite, list, operation), split_by list and table',
  'tests check a handful of hand-written tables with a single split column in the default index order',
  ['metrics.py', 'operations.py'], [('groupby slicing', 'metrics.py Metric.split_data, compute_slices, SimpleMetric.get_bare_agg/compute_slices'), ('operations add extra split levels then regroup', 'operations.py Operation.compute_children')])
p('C03', "A metric's filter equals filtering its input first",
  'A where clause on any node of a metric tree makes that node compute as if the data had been filtered by it first; clauses on nested nodes and several clauses on one node combine by conjunction, and a clause on one node never affects its siblings. Rewriting a tree by pushing filters to the leaves, or adding filters later with add_where, does not change the meaning.',
  ['inputs', 'programs'], 'every metric tree with any placement of filters, every table',
  'tests filter one or two metrics with one condition each; conjunction, nesting, precedence (or) and filters in shared children are barely sampled',
  ['metrics.py', 'utils.py', 'sql.py'], [('where property, get_where/filter application', 'metrics.py Metric.where, add_where, compute_through'), ('filter pushing', 'utils.py push_filters_to_leaf, get_global_filter'), ('conjunction', 'sql.py Filters')])
p('C04', 'Metric arithmetic and lists behave like element-wise arithmetic',
  'Any expression of metrics and constants with + - * / ** and unary minus (on either side, nested, over metrics with one or several columns, Ratio included) gives per slice exactly the arithmetic result of its operands\' values under the documented formatted name, aligning operands by their index and broadcasting over the levels one operand lacks. A MetricList gives its children\'s results side by side, with name_tmpl, rename_columns and set_name applied to exactly the names they address.',
  ['inputs', 'programs'], 'every expression tree over metrics and numbers, every table and split_by',
  'tests try each operator once with scalar children; nested, multi-column, broadcast and reversed forms over slices are not covered',
  ['metrics.py'], [('operator overloads and CompositeMetric.compute_on_children', 'metrics.py CompositeMetric'), ('list concatenation', 'metrics.py MetricList.compute_on_children')])
p('C05', 'Caching never changes an answer and inputs are never modified',
  'Whatever was computed before, in the same metric tree, with the same metric objects or with shared cache keys, each computation returns what a fresh metric would return on the same data; a cached answer is reused only for the same metric, data, slicing and filter. Neither the user\'s DataFrame nor a previously returned result, nor the metric objects, is altered by a computation, including one that raises.',
  ['histories', 'inputs', 'programs'], 'every sequence of computations over several metrics, tables, split_by and cache keys; every tree in which sub-metrics recur',
  'tests cover a few fixed two-call histories with an explicit cache key',
  ['metrics.py', 'operations.py', 'utils.py'], [('cache dict, cache keys and fingerprints', 'metrics.py Metric.compute_through, compute_on, in_cache, save_to_cache, get_cached; utils.py CacheKey'), ('tree-wide caching', 'metrics.py MetricList.compute_slices, CompositeMetric')])
p('C06', 'Metrics considered equal compute the same thing',
  'Two metrics that compare equal, or share a fingerprint, produce the same values on every table; metrics that differ in any value-affecting option, child, operator, operand order or filter are not equal. Equality is reflexive, symmetric and consistent with hashing; copying or pickling a metric gives an equal one, and renaming does not change the values.',
  ['programs', 'inputs'], 'every pair of metric trees that differ by one mutation or by none',
  'tests compare a few hand-picked pairs',
  ['metrics.py', 'operations.py', 'utils.py'], [('fingerprints', 'metrics.py Metric.get_fingerprint, CompositeMetric.get_fingerprint; operations.py get_fingerprint overrides'), ('__eq__/__hash__', 'metrics.py Metric')], ['Metric.__eq__', 'Metric.__hash__', 'Metric.get_fingerprint'])
p('C07', 'Distributions sum to one and cumulate in the requested order',
  'Distribution(over)/Normalize gives each child value divided by the total of its slice, so values sum to 1 within every split_by slice; CumulativeDistribution gives their running sum in the order requested (over columns, an explicit order list, or the values; ascending or descending), ending at 1, with rows listed in that order. This holds for any number of over and split_by columns and any child metric.',
  ['inputs', 'programs'], 'every child metric, over/split_by column choice, order option and table',
  'tests use two or three rows per slice and one over column',
  ['operations.py'], [('Distribution/CumulativeDistribution.compute_on_children', 'operations.py')])
p('C08', 'Percent and absolute change compare every condition with its baseline',
  'For each slice and each condition value other than the baseline, AbsoluteChange gives value minus baseline and PercentChange gives 100*(value/baseline - 1) of the child metric, where the baseline is that of the same slice. The baseline row is present exactly when asked for (and then is 0), a condition may be several columns with a tuple baseline, and conditions or slices lacking a baseline never borrow another slice\'s.',
  ['inputs', 'programs'], 'every child metric, condition column set, baseline, include_base choice, split_by and table',
  'tests use one condition column with two values and complete slices',
  ['operations.py'], [('Comparison, PercentChange, AbsoluteChange', 'operations.py')])
p('C09', 'MH gives the Mantel-Haenszel estimate of the ratio change',
  'MH(condition, baseline, stratified_by) of a ratio (or list of ratios, of any two metrics) gives per slice and condition 100*(sum_s a_s*n0_s/(n_s) / sum_s a0_s*d_s/(n_s) - 1), the Mantel-Haenszel estimate over strata, using only strata in which both arms are present. It is invariant to the order and labels of strata and equals the percent change when there is one stratum.',
  ['inputs', 'programs'], 'every table with any strata sizes (including strata missing an arm), condition columns, split_by, numerator and denominator metrics',
  'tests use fixed tables with 2-3 strata',
  ['operations.py'], [('MH.compute_on_children / compute_slices', 'operations.py MH')])
p('C10', 'CUPED and PrePostChange equal the regression-adjusted change',
  'CUPED gives, per slice and condition, the difference in means after subtracting the pooled-regression effect of the centred covariates, and PrePostChange gives the percent change after fitting condition, covariates and their interactions, both computed on the metric aggregated by the stratifying columns. Results do not depend on row order or on shifting a covariate by a constant, and the baseline row appears only when asked for.',
  ['inputs', 'programs'], 'every table, covariate list, stratification, condition columns and split_by for which the adjustment is determined (non-singular)',
  'tests use a few 4-8 row tables with one or two covariates',
  ['operations.py'], [('PrePostChange.compute_slices/adjust_value', 'operations.py PrePostChange'), ('CUPED.adjust_value', 'operations.py CUPED')])
p('C11', 'Jackknife equals leave-one-unit-out recomputation',
  'For any child metric, Jackknife reports the child\'s own value and the standard error of the jackknife: sqrt((n-1)/n * sum of squared deviations of the leave-one-unit-out values), over the units present in each slice; with a confidence level it reports the matching t-interval. The optimised and the unoptimised computation agree, and units, slices and conditions that vanish in a replicate are handled the same way as recomputing on the reduced data.',
  ['inputs', 'programs'], 'every child metric tree (simple, composite, list, comparison, distribution), unit assignment, split_by and table',
  'tests compare a few metrics on fixed tables with 2-4 units',
  ['operations.py', 'utils.py'], [('Jackknife fast/slow paths', 'operations.py Jackknife, compute_child/get_samples/precompute'), ('slice adjustment', 'utils.py adjust_slices_for_loo')])
p('C12', 'Bootstrap resamples units faithfully and summarises the replicates',
  'Bootstrap(unit, child, n) reports the child\'s own value and the standard deviation (or confidence interval) of exactly n replicates, each of which is the child computed on units (or rows) drawn with replacement, as many as there are in the data, with all rows of a drawn unit kept together; PoissonBootstrap draws Poisson(1) copies per unit. Replicates are the same whether or not the optimised path is taken, are reproducible from the numpy seed, and never depend on the units of the point estimate being unsampled.',
  ['inputs', 'programs', 'configurations'], 'every child metric tree, table, unit column, split_by, seed and replicate count',
  'tests mock a single random draw on one fixed table',
  ['operations.py'], [('Bootstrap/PoissonBootstrap.get_samples, resample_units', 'operations.py'), ('MetricWithCI summary', 'operations.py MetricWithCI')])
p('C13', 'Diversity metrics equal their definitions on normalized shares',
  'HHI is the sum of squared shares, Entropy minus the sum of share*log(share), TopK the total share of the k largest, and Nxx the least number of largest contributors whose total share reaches the target, of the child metric normalised over the given columns within each slice. HHI lies between 1/n and 1 and Entropy between 0 and log(n) for non-negative values, and zero shares contribute nothing.',
  ['inputs', 'programs'], 'every non-negative child metric, over/split_by columns, k, x and table',
  'there is no dedicated test file for diversity beyond a few fixed tables',
  ['diversity.py'], [('compute_on_children of HHI, Entropy, TopK, Nxx', 'diversity.py')])
p('C14', 'Models fit the stated objective on the aggregated data',
  'A Model computes y and x on the groupby columns and returns, per slice, the coefficients (and intercept unless disabled) that minimise its documented objective on those rows: least squares, ridge, lasso, elastic net or logistic likelihood, with normalisation where asked. Coefficients are labelled by the x metrics, unaffected by row order, and the fit is repeated independently for each slice.',
  ['inputs', 'programs'], 'every table, x/y metrics, groupby, split_by and option set for which the optimum is unique',
  'tests compare against sklearn on one generated table per model',
  ['models.py'], [('Model.compute and subclasses', 'models.py')])
p('C15', 'SQL of simple, composite, filtered metrics gives the DataFrame answer',
  'For every metric built from simple metrics with SQL support, arithmetic, lists, names and filters, executing the query returned by to_sql, or calling compute_on_sql in any mode, on a table holding the same rows gives the same index, columns and values as compute_on. Table may be a name or a subquery; split_by and filters may be any supported expression.',
  ['inputs', 'programs', 'configurations'], 'every such metric tree, table, split_by and filter placement',
  'no repository test executes or mentions SQL',
  ['metrics.py', 'sql.py', 'utils.py'], [('get_sql_and_with_clause', 'metrics.py'), ('Column/Filter/Columns rendering', 'sql.py'), ('to_dataframe/index handling', 'metrics.py Metric.compute_on_sql')], ['Metric.to_sql', 'Metric.compute_on_sql'])
p('C16', 'SQL of operations gives the DataFrame answer',
  'For Distribution, CumulativeDistribution, PercentChange, AbsoluteChange, MH, CUPED, PrePostChange, HHI, Entropy, TopK and Nxx over children with SQL support, nested and filtered in any supported way, the generated SQL executed on the same rows gives what compute_on gives. Common subqueries are shared without changing any value.',
  ['inputs', 'programs', 'configurations'], 'every supported operation tree, table, split_by and filter placement',
  'no repository test executes or mentions SQL',
  ['operations.py', 'diversity.py', 'metrics.py', 'sql.py'], [('get_sql_and_with_clause of operations', 'operations.py, diversity.py'), ('WITH-clause merging', 'sql.py Datasources')], ['Metric.to_sql', 'Metric.compute_on_sql'])
p('C17', 'Mixed-mode SQL equals the DataFrame computation',
  'compute_on_sql(mode="mixed"), which computes only leaf metrics in SQL and the rest in Python, gives what compute_on gives for every supported metric tree, split_by and filter, with caching across the tree not changing any value. The temporary state it builds does not leak: a later call on another table, mode or split gives the right answer.',
  ['inputs', 'programs', 'histories'], 'every supported metric tree and sequence of calls',
  'no repository test executes or mentions SQL',
  ['metrics.py', 'operations.py', 'utils.py'], [('compute_on_sql_mixed_mode', 'metrics.py, operations.py'), ('equivalent metric rewriting', 'utils.py get_equivalent_metric_tree')], ['Metric.compute_on_sql'])
p('C18', 'SQL resampling gives the same standard errors and intervals',
  'Jackknife in SQL (mode None and mixed) gives the same point estimates, standard errors and intervals as the DataFrame computation; Bootstrap and PoissonBootstrap in SQL draw replicates over the same units as documented, with the child\'s own value as point estimate and a spread that is the sample standard deviation of the drawn replicates.',
  ['inputs', 'programs', 'configurations'], 'every supported child metric tree, table, unit, split_by and confidence',
  'no repository test executes or mentions SQL',
  ['operations.py', 'sql.py'], [('get_se_sql, get_jackknife_data_*, bootstrap_by_*', 'operations.py')], ['Metric.to_sql', 'Metric.compute_on_sql'])
p('C19', 'Model fitting through SQL agrees with the DataFrame fit',
  'For every model, compute_on_sql in mode None/mixed and in the magic (sufficient-statistics) mode returns the coefficients that compute_on returns on the same rows, up to the optimiser tolerance, with the same labels, for every slice.',
  ['inputs', 'programs', 'configurations'], 'every model option set, x/y metrics, groupby, split_by and well-conditioned table',
  'no repository test executes or mentions SQL',
  ['models.py'], [('compute_on_sql_magic_mode and sufficient statistics', 'models.py')], ['Model.compute_on_sql'])
p('C20', 'Output formats are lossless views of the same result',
  'Melted output holds exactly the values of the unmelted one with the metric names as the outermost index level in column order; melting and unmelting are inverse for every result shape, including confidence intervals. return_dataframe=False gives the scalar or Series with the same values, the pipe form and the free functions give the same as the method form, and apply_name_tmpl changes only names.',
  ['inputs', 'programs'], 'every metric result shape: one/many metrics, no/one/many index levels, with or without CI columns',
  'tests round-trip two or three fixed frames',
  ['utils.py', 'metrics.py'], [('melt, unmelt, apply_name_tmpl, remove_empty_level', 'utils.py'), ('to_dataframe, manage output', 'metrics.py Metric.compute_on'), ('__or__ pipelines', 'metrics.py; operations.py Operation.__call__')])
p('C21', 'The confidence-interval table shows the right numbers and highlights',
  'For every comparison result, the display has one row per experiment and dimension slice in the requested order, shows for each metric the control value, the ratio or diff and the interval given in the data, and highlights a cell as positive or negative exactly when its interval excludes zero in that direction (with flip_color swapping the two). Duplicate or missing control rows and hidden null controls are handled as documented and inconsistent control values are reported as an error.',
  ['inputs', 'configurations'], 'every valid input frame (any experiments, dimensions, metrics, order, missing cells) and display option',
  'tests compare whole HTML strings for a few fixed frames',
  ['confidence_interval_display.py'], [('get_formatted_df, MetricFormatter, add_control_rows, sorting', 'confidence_interval_display.py')], ['get_formatted_df', 'render'])
p('C22', 'SQL building blocks keep meaning under combination',
  'Combining columns, filters, datasources and queries (arithmetic on columns, adding to sets, merging queries) preserves meaning: precedence is kept by parentheses, a column added once is not lost or duplicated, distinct subqueries never share an alias and equal ones do, aliases are valid identifiers, filters are conjunctions without duplicates, and rendering is deterministic.',
  ['inputs', 'histories'], 'every sequence of additions and combinations of components',
  'no repository test exercises sql.py directly',
  ['sql.py'], [('Column, Columns, Filters, Datasource, Datasources, Sql, escape_alias, is_compatible', 'sql.py')], ['sql.Sql.__str__'])
p('C23', 'Confidence-interval results expose the right display inputs',
  'The result of Jackknife/Bootstrap with confidence behaves as a plain table with Value and interval columns whose half-width matches the standard error and degrees of freedom, lower <= value <= upper order is kept for any confidence in (0,1), and its display() hands the renderer the same values, control values, dimensions and metric order as the result. Comparisons keep the baseline values needed for display consistent with the child metric computed directly.',
  ['inputs', 'programs', 'configurations'], 'every child metric/comparison, confidence, split_by and table',
  'tests check one fixed display call',
  ['operations.py'], [('get_display_fn, MetricWithCI.manipulate/construct', 'operations.py')])
p('C24', 'User-defined metrics and operations work like built-in ones',
  'A custom metric that defines its computation on a frame (returning a scalar, a Series or a frame, with or without index) gives per slice its value on that slice and can be filtered, combined, listed, compared, distributed and jackknifed with the same results as an equivalent built-in metric. A custom operation that works on its children\'s result is applied to the children\'s sliced output.',
  ['inputs', 'programs'], 'every custom metric hook (compute, compute_slices, compute_on_children, final_compute...) and tree position, every table',
  'tests define two or three custom metrics on fixed tables',
  ['metrics.py', 'operations.py'], [('compute/compute_slices/compute_on_children/postprocess hooks', 'metrics.py Metric; operations.py Operation')])
p('C25', 'Beam computation equals the SQL computation on the same rows',
  'compute_on_beam runs, for every supported metric, the same queries on the given collection as compute_on_sql on the equivalent table, with the caller\'s execute function evaluating each query exactly on that collection, and returns the same result. Collecting a collection to a DataFrame returns every row once with the right columns and cleans up what it wrote.',
  ['inputs', 'programs', 'fault_sequences'], 'every supported metric tree, split_by, mode and collection',
  'Beam is not installed and no repository test covers it',
  ['metrics.py', 'operations.py', 'utils.py'], [('compute_on_beam', 'metrics.py, models.py'), ('pcollection_to_df_via_file_io', 'utils.py')], ['Metric.compute_on_beam'])
p('C26', 'Metric trees print, traverse and chain without changing meaning',
  'Traversal visits every node of a metric tree once, parents before children, the DOT text contains one node per metric, labelled with its name and filter, and one edge per parent-child link, and neither alters the tree. Chaining an operation onto a metric, or reusing one operation object for several metrics, gives independent trees: filling in the child of one never affects the other.',
  ['programs', 'histories'], 'every metric tree and every order of chaining operations onto shared operation objects',
  'tests compare one fixed DOT string and a couple of chains',
  ['metrics.py', 'operations.py', 'utils.py'], [('traverse, to_dot, visualize', 'metrics.py'), ('Operation.__call__ copying', 'operations.py'), ('get_leaf_metrics', 'utils.py')], ['Metric.to_dot', 'Metric.traverse', 'Metric.__or__'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, x['title']
    f.write(json.dumps(x) + '\n')
