DEFAULT_TECH = 'property-based testing (Hypothesis, shrinking to a replay file) against an independent reference model'
DEFAULT_NOTE = ('Random search with shrinking over generated tables and metric trees; holds on the cases generated '
                '(counts and samples in the evidence file), no proof. Trusts pandas, numpy and the reference model in vp/.')
SQL_NOTE = ('Random search with shrinking; queries are executed by an own interpreter of the BigQuery SQL subset the '
            'library generates (vp/bq.py, arbitrary row order), not by BigQuery itself. No proof.')
TECH = {
    'C02': 'metamorphic property-based testing: slicing against computing on each slice, and the reference model',
    'C03': 'metamorphic property-based testing: filtered metric against filtered input, and the reference model',
    'C05': 'stateful property-based testing of histories of calls, caches and shared nodes against fresh computations',
    'C06': 'property-based testing: metric pairs one mutation apart, with a search for a table that tells them apart',
    'C11': 'property-based testing against leave-one-unit-out recomputation by the reference model',
    'C12': 'property-based testing: every replicate recomputed on the resample that was really drawn (recorded), plus statistical checks with fixed seeds',
    'C14': 'property-based testing against optimality conditions and independent solvers',
    'C15': 'differential property-based testing: generated SQL run by an own BigQuery interpreter against the reference model',
    'C16': 'differential property-based testing: generated SQL run by an own BigQuery interpreter against the reference model',
    'C17': 'stateful differential property-based testing of SQL modes, caches and tables against the reference model',
    'C18': 'differential and statistical property-based testing of SQL resampling against recomputation',
    'C19': 'differential property-based testing of SQL-fitted models against independent solvers',
    'C20': 'property-based testing of round trips (melt, unmelt, formats) and the reference model',
    'C21': 'property-based testing of the rendered table (HTML parsed back) against an independent reference model',
    'C22': 'stateful property-based testing of sequences of additions and merges, executed by an own BigQuery interpreter',
    'C23': 'property-based testing: the inputs of the renderer (recorded) against the result and the reference model',
    'C24': 'metamorphic property-based testing: user-defined metrics against equivalent built-in ones',
    'C25': 'differential property-based testing with fault injection: a recording stand-in for Beam against compute_on_sql',
    'C26': 'stateful property-based testing of chaining histories; parsed DOT text against the tree',
}
NOTE = {p: SQL_NOTE for p in ('C15', 'C16', 'C17', 'C18', 'C19', 'C22')}
NOTE['C25'] = ('Random search with shrinking. apache_beam is not installed: a stand-in for the classes and functions the '
               'library calls stands for it; queries run in an own interpreter of BigQuery SQL. No proof.')
NA = {}
