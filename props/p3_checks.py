O = "crates/operation-checks/src/"
T = "runtime monitoring: "
FILES = [O+"check.rs", O+"check/rules.rs", O+"aggregate_field_usage.rs", O+"operation/async_graphql.rs", O+"schema/async_graphql.rs", O+"schema.rs", O+"schema/wrapping_types.rs"]
PROPS = [
 dict(id="O01", title="Operation checks report every schema change that breaks a recorded operation",
  statement="For every two schemas and recorded operations, every change that breaks what the operations use (fields, arguments given or left out, type conditions in inline or named fragments, enum values anywhere in arguments and variable defaults, input types) is reported as an error, or a warning if only requests could tell. Uses count with the weight of their operation, and those below the request threshold do not count. When nothing is reported, every operation is still valid with the new schema and gets the same types of results.",
  over=["inputs", "configurations"], for_all="every pair of schemas, every set of weighted operations and every threshold",
  why="27 snapshots hold one change and one or two operations each; lookups are by position in sorted tables and usage is spread over nested selections, fragments and values, so which use is lost depends on the whole schema and operation.",
  files=FILES,
  mechanism=[("aggregation of usage", O+"aggregate_field_usage.rs"), ("rules per kind of change", O+"check/rules.rs")],
  technique=T+"differential oracle (independent usage analysis and operation validation) on generated schemas and operations"),
 dict(id="O02", title="Operation checks raise no alarm on changes that break nothing in use",
  statement="A change that touches nothing the recorded operations use above the threshold, or that only accepts more input or promises more output, is not reported. Every diagnostic belongs to one change of the diff, in the order of the diff, with the severity of its rule, and names the place.",
  over=["inputs", "configurations"], for_all="every pair of schemas, every set of weighted operations and every threshold",
  why="A false alarm blocks a deployment; it depends on combinations of nullability, defaults, wrapping and usage that the snapshots sample once each.",
  files=FILES,
  mechanism=[("rules per kind of change", O+"check/rules.rs"), ("comparison of wrapping types", O+"schema/wrapping_types.rs")],
  technique=T+"differential oracle (independent usage analysis) on generated schemas and operations"),
 dict(id="O03", title="Without recorded operations, checks report exactly what could break one",
  statement="When everything is assumed to be in use, every change that could break some operation is reported with its severity, no other change is, and everything that is reported for recorded operations is reported here too.",
  over=["inputs"], for_all="every pair of schemas",
  why="Three unit tests; the property relates two modes of the checks over all changes.",
  files=FILES,
  mechanism=[("usage that answers yes", O+"aggregate_field_usage.rs"), ("rules per kind of change", O+"check/rules.rs")],
  technique=T+"differential and metamorphic oracle on generated schemas"),
]
