E = "crates/engine/"
S = E+"src/"
QS = E+"query-solver/src/"
OP = E+"operation/src/"
T = "runtime monitoring: "
LAB = "the real engine between generated clients and recording stand-ins for the subgraphs; "
PROPS = [
 dict(id="E01", title="Federated queries are answered as if one server had all the data",
  statement="Every valid query gets the answer that the GraphQL specification gives for the API schema over the data of all the subgraphs together, without errors, whichever way it has to be split over the subgraphs. Every request to a subgraph is valid for that subgraph's own schema, and asks it only for entities by a key it has and only with the fields it requires.",
  over=["inputs", "configurations"], for_all="every composed federation, every valid query with fragments, aliases, variables, defaults and @skip/@include, and every consistent set of subgraphs",
  why="The integration tests answer a few hundred fixed queries; whether a plan is right depends on how keys, @requires, @provides, interfaces, abstract types, aliases and merged selections combine, which is unbounded.",
  files=[QS+"solve/mod.rs", QS+"solution_space/mod.rs", QS+"post_process/mod.rs", S+"prepare/operation_plan", S+"execution/operation", S+"resolver/graphql", S+"response", OP+"bind", E+"schema/src/builder"],
  mechanism=[("operation graph and Steiner tree", QS+"solve/mod.rs"), ("splitting into partitions", QS+"post_process/partition_cycles.rs"), ("entities requests", S+"resolver/graphql"), ("merging of responses", S+"response/write")],
  technique=T+LAB+"answers compared with an independent executor over one world of data, every subgraph request validated and executed by it"),
 dict(id="E02", title="Mutations are executed exactly once, one after the other, in order",
  statement="Every root field of a mutation that is not skipped is executed by its subgraph exactly once, in the order in which it is first asked for, and after everything before it has been answered; nothing that is only read is executed as a mutation. This holds also when an answer of a subgraph is lost: nothing is repeated, and the client is told by an error.",
  over=["inputs", "schedules", "fault_sequences"], for_all="every mutation over one or several subgraphs, delay of the answers and set of lost answers",
  why="A handful of tests run two or three mutation fields in a fixed arrangement; the order depends on how partitions are formed, and double execution only shows in a record of what the subgraphs did.",
  files=[QS+"post_process/mutation_order.rs", QS+"post_process/partition_cycles.rs", S+"execution/operation", S+"prepare/operation_plan", S+"resolver/graphql"],
  mechanism=[("dependencies between mutation fields", QS+"post_process/mutation_order.rs"), ("execution of plans", S+"execution/operation")],
  technique=T+LAB+"a record of the executed fields with times is checked for exactly-once, order and no overlap, under delays and lost answers"),
 dict(id="E03", title="Failures of subgraphs cost exactly the data they concern, and are reported",
  statement="When requests to subgraphs fail or their answers are incomplete, the client gets an answer that is valid for the API schema, in which every value that is there is the right one, null stands only for what was lost (with the propagation of null that the specification asks for) and nothing is left out. Every failed request is reported by at least one error whose path leads to something that is missing; nothing is reported when nothing failed.",
  over=["inputs", "fault_sequences", "schedules"], for_all="every query and every set of failures: lost connections, status codes, malformed, truncated, incomplete or mistyped answers, errors with and without paths",
  why="Tests break single requests of fixed queries; what has to be null follows from the interplay of nullability, merged fields, entities and the place of the failure.",
  files=[S+"response/write", S+"response", S+"resolver/graphql", S+"execution/operation", S+"response/error.rs"],
  mechanism=[("reading answers of subgraphs", S+"response/write"), ("propagation of null", S+"response/write"), ("errors of subgraphs", S+"resolver/graphql")],
  technique=T+LAB+"faults injected into answers; the partial answer is judged against the complete one of an independent executor"),
 dict(id="E04", title="Invalid operations are refused with an error and nothing is sent",
  statement="An operation that breaks a validation rule the gateway claims to apply (syntax, unknown or inaccessible fields, types, arguments, fragments and variables, wrong leafs, missing or badly typed values), or whose variables do not fit, is answered with errors and without data, and no subgraph is called. It never makes the gateway fail otherwise.",
  over=["inputs"], for_all="every operation that differs from a valid one in one or several places, and every set of variables",
  why="Tests contain one example per rule; a rule has to hold in every position (arguments, lists, input objects, fragments, directives) and nothing may panic.",
  files=[OP+"parse", OP+"validation", OP+"bind", S+"prepare/without_cache.rs", S+"graphql_over_http"],
  mechanism=[("parsing", OP+"parse"), ("binding against the schema", OP+"bind"), ("coercion of values", OP+"bind"), ("validation", OP+"validation")],
  technique=T+LAB+"operations broken in one of many ways, judged by an independent validator; what reached the subgraphs is recorded"),
 dict(id="E05", title="Operations over a configured limit are refused, all others answered",
  statement="An operation that exceeds the configured limit on depth, height, aliases, root fields or complexity is refused with an error and nothing is sent, wherever its fields are (fragments count as if written out). One at or under all limits is answered in full; introspection is answered only where it is enabled.",
  over=["inputs", "configurations"], for_all="every operation and every combination of limits",
  why="Tests use one operation per limit; fragments, nesting and several limits at once are not tried at the boundary.",
  files=[OP+"validation", OP+"bind"],
  mechanism=[("operation limits", OP+"validation"), ("introspection guard", OP+"validation")],
  technique=T+LAB+"limits set at, above and below an independent measure of the operation"),
 dict(id="E06", title="Requests do not influence each other, however they are sent",
  statement="Every request gets the answer to its own operation with its own variables, whatever else is running at the time or has been cached: alone or in a batch, by POST or GET, with several operations in the document of which it names one. Batches over the limit are refused, and a mutation sent by GET is never executed.",
  over=["schedules", "histories", "inputs"], for_all="every history of requests, of which some are concurrent and share documents, names and cached operations",
  why="Tests send one request at a time; confusion of cache keys or shared state only shows with similar requests that follow each other or overlap.",
  files=[S+"prepare/cached", S+"prepare/with_cache.rs", S+"engine/cache.rs", S+"engine.rs", S+"graphql_over_http", OP+"request"],
  mechanism=[("cache of prepared operations", S+"prepare/with_cache.rs"), ("batches", S+"engine.rs"), ("requests by GET", OP+"request")],
  technique=T+LAB+"concurrent histories over few similar operations, every answer compared with that of an independent executor; calls recorded"),
 dict(id="E07", title="Introspection shows exactly the schema that clients may use",
  statement="Introspection, in whatever selection, shows exactly the types, fields, arguments, input fields, enum values, directives, defaults, descriptions and deprecations of the API schema, and nothing that is inaccessible. It asks no subgraph.",
  over=["inputs", "configurations"], for_all="every composed federation, with and without inaccessible parts, and every selection of introspection fields",
  why="Snapshots show a few schemas with the standard query; leaks of inaccessible elements depend on where they are referenced.",
  files=[S+"resolver/introspection", E+"schema/src/builder"],
  mechanism=[("introspection resolver", S+"resolver/introspection"), ("introspection of the schema", E+"schema/src/builder")],
  technique=T+LAB+"answers compared with an independent reading of the API schema"),
 dict(id="E08", title="Subgraphs get exactly the headers their rules grant",
  statement="A request to a subgraph carries exactly the headers that result from applying the global header rules, then those of the subgraph, in order, to the headers of the client: forwarded, renamed, defaulted, inserted, duplicated or removed. Without a rule no header of the client reaches a subgraph, and hop-by-hop and protocol headers never do.",
  over=["inputs", "configurations"], for_all="every list of header rules, global and of subgraphs, and every set of client headers",
  why="Tests apply one or two rules; their order, patterns, renames onto the same name and forbidden names interact.",
  files=[S+"execution/request/header_rule.rs", E+"schema/src/builder", "crates/gateway-config/src/header.rs"],
  mechanism=[("header rules", S+"execution/request/header_rule.rs"), ("forbidden headers", S+"execution/request/header_rule.rs")],
  technique=T+LAB+"recorded headers compared with an independent application of the rules"),
 dict(id="E09", title="Failed requests are repeated exactly where the settings allow it",
  statement="A request to a subgraph that fails in passing (no answer, 5xx, 429) is sent again if retries are enabled for this subgraph, and one of a mutation only if mutations are to be retried too; the settings of a subgraph replace the global ones. Nothing else is ever sent twice, and failures that pass are not seen by the client.",
  over=["fault_sequences", "configurations", "inputs"], for_all="every operation, combination of retry settings and sequence of failing tries",
  why="Two tests count the tries of one field with the settings of a subgraph; global settings, both at once and several subgraphs are never combined.",
  files=[S+"engine/retry_budget.rs", S+"resolver/graphql/request/execute.rs", E+"schema/src/builder/subgraphs.rs"],
  mechanism=[("retries", S+"resolver/graphql/request/execute.rs"), ("retry budgets", S+"engine/retry_budget.rs")],
  technique=T+LAB+"tries made to fail, the number of tries of each request compared with the settings"),
]
