G = "crates/graphql-composition/src/"
T = "runtime monitoring: "
PROPS = [
 dict(id="C01", title="The composed schema is the merge of the subgraphs, element by element",
  statement="For every valid set of subgraphs the composed schema contains exactly the merged elements: objects, interfaces, unions and output enums are unions of what the subgraphs declare, input objects, arguments and input enums are intersections (an input or argument required anywhere stays required), and the type of a field is the most nullable of its types. Descriptions, defaults, deprecations, tags, @inaccessible, @authenticated, scopes, policies, costs and @oneOf declared by a subgraph reach the merged element, and nothing else appears in the schema.",
  over=["inputs", "configurations"], for_all="every valid set of subgraphs, in federation v1 and v2, with directives imported, prefixed, namespaced or renamed, and root types renamed",
  why="The 1+2 composition tests compare about a hundred fixed snapshots; merging rules interact (presence per subgraph, kind, wrapping, usage position), and the snapshots sample one combination each.",
  files=[G+"compose.rs", G+"compose/object.rs", G+"compose/fields.rs", G+"compose/enums.rs", G+"compose/input_object.rs", G+"compose/interface.rs", G+"compose/directives.rs", G+"compose/roots.rs", G+"compose/scalar.rs", G+"ingest_subgraph.rs", G+"emit_federated_graph.rs"],
  mechanism=[("merging of definitions by name", G+"compose.rs"), ("merging of directives", G+"compose/directives.rs"), ("ingestion of subgraphs", G+"ingest_subgraph.rs")],
  technique=T+"differential oracle (independent model of the merge rules over an independent parser) on generated federations"),
 dict(id="C02", title="The composed schema says exactly which subgraph provides what, and how",
  statement="The join metadata of a composed schema states, for every type, field, input field, enum value, union member and interface implementation, exactly the subgraphs that declare it, with their entity keys and resolvability, the type they give a field when it differs, what is external, required or provided, and overrides with their label. Whoever plans queries from it neither misses a subgraph nor asks one for something it does not have.",
  over=["inputs", "configurations"], for_all="every valid set of subgraphs with keys, external, required, provided and overridden fields",
  why="Snapshots fix single examples; join metadata depends on the combination of subgraphs that declare, override, externalise or key every field.",
  files=[G+"compose/object.rs", G+"compose/fields.rs", G+"compose/enums.rs", G+"emit_federated_graph/directive.rs", G+"emit_federated_graph/emit_fields.rs", G+"federated_graph/render_sdl/render_federated_sdl.rs", G+"subgraphs/keys.rs"],
  mechanism=[("join directives", G+"emit_federated_graph/directive.rs"), ("elision of redundant join__field", G+"federated_graph/render_sdl/render_federated_sdl.rs")],
  technique=T+"differential oracle (independent model) on generated federations"),
 dict(id="C03", title="Composition does not depend on order or on how definitions are split",
  statement="The verdict of composition and the composed and API schemas do not change with the order in which subgraphs are given, nor with the order of definitions, fields, arguments, values or members in them, nor with the splitting of a definition into a definition and extensions. Only what is documented as first-come (a description or deprecation reason on which subgraphs disagree) may follow the order of subgraphs.",
  over=["inputs", "histories"], for_all="every set of subgraphs, valid or not, and every permutation or splitting of it",
  why="Tests compose each set once, in one order.",
  files=[G+"lib.rs", G+"subgraphs.rs", G+"compose.rs", G+"compose/object.rs", G+"subgraphs/definitions.rs", G+"emit_federated_graph.rs"],
  mechanism=[("pre-composition sorting", G+"subgraphs.rs"), ("definition interning", G+"subgraphs/definitions.rs")],
  technique=T+"metamorphic oracle: paired executions of permuted and split inputs, compared in normal form"),
 dict(id="C04", title="Contradictory subgraphs are rejected, with an error that names where",
  statement="A set of subgraphs that breaks a composition rule — incompatible types, kinds, arguments or defaults, fields shared without permission, missing required inputs, keys, requires, provides and overrides that refer to what does not exist, unimplemented interfaces, visible elements of hidden types, unusable enums and inputs, ambiguous or reserved names — is never composed: the result has no graph and an error that names the offending element. Valid sets are never rejected.",
  over=["inputs"], for_all="every valid set of subgraphs broken in one of 32 documented ways at any place",
  why="Each rule has one or two snapshot examples; whether a rule fires at every place, subgraph order and combination with other features is not sampled.",
  files=[G+"compose/validate.rs", G+"validate.rs", G+"compose/fields.rs", G+"compose/object.rs", G+"compose/enums.rs", G+"compose/input_object.rs", G+"compose/reserved_names.rs", G+"compose/interface.rs", G+"diagnostics.rs"],
  mechanism=[("pre-merge and post-merge validation", G+"validate.rs"), ("diagnostics", G+"diagnostics.rs")],
  technique=T+"fault injection into generated valid federations (32 classes) with a must-reject-and-name oracle"),
 dict(id="C05", title="The API schema shows everything accessible, nothing else, and is valid",
  statement="The API schema of a composed graph contains exactly the types, fields, input fields, enum values and union members that no subgraph marks @inaccessible, with their descriptions, defaults and deprecations, and none of the federation machinery. It is a self-contained valid GraphQL schema.",
  over=["inputs"], for_all="every valid set of subgraphs with inaccessible elements anywhere",
  why="A few snapshots; a leak depends on the kind of element, on which subgraph hides it, and on how it is referenced.",
  files=[G+"federated_graph/render_sdl/render_api_sdl.rs", G+"federated_graph/render_sdl/render_api_sdl/visibility.rs"],
  mechanism=[("visibility filter", G+"federated_graph/render_sdl/render_api_sdl.rs")],
  technique=T+"differential oracle (independent model and validator) on generated federations"),
 dict(id="C06", title="A composed schema is valid GraphQL and survives being written and loaded",
  statement="The SDL of every composed graph is a valid GraphQL schema; loading it gives a graph that renders the same federated and API schemas, whatever the descriptions, strings, defaults and names in it contain.",
  over=["inputs"], for_all="every valid set of subgraphs",
  why="Tests load a handful of hand-written schemas; escaping, names and rarely combined directives are unbounded.",
  files=[G+"federated_graph/from_sdl.rs", G+"federated_graph/from_sdl/directive.rs", G+"federated_graph/from_sdl/directive_definition.rs", G+"federated_graph/render_sdl/render_federated_sdl.rs", G+"federated_graph/render_sdl/display_utils.rs", G+"federated_graph/render_sdl/directive.rs"],
  mechanism=[("loading", G+"federated_graph/from_sdl.rs"), ("rendering", G+"federated_graph/render_sdl/render_federated_sdl.rs")],
  technique=T+"round-trip oracle with two independent validators on generated federations"),
 dict(id="C07", title="Composition ends with a graph or an error whatever it is given",
  statement="Composing any set of subgraph documents, and loading any federated schema document, ends in bounded time with a graph or with at least one error, never a crash; a graph that is produced can be rendered, and its rendering can be loaded again without a crash.",
  over=["inputs"], for_all="every set of GraphQL type system documents, however contradictory, and every document loaded as a federated schema",
  why="Tests feed documents that are meaningful; undefined references, misused directives, extensions without definitions, and contradictory kinds are unbounded.",
  files=[G+"lib.rs", G+"compose/context.rs", G+"ingest_subgraph.rs", G+"ingest_subgraph/directives.rs", G+"emit_federated_graph.rs", G+"emit_federated_graph/field_types_map.rs", G+"federated_graph/from_sdl.rs", G+"federated_graph/from_sdl/directive.rs"],
  mechanism=[("validation before emission", G+"lib.rs"), ("loading of federated schemas", G+"federated_graph/from_sdl.rs")],
  technique=T+"stress with random and mutated documents under panic, hang and overflow detectors"),
 dict(id="C08", title="Composed custom directives reach the composed schema, once, where applied",
  statement="Every application of a custom directive that a subgraph imports and asks to compose appears in the composed schema, at the place and with the arguments it was applied, once however many subgraphs repeat it; directives no subgraph composes never appear. The definition of a composed directive allows all the locations and arguments its subgraphs declare, each argument once, and the schema links exactly the specifications the directives come from. Definitions that contradict each other in argument types, defaults, required arguments or repeatability are rejected, whatever the order of the subgraphs.",
  over=["inputs", "configurations"], for_all="every valid set of subgraphs, and every distribution of custom directives over subgraphs and places",
  why="Six snapshots apply a few directives to fields and types; arguments, enum values, repeated and shared applications are not covered.",
  files=[G+"compose/directives.rs", G+"compose/directive_definitions.rs", G+"ingest_subgraph/directives.rs", G+"ingest_subgraph/schema_definitions.rs", G+"emit_federated_graph/emit_linked_schemas.rs", G+"ingest_subgraph/directives/match_name.rs"],
  mechanism=[("collection of directives", G+"compose/directives.rs"), ("definitions", G+"compose/directive_definitions.rs")],
  technique=T+"conservation oracle over applications on generated federations"),
]
