V = "crates/graphql-schema-validation/src/"
T = "runtime monitoring: "
FILES = [V+"validate.rs", V+"context.rs"] + [V+"validate/"+f for f in ("objects.rs", "interfaces.rs", "interface_implementers.rs", "input_objects.rs", "input_object_cycles.rs", "enums.rs", "unions.rs", "scalars.rs", "directive_definitions.rs", "arguments.rs", "object_field.rs", "schema_definition.rs", "type_definition.rs", "input_types.rs", "output_types.rs")]
PROPS = [
 dict(id="V01", title="Schema validation accepts every valid schema document",
  statement="A schema document that breaks no type system rule of the GraphQL specification gets no error from schema validation, in whatever order its definitions are, and however they are spread over definitions and extensions. Without the option that forbids extensions of unknown types, types that have only extensions are valid too, wherever they are used; rules of the draft apply only when asked for.",
  over=["inputs", "configurations"], for_all="every valid schema document and every set of options",
  why="5 valid documents are tested; each rule has to see definitions and extensions together, in any order, so a false alarm depends on the combination of a rule, a place and the way the document is split.",
  files=FILES,
  mechanism=[("collection of definitions and extensions", V+"context.rs"), ("implementation of interfaces", V+"validate/interface_implementers.rs")],
  technique=T+"differential oracle (independent validity rules) on generated documents"),
 dict(id="V02", title="Schema validation reports every broken type system rule, wherever it is",
  statement="A schema document that breaks a rule on names, duplicates, empty types, types of fields, arguments and inputs, implementations of interfaces, unions, required input cycles, places of the directives it defines, root types or extensions gets an error that names what is wrong, whether the culprit is in a definition or an extension. Validation never panics.",
  over=["inputs", "configurations"], for_all="every schema document that breaks a rule and every set of options that has the rule",
  why="About 45 snapshots show each rule at one place; whether a rule is applied at the other places (extensions, interfaces, input fields, arguments of directives) is not tested.",
  files=FILES,
  mechanism=[("rules per kind of definition", V+"validate/"), ("collection of definitions and extensions", V+"context.rs")],
  technique=T+"mutation of valid documents in 45 classes, with an independent oracle of the broken rules"),
]
