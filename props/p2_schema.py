D = "crates/graphql-schema-diff/src/"
T = "runtime monitoring: "
PROPS = [
 dict(id="D01", title="A schema diff reports exactly the structural changes, at their places",
  statement="For every two schemas, diff reports each added, removed or changed type, field, argument, default, enum value, union member, interface implementation, root, directive definition and schema extension exactly once with its right kind and path, and nothing that did not change: neither order, comments, descriptions nor the splitting into definition and extensions count. The span of an addition or change shows exactly the text of that element in the target.",
  over=["inputs"], for_all="every pair of valid schemas, with extensions, comments, strings and any layout",
  why="Snapshots cover some 40 pairs with mostly one change each; paths, deduplication and partitioning by path depend on how changes combine and on names shared between kinds.",
  files=[D+"lib.rs", D+"state.rs", D+"traverse_schemas.rs", D+"change.rs"],
  mechanism=[("ingestion and matching by path", D+"traverse_schemas.rs"), ("classification of changes", D+"state.rs")],
  technique=T+"differential oracle (independent parser and structural comparison) on generated and edited schemas"),
 dict(id="D02", title="Patching a schema with a diff gives the target, and keeps the rest",
  statement="For every source and target schema, patch(source, diff(source, target)) is valid GraphQL whose structure is that of the target. What is in both keeps the descriptions, directives and input defaults it has in the source.",
  over=["inputs"], for_all="every pair of valid schemas (the target without type extensions), the source possibly split into extensions",
  why="Patching is a text rewriting where each kind of change and its neighbours (last field, empty block, several extensions) needs its own code; the tests hold one or two changes per case.",
  files=[D+"patch.rs", D+"patch/type_definitions.rs", D+"patch/paths.rs", D+"patch/schema_definitions.rs", D+"patch/directives.rs"],
  mechanism=[("rewriting of definitions", D+"patch/type_definitions.rs"), ("lookup of changes by path", D+"patch/paths.rs")],
  technique=T+"round-trip oracle through an independent parser on generated and edited schemas"),
 dict(id="D03", title="Paths and changes in a diff survive their text forms",
  statement="Every path a schema diff can contain, written as text, parses into the same path; any other text is refused without a panic. Kinds of changes and whole changes survive serialisation likewise.",
  over=["inputs"], for_all="every path, every text near one, every kind of change",
  why="Unit tests parse a dozen fixed paths; patches are stored and sent as text, so any path a name or index can produce must be read back.",
  files=[D+"path/parse.rs", D+"path/display.rs", D+"path.rs", D+"change.rs"],
  mechanism=[("parsing of paths", D+"path/parse.rs")],
  technique=T+"round-trip oracle on generated and mutated texts"),
]
