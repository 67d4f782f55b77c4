R = "crates/"
PROPS = [
 dict(id="S01", title="Type wrappings behave as the list/non-null stack they denote",
  statement="A type wrapping (list and non-null modifiers, up to ten nested lists) answers every question about itself — display, iteration from the inside or the outside, nullability, removal or addition of the outermost modifier, serialization — exactly as the stack of modifiers it was built from. Two wrappings are equal exactly when those stacks are, and one accepts another exactly when both have the same list depth and it requires non-null at no position where the other does not.",
  over=["inputs", "histories"], for_all="every wrapping of up to ten lists, and every sequence of builder and mutation operations on it",
  why="Five unit tests look at a dozen wrappings; the packed encoding has 4094 values and bit-level interactions between depth and nullability.",
  files=[R+"graphql-wrapping-types/src/lib.rs", R+"graphql-wrapping-types/src/mutable.rs"],
  mechanism=[("bit-packed stack of list wrappings", R+"graphql-wrapping-types/src/lib.rs")],
  technique="runtime monitoring: differential oracle (stack model) over all 4094 wrappings and random operation histories, overflow checks on"),
 dict(id="S02", title="Log rotation loses, duplicates and reorders nothing, and cuts on time",
  statement="Every byte a rolling log accepts is on disk exactly once, in order, across the current file and the rotated ones, also when writes are short or fail, several rotations fall into one instant, or the log is reopened on an existing file. A file is rotated at the first write after it reached its size limit or its period elapsed, and at no other moment; bytes that were not written do not count towards the limit.",
  over=["histories", "fault_sequences", "configurations"], for_all="every sequence of writes, flushes, reopenings, clock advances and write faults, for every rotation strategy",
  why="The five tests write a handful of records with one rotation each, on the real clock and without faults.",
  files=[R+"rolling-logger/src/lib.rs", R+"rolling-logger/src/log_file.rs", R+"rolling-logger/src/strategy.rs"],
  mechanism=[("rotate by renaming, then reopen", R+"rolling-logger/src/lib.rs"), ("size and lifetime accounting", R+"rolling-logger/src/log_file.rs")],
  technique="runtime monitoring: conservation oracle over the files on disk, with clock control and write-fault injection at the C library boundary"),
 dict(id="S03", title="Environment placeholders in configuration strings expand exactly",
  statement="In a dynamic configuration string every `{{ env.NAME }}` placeholder is replaced by that variable's value exactly once, text from a variable is never expanded again, and everything else is kept character for character. A placeholder that cannot be resolved (unset variable, unsupported scope) makes the whole string an error that names it, and a restricted target type refuses what it cannot hold instead of altering it.",
  over=["inputs", "configurations"], for_all="every string and every environment",
  why="Thirteen tests cover one or two placeholders each; adjacency, unbalanced braces, values that look like placeholders and non-ASCII text are unbounded.",
  files=[R+"serde-dynamic-string/src/lib.rs"],
  mechanism=[("single-pass placeholder substitution", R+"serde-dynamic-string/src/lib.rs")],
  technique="runtime monitoring: differential oracle (independent scanner) over generated strings"),
 dict(id="S04", title="Graph references parse into their parts and print back unchanged",
  statement="A graph reference `graph[@branch[#version]]` is split at the first `@` and the first `#` after it, and prints back as the text it was parsed from. Exactly the references with a non-empty graph name without an account prefix are accepted, and the correction suggested for an account prefix keeps branch and version.",
  over=["inputs"], for_all="every string",
  why="Two tests list about ten references.",
  files=[R+"graph-ref/src/lib.rs"], mechanism=[("FromStr and Display", R+"graph-ref/src/lib.rs")],
  technique="runtime monitoring: differential oracle and round trip over generated references"),
 dict(id="S05", title="Operation events are delivered exactly once, in order, filtered, intact",
  statement="Every event pushed to the event queue whose kind passes the configured filter is popped exactly once with the content it was built with, events of filtered kinds never appear and their deferred construction never runs, and a queue without filter keeps nothing. Under concurrent producers and consumers the queue behaves as one FIFO: an event is not overtaken by one pushed after it, and a pop reports emptiness only if the queue was empty at some moment during it.",
  over=["schedules", "histories", "configurations"], for_all="every interleaving of producers and consumers, every filter and every event content",
  why="The event queue has no test; ordering and exactly-once are statements about interleavings.",
  files=[R+"event-queue/src/lib.rs", R+"event-queue/src/events.rs", R+"event-queue/src/events/builder.rs", R+"event-queue/src/filter.rs"],
  mechanism=[("lock-free queue behind a kind filter", R+"event-queue/src/lib.rs"), ("event builders", R+"event-queue/src/events/builder.rs")],
  technique="runtime monitoring: offline linearizability-style checking of recorded concurrent histories under injected delays"),
 dict(id="S06", title="Id ranges, id sets and id maps agree with the collections they stand for",
  statement="A range of ids enumerates, indexes and measures exactly the consecutive ids it denotes from either end; an id set behaves as a set of integers under every update, combination and serialization; an id-to-values map returns exactly the values related to an id. Ids convert to and from integers without change, print their number, order like it, and refuse integers that do not fit; stores indexed by id or range, and walks over ids, yield the addressed elements in order.",
  over=["inputs", "histories"], for_all="every id type width, every range, every sequence of set operations and every relation",
  why="One test sets one bit. Off-by-one errors at word boundaries, empty ranges and the largest id are not sampled.",
  files=[R+"engine/id-newtypes/src/range.rs", R+"engine/id-newtypes/src/bitset.rs", R+"engine/id-newtypes/src/many.rs", R+"engine/id-newtypes/src/one.rs", R+"engine/id-derives/src/id.rs", R+"engine/id-derives/src/indexes.rs", R+"engine/walker/src/iter.rs", R+"engine/walker/src/lib.rs"],
  mechanism=[("half-open id ranges", R+"engine/id-newtypes/src/range.rs"), ("derived id conversions", R+"engine/id-derives/src/id.rs"), ("walk iterators", R+"engine/walker/src/iter.rs")],
  technique="runtime monitoring: model-based oracles over random operation histories, overflow checks on"),
 dict(id="S07", title="Extension manifests survive storage; catalogue lookups follow link rules",
  statement="An extension manifest, its id and the extension lockfile read back from their stored form unchanged, manifests written in the earlier spellings included, and a permission is granted exactly when the manifest lists it. The catalogue resolves a schema link to the first extension that declares that link URL, otherwise to the first one of the given name whose version satisfies the requirement, otherwise to nothing; malformed ids are errors, not crashes.",
  over=["inputs", "configurations", "histories"], for_all="every manifest, every catalogue content and every link",
  why="Fifteen tests each parse one manifest, and the catalogue lookup is not tested.",
  files=[R+"extension/src/id.rs", R+"extension/src/manifest/v1.rs", R+"extension/src/manifest/mod.rs", R+"extension/src/lockfile.rs", R+"extension-catalog/src/catalog.rs"],
  mechanism=[("versioned manifest serialization", R+"extension/src/manifest/mod.rs"), ("link resolution", R+"extension-catalog/src/catalog.rs")],
  technique="runtime monitoring: round-trip and differential oracles over generated manifests, ids and catalogues"),
 dict(id="S08", title="Field selection maps parse to their grammar and print back to themselves",
  statement="Every well-formed field selection map (paths with type conditions, objects, lists, alternatives, identity) is accepted and parsed into exactly the structure the grammar gives it, whatever white space separates its tokens, and its printed form parses back to the same structure. Malformed text is refused with a message.",
  over=["inputs"], for_all="every text",
  why="Thirty-two tests parse one text each; nesting, alternatives inside objects, and near misses are unbounded.",
  files=[R+"engine/field-selection-map/src/parser.rs", R+"engine/field-selection-map/src/model.rs"],
  mechanism=[("combinator parser", R+"engine/field-selection-map/src/parser.rs"), ("Display", R+"engine/field-selection-map/src/model.rs")],
  technique="runtime monitoring: differential oracle (independent recursive-descent parser) and round trip over generated and mutated texts"),
]
