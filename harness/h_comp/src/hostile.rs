//! Subgraphs that parse, and about which nothing else is promised.
use crate::universe::*;
use vcommon::Rng;
use vgql::*;

pub type Parts = Vec<(String, String, String)>;

const TYPES: [&str; 14] =
    ["A", "B", "C", "D", "Query", "Mutation", "Int", "String", "ID", "Missing", "_Any", "_Entity", "_Service", "FieldSet"];
const FIELDS: [&str; 8] = ["id", "a", "b", "c", "d", "__typename", "_entities", "_service"];
const DIRS: [&str; 42] = [
    "key", "shareable", "external", "requires", "provides", "override", "inaccessible", "tag", "authenticated",
    "requiresScopes", "policy", "interfaceObject", "extends", "deprecated", "specifiedBy", "oneOf", "cost", "listSize",
    "lookup", "require", "is", "internal", "derive", "composeDirective", "link", "custom", "federation__key",
    "federation__tag", "composite__lookup", "composite__require", "composite__is", "composite__key", "ext__thing", "thing",
    "myKey", "join__type", "join__field", "core", "skip", "inaccessible", "key", "shareable",
];
const ARGS: [&str; 20] = [
    "fields", "from", "label", "name", "reason", "scopes", "policies", "weight", "assumedSize", "slicingArguments",
    "sizedFields", "requireOneSlicingArgument", "field", "resolvable", "url", "import", "as", "for", "x", "graph",
];

pub fn field_set(r: &mut Rng, depth: usize) -> String {
    if r.pct(6) {
        return r.str(&["", " ", "{", "}", "id {", "id } a", "...", "id: a", "$x", "\"id\"", "a(", "# c", "[a]", "a | b", "<A>.id", "{ a b }", "a[b]"]).into();
    }
    let mut out = vec![];
    for _ in 0..1 + r.below(3) {
        let mut s = String::new();
        if r.pct(4) {
            s += "al: ";
        }
        if r.pct(6) {
            s += &format!("... on {} {{ {} }}", r.str(&TYPES), field_set(r, depth + 1));
        } else {
            s += r.str(&FIELDS);
            if r.pct(8) {
                s += &format!("(a: {})", value(r, 1));
            }
            if depth < 4 && r.pct(25) {
                s += &format!(" {{ {} }}", field_set(r, depth + 1));
            }
        }
        out.push(s);
    }
    out.join(r.str(&[" ", ", ", "\n"]))
}

/// A field selection map of the composite schemas specification.
fn selection_map(r: &mut Rng, depth: usize) -> String {
    if r.pct(4) {
        return r.str(&["", ".", "{", "a |", "a.", "[", "<", "{ a: }", "a b"]).into();
    }
    match r.below(if depth > 3 { 2 } else { 7 }) {
        0 | 1 => r.str(&FIELDS).into(),
        2 => format!("{}.{}", r.str(&FIELDS), selection_map(r, depth + 1)),
        3 => format!("{{ {}: {} {} }}", r.str(&FIELDS), selection_map(r, depth + 1), r.str(&FIELDS)),
        4 => format!("{} | {}", selection_map(r, depth + 1), selection_map(r, depth + 1)),
        5 => format!("{}[{}]", r.str(&FIELDS), selection_map(r, depth + 1)),
        _ => format!("<{}>.{}", r.str(&TYPES), r.str(&FIELDS)),
    }
}

pub fn value(r: &mut Rng, depth: usize) -> String {
    match r.below(if depth > 3 { 8 } else { 11 }) {
        0 => "null".into(),
        1 => r.str(&["0", "-1", "100", "2147483648", "9223372036854775807", "-9223372036854775808"]).into(),
        2 => r.str(&["0.5", "1e10", "-1.25e-3", "1e300"]).into(),
        3 => r.str(&["true", "false"]).into(),
        4 => r.str(&["X", "Y", "FOO", "ACCOUNTS", "SECURITY"]).into(),
        5 => print::string_literal(r.str(&FIELDS)),
        6 => print::string_literal(r.str(&["", "percent(50)", "percent(200)", "percent(x)", "s0", "s1", "s2", "a\nb\"", "é\u{1f600}", "@custom", "https://specs.apollo.dev/federation/v2.3", "https://x.y/z/v1"])),
        7 => print::string_literal(&field_set(r, 0)),
        8 => format!("[{}]", (0..r.below(3)).map(|_| value(r, depth + 1)).collect::<Vec<_>>().join(", ")),
        9 => format!("{{{}}}", (0..r.below(3)).map(|_| format!("{}: {}", r.str(&FIELDS), value(r, depth + 1))).collect::<Vec<_>>().join(", ")),
        _ => format!("[[{}]]", value(r, depth + 1)),
    }
}

pub fn directive(r: &mut Rng) -> String {
    let name = r.str(&DIRS);
    let short = name.rsplit("__").next().unwrap();
    let mut args: Vec<String> = vec![];
    if r.pct(85) {
        match short {
            "key" | "requires" | "provides" | "myKey" => {
                args.push(format!("fields: {}", print::string_literal(&field_set(r, 0))));
                if r.pct(20) {
                    args.push(format!("resolvable: {}", r.bool()));
                }
            }
            "require" | "is" => args.push(format!("field: {}", print::string_literal(&selection_map(r, 0)))),
            "override" => {
                args.push(format!("from: \"s{}\"", r.below(4)));
                if r.pct(30) {
                    args.push(format!("label: {}", value(r, 1)));
                }
            }
            "tag" | "composeDirective" => args.push(format!("name: {}", print::string_literal(r.str(&["t", "@custom", "@thing", "custom", "", "@key"])))),
            "cost" => args.push(format!("weight: {}", r.str(&["5", "\"5\"", "-1", "1.5", "null", "99999999999"]))),
            "listSize" => {
                args.push(format!("assumedSize: {}", r.str(&["5", "0", "-1", "99999999999", "null"])));
                args.push(format!("slicingArguments: {}", r.str(&["[\"a\"]", "[\"a\", \"nope\"]", "[]", "null", "\"a\""])));
                args.push(format!("sizedFields: {}", r.str(&["[\"a\"]", "[\"a b { c }\"]", "[]", "null", "[\"\"]"])));
                if r.bool() {
                    args.push(format!("requireOneSlicingArgument: {}", r.bool()));
                }
            }
            "requiresScopes" => args.push(format!("scopes: {}", r.str(&["[[\"a\"]]", "[]", "[[]]", "[\"a\"]", "\"a\"", "null", "[[1]]"]))),
            "policy" => args.push(format!("policies: {}", r.str(&["[[\"a\"]]", "[]", "[[]]", "[\"a\"]", "\"a\"", "null"]))),
            "deprecated" => args.push(format!("reason: {}", r.str(&["\"x\"", "null", "5", "\"\""]))),
            "link" => args.push(format!("url: {}", value(r, 1))),
            "shareable" | "external" | "inaccessible" | "authenticated" | "interfaceObject" | "lookup" | "internal" | "oneOf" | "extends" => {}
            _ => args.push(format!("{}: {}", r.str(&ARGS), value(r, 0))),
        }
    }
    if r.pct(5) {
        args.push(format!("{}: {}", r.str(&ARGS), value(r, 0)));
    }
    let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
    format!(" @{name}{args}")
}

fn dirs(r: &mut Rng, p: u32) -> String {
    let mut s = String::new();
    while r.pct(p) {
        s += &directive(r);
    }
    s
}

pub fn ty(r: &mut Rng) -> String {
    let mut s = r.str(&TYPES).to_string();
    let depth = if r.pct(2) { r.range(8, 14) } else { r.below(3) };
    if r.pct(30) {
        s += "!";
    }
    for _ in 0..depth {
        s = format!("[{s}]");
        if r.pct(30) {
            s += "!";
        }
    }
    s
}

fn input(r: &mut Rng, name: &str) -> String {
    let d = if r.pct(25) { format!(" = {}", value(r, 0)) } else { String::new() };
    format!("{name}: {}{d}{}", ty(r), dirs(r, 12))
}

fn inputs(r: &mut Rng) -> String {
    (0..r.below(3)).map(|_| { let n = r.str(&FIELDS).to_string(); input(r, &n) }).collect::<Vec<_>>().join(", ")
}

fn field(r: &mut Rng) -> String {
    let n = r.str(&FIELDS);
    let a = if r.pct(25) { inputs(r) } else { String::new() };
    let a = if a.is_empty() { a } else { format!("({a})") };
    format!("{n}{a}: {}{}", ty(r), dirs(r, 25))
}

fn block(lines: Vec<String>) -> String {
    if lines.is_empty() { String::new() } else { format!(" {{\n  {}\n}}", lines.join("\n  ")) }
}

pub fn definition(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.pct(8) {
        s += &format!("{}\n", print::string_literal(r.str(&["d", "", "a\nb", "\"\"\"", "\u{1}"])));
    } else if r.pct(25) {
        s += "extend ";
    }
    let name = r.str(&TYPES);
    let implements = |r: &mut Rng| if r.pct(25) { format!(" implements {}", r.str(&TYPES)) } else { String::new() };
    match r.below(12) {
        0..=5 => s += &format!("type {name}{}{}{}", implements(r), dirs(r, 35), block((0..1 + r.below(4)).map(|_| field(r)).collect())),
        6 | 7 => s += &format!("interface {name}{}{}{}", implements(r), dirs(r, 25), block((0..1 + r.below(3)).map(|_| field(r)).collect())),
        8 => s += &format!("union {name}{} = {}", dirs(r, 20), (0..1 + r.below(3)).map(|_| r.str(&TYPES).to_string()).collect::<Vec<_>>().join(" | ")),
        9 => s += &format!("enum {name}{}{}", dirs(r, 20), block((0..1 + r.below(3)).map(|_| format!("{}{}", r.str(&["X", "Y", "Z"]), dirs(r, 20))).collect())),
        10 => s += &format!("input {name}{}{}", dirs(r, 20), block((0..1 + r.below(3)).map(|_| { let n = r.str(&FIELDS).to_string(); input(r, &n) }).collect())),
        _ => s += &format!("scalar {name}{}", dirs(r, 40)),
    }
    s
}

pub fn head(r: &mut Rng) -> String {
    let mut out = vec![];
    let import = "import: [\"@key\", \"@shareable\", \"@external\", \"@requires\", \"@provides\", \"@override\", \"@inaccessible\", \"@tag\", \"@authenticated\", \"@requiresScopes\", \"@policy\", \"@interfaceObject\", \"@composeDirective\"]";
    for _ in 0..1 + r.below(3) {
        let s = match r.below(9) {
            0 | 1 | 2 => format!("@link(url: \"https://specs.apollo.dev/federation/v2.3\", {import})"),
            3 => "@link(url: \"https://specs.apollo.dev/federation/v2.0\")".into(),
            4 => "@link(url: \"https://specs.grafbase.com/composite-schemas/v1\", import: [\"@lookup\", \"@key\", \"@require\", \"@is\", \"@internal\", \"@inaccessible\", \"@shareable\", \"@derive\"])".into(),
            5 => "@link(url: \"https://specs.grafbase.com/composite-schemas/v1\", as: \"composite\")".into(),
            6 => "@link(url: \"https://example.com/ext/v1.0\", as: \"ext\", import: [\"@thing\", { name: \"@custom\", as: \"@myCustom\" }, \"A\"])".into(),
            7 => format!("@link(url: {}, as: {}, import: {})", value(r, 1), value(r, 1), value(r, 0)),
            _ => format!("@link(url: \"https://example.com/{}\", import: [{}])", r.str(&["v1", "", "thing", "x/v2", "?q", "thing/v0.1"]), value(r, 1)),
        };
        out.push(s);
    }
    if r.pct(25) {
        out.push(format!("@composeDirective(name: {})", print::string_literal(r.str(&["@custom", "@thing", "@key", "custom", "", "@ext__thing", "@nope"]))));
    }
    let mut s = format!("extend schema {}\n", out.join(" "));
    if r.pct(15) {
        s += &format!("schema{} {{ query: {} {} }}\n", dirs(r, 15), r.str(&TYPES), if r.bool() { format!("mutation: {}", r.str(&TYPES)) } else { String::new() });
    }
    if r.pct(30) {
        s += &format!("directive @custom(x: {}) repeatable on OBJECT | FIELD_DEFINITION | SCHEMA\n", ty(r));
    }
    if r.pct(5) {
        s += &format!("directive @{}({}) on OBJECT\n", r.str(&DIRS), { let n = r.str(&FIELDS).to_string(); input(r, &n) });
    }
    s
}

/// Everything at random.
pub fn random(r: &mut Rng) -> Parts {
    (0..1 + r.below(3))
        .map(|i| {
            let mut s = if r.pct(85) { head(r) } else { String::new() };
            if r.pct(85) {
                s += &format!("type Query {{ q{i}: {} {} }}\n", ty(r), field(r));
            }
            for _ in 0..1 + r.below(5) {
                s += &definition(r);
                s.push('\n');
            }
            let name = if r.pct(3) { r.str(&["é", "1", "", "a b", "S0", "\u{1f600}x"]).to_string() } else { format!("s{i}") };
            (name, "http://x/y".to_string(), s)
        })
        .collect()
}

/// A valid universe with a few tokens changed.
pub fn mutated(r: &mut Rng) -> Parts {
    let subs = generate(r, Features::default());
    let mut parts: Parts = crate::sut::parts(&subs);
    let mut names: Vec<String> = subs.iter().flat_map(|s| s.doc.types().map(|t| t.name.clone()).collect::<Vec<_>>()).collect();
    names.extend(subs.iter().flat_map(|s| s.doc.types().flat_map(|t| t.fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    names.extend(["Int", "String", "Missing", "type", "_Entity"].map(String::from));
    for _ in 0..1 + r.below(3) {
        let i = r.below(parts.len());
        parts[i].2 = mutate_text(r, &parts[i].2, &names);
    }
    parts
}

/// One small change of an SDL.
pub fn mutate_text(r: &mut Rng, text: &str, names: &[String]) -> String {
    match r.below(9) {
        // A name becomes another one.
        0..=3 => {
            let spots = words(text);
            if spots.is_empty() {
                return text.to_string();
            }
            let (a, b) = *r.pick(&spots);
            format!("{}{}{}", &text[..a], r.pick(names), &text[b..])
        }
        // A line goes, comes twice, moves.
        4 | 5 => {
            let mut l: Vec<&str> = text.lines().collect();
            if l.is_empty() {
                return text.to_string();
            }
            let k = r.below(l.len());
            let x = l.remove(k);
            if r.bool() {
                let at = r.below(l.len() + 1);
                l.insert(at, x);
                if r.bool() {
                    l.insert(at, x);
                }
            }
            l.join("\n")
        }
        // A directive anywhere one can stand.
        6 | 7 => {
            let d = directive(r);
            let mut l: Vec<String> = text.lines().map(String::from).collect();
            if l.is_empty() {
                return text.to_string();
            }
            let k = r.below(l.len());
            if l[k].ends_with('{') {
                let n = l[k].len() - 1;
                l[k].insert_str(n, &format!("{d} "));
            } else {
                l[k] += &d;
            }
            l.join("\n")
        }
        _ => format!("{text}\n{}\n", definition(r)),
    }
}

pub fn words(s: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut start = None;
    for (i, c) in s.char_indices().chain([(s.len(), ' ')]) {
        if c.is_alphanumeric() || c == '_' {
            start.get_or_insert(i);
        } else if let Some(a) = start.take() {
            out.push((a, i));
        }
    }
    out
}

pub fn show_parts(p: &Parts) -> String {
    p.iter().map(|(n, u, s)| format!("# --- subgraph {n} ({u})\n{s}")).collect::<Vec<_>>().join("\n")
}
