use h_schema::{model::*, schemas::*};
use std::collections::BTreeMap;
use vcommon::*;
use vgql::Doc;

/// Two schemas: edits of one, or unrelated ones; each possibly split into extensions.
fn pair(rng: &mut Rng) -> (String, String) {
    let a = generate(rng);
    let mut b = if rng.pct(15) { generate(rng) } else { a.clone() };
    for _ in 0..[0, 1, 1, 2, 3, 6, 12][rng.below(7)] {
        edit(rng, &mut b);
    }
    let extend = |rng: &mut Rng, d: &Doc| {
        if rng.pct(30) {
            let mut d = split(rng, d);
            for _ in 0..[0, 0, 1, 2][rng.below(4)] {
                let dirs = vec![vgql::Dir::new("tag", &[])];
                d.defs.push(vgql::Def::Schema(vgql::SchemaDef { ext: true, desc: None, dirs, roots: vec![] }));
            }
            d
        } else {
            d.clone()
        }
    };
    let (mut a, mut b) = (extend(rng, &a), extend(rng, &b));
    if rng.pct(3) {
        a = Doc::default();
    } else if rng.pct(3) {
        b = Doc::default();
    }
    (show(rng, &a), show(rng, &b))
}

fn main() {
    let mut c = Check::new(
        "D01",
        "Random pairs of schemas (edited copies, unrelated ones, with extensions, comments, strings, white space) are diffed; the \
         changes must be exactly the structural differences an independent parser and comparison find, each once, sorted, and every \
         span must show the text of the added or changed element. Distinct: hash of both schemas.",
    );
    c.require("changes", 10_000);
    c.cases("pairs", 100_000, 2_000_000, |case| {
        let (a, b) = pair(&mut case.rng);
        case.input(format!("{a}\n### target\n{b}"));
        let parse = |s: &str| vgql::parse(s).unwrap_or_else(|e| harness_bug!("{e}: {s}"));
        let (x, y) = (schema(&parse(&a)), schema(&parse(&b)));
        let got = guard("diff", || graphql_schema_diff::diff(&a, &b))?;
        let got = match got {
            Ok(g) => g,
            Err(e) => return viol("rejected", format!("diff refuses GraphQL: {e}")),
        };
        case.append_input(&format!("### changes\n{got:#?}"));
        let want = differences(&x, &y);
        let texts: Vec<&str> = guard("resolve_spans", || graphql_schema_diff::resolve_spans(&a, &b, &got).collect())?;
        let mut counted: BTreeMap<(String, String), usize> = BTreeMap::new();
        for (change, text) in got.iter().zip(&texts) {
            let kind = change.kind.as_str();
            *counted.entry((change.path.clone(), kind.to_owned())).or_default() += 1;
            if kind.contains("SchemaExtension") {
                let range = x.extensions.min(y.extensions)..x.extensions.max(y.extensions);
                ensure!(
                    range.clone().any(|i| change.path == format!(":schema[{i}]")),
                    "schema-extension-path",
                    "{kind} at {}, expected an index in {range:?}",
                    change.path
                );
                continue;
            }
            let Some((_, expected)) = want.get_key_value(&(change.path.clone(), kind)) else {
                return viol(format!("invented-{kind}"), format!("{} at {} is not a difference", kind, change.path));
            };
            if let Some(expected) = expected {
                let shown = normal_text(kind, text);
                ensure!(
                    shown.as_ref() == Some(expected),
                    format!("span-{kind}"),
                    "the span of {kind} at {} shows {text:?}, which is {shown:?}, expected {expected:?}",
                    change.path
                );
            }
        }
        for (change, text) in got.iter().zip(&texts) {
            // A new definition is shown: one of the definitions or extensions of that name.
            let path = &change.path;
            let Some(kind) = change.kind.as_str().strip_prefix("Add") else { continue };
            let is_type = ["Scalar", "ObjectType", "Interface", "Union", "Enum", "InputObject"].contains(&kind);
            if !is_type && kind != "SchemaDefinition" {
                continue;
            }
            let shown = vgql::parse(text).or_else(|_| vgql::parse(&format!("extend {text}")));
            let shown = match &shown {
                Ok(d) if d.defs.len() == 1 => &d.defs[0],
                _ => return viol(format!("span-Add{kind}"), format!("the span of Add{kind} at {path} shows {text:?}")),
            };
            let strip = |d: &vgql::Def| match d {
                vgql::Def::Type(t) => vgql::Def::Type(vgql::TypeDef { desc: None, ext: false, ..t.clone() }),
                vgql::Def::Schema(t) => vgql::Def::Schema(vgql::SchemaDef { desc: None, ext: false, ..t.clone() }),
                d => d.clone(),
            };
            ensure!(
                parse(&b).defs.iter().any(|d| strip(d) == strip(shown) && match d {
                    vgql::Def::Type(t) => is_type && t.name == *path,
                    vgql::Def::Schema(_) => !is_type,
                    _ => false,
                }),
                format!("span-Add{kind}"),
                "the span of Add{kind} at {path} shows {text:?}, which is no definition of {path} in the target"
            );
        }
        for ((path, kind), n) in &counted {
            ensure!(*n == 1, format!("repeated-{kind}"), "{kind} at {path} is reported {n} times");
        }
        for (path, kind) in want.keys() {
            ensure!(counted.contains_key(&(path.clone(), kind.to_string())), format!("missed-{kind}"), "{kind} at {path} is not reported");
        }
        for (kind, n) in [
            ("AddSchemaExtension", y.extensions.saturating_sub(x.extensions)),
            ("RemoveSchemaExtension", x.extensions.saturating_sub(y.extensions)),
        ] {
            let found = got.iter().filter(|c| c.kind.as_str() == kind).count();
            ensure!(found == n, format!("count-{kind}"), "{found} {kind}, expected {n}");
        }
        ensure!(got.is_sorted_by_key(|c| c.path.clone()), "unsorted", "the changes are not sorted");
        case.count("changes", got.len() as u64);
        case.count("no change", got.is_empty() as u64);
        for ch in &got {
            case.seen("kinds of change", ch.kind.as_str());
        }
        case.sample(format!("{:?}", got.iter().map(|c| format!("{} {}", c.path, c.kind.as_str())).collect::<Vec<_>>()));
        if !got.is_empty() {
            case.nontrivial(&(a, b));
        }
        Ok(())
    });
    c.finish();
}
