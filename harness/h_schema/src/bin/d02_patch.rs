use h_schema::{model::*, schemas::*};
use vcommon::*;
use vgql::*;

/// What an element says beyond what diffs compare: description and directives (and default, of an input field).
fn extras(desc: &Option<String>, dirs: &[Dir]) -> String {
    format!("{:?} {}", desc, dirs.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" "))
}

/// Elements that are in source and target must keep what the source says about them.
fn preserved(a: &Schema, b: &Schema, p: &Schema) -> Result<u64, Viol> {
    let mut n = 0;
    let mut same = |what: &str, place: String, x: String, y: String| -> Result<(), Viol> {
        n += 1;
        ensure!(x == y, format!("lost-{what}"), "{what} of {place}: {x} becomes {y}");
        Ok(())
    };
    for (name, x) in &a.types {
        let (Some(y), Some(q)) = (b.types.get(name), p.types.get(name)) else { continue };
        if x.kind != y.kind {
            continue;
        }
        same("type", name.clone(), extras(&x.desc, &x.dirs), extras(&q.desc, &q.dirs))?;
        for (f, v) in &x.values {
            if y.values.contains_key(f) {
                same("enum value", format!("{name}.{f}"), extras(&v.desc, &v.dirs), extras(&q.values[f].desc, &q.values[f].dirs))?;
            }
        }
        for (f, v) in &x.inputs {
            if y.inputs.contains_key(f) {
                let w = &q.inputs[f];
                same("input field", format!("{name}.{f}"), extras(&v.desc, &v.dirs), extras(&w.desc, &w.dirs))?;
                same("input field default", format!("{name}.{f}"), format!("{:?}", v.default), format!("{:?}", w.default))?;
            }
        }
        for (f, v) in &x.fields {
            let Some(z) = y.fields.get(f) else { continue };
            let w = &q.fields[f];
            same("field", format!("{name}.{f}"), extras(&v.desc, &v.dirs), extras(&w.desc, &w.dirs))?;
            for arg in &v.args {
                if z.arg(&arg.name).is_some() {
                    let w = w.arg(&arg.name).unwrap();
                    same("argument", format!("{name}.{f}.{}", arg.name), extras(&arg.desc, &arg.dirs), extras(&w.desc, &w.dirs))?;
                }
            }
        }
    }
    for (d, x) in &a.directives {
        if b.directives.contains_key(d) {
            same("directive", d.clone(), format!("{:?}", DirDef { desc: None, ..x.clone() }), format!("{:?}", DirDef { desc: None, ..p.directives[d].clone() }))?;
        }
    }
    Ok(n)
}

fn main() {
    let mut c = Check::new(
        "D02",
        "Random pairs of schemas are diffed, and the source is patched with the diff. The patched text, parsed independently, must have \
         exactly the structure of the target, and keep the descriptions, directives and defaults of what is in both. \
         Distinct: hash of both schemas.",
    );
    c.require("patched", 10_000);
    c.cases("pairs", 100_000, 2_000_000, |case| {
        let rng = &mut case.rng;
        let a = generate(rng);
        let mut b = if rng.pct(10) { generate(rng) } else { a.clone() };
        for _ in 0..[0, 1, 1, 2, 3, 6, 12][rng.below(7)] {
            edit(rng, &mut b);
        }
        // The source may be extended; the target must not, because a diff shows only one definition of an added type.
        let mut a = if rng.pct(30) { split(rng, &a) } else { a };
        let extend = |rng: &mut Rng, d: &mut Doc| {
            for _ in 0..[0, 0, 0, 1, 2, 3][rng.below(6)] {
                let dirs = vec![Dir::new("tag", &[])];
                d.defs.push(Def::Schema(SchemaDef { ext: true, desc: None, dirs, roots: vec![] }));
            }
        };
        extend(rng, &mut a);
        extend(rng, &mut b);
        if rng.pct(3) {
            a = Doc::default();
        } else if rng.pct(3) {
            b = Doc::default();
        }
        let (a, b) = (show(rng, &a), show(rng, &b));
        case.input(format!("{a}\n### target\n{b}"));
        let parsed = |s: &str| vgql::parse(s).unwrap_or_else(|e| harness_bug!("{e}: {s}"));
        let (x, y) = (schema(&parsed(&a)), schema(&parsed(&b)));
        let diff = match guard("diff", || graphql_schema_diff::diff(&a, &b))? {
            Ok(g) => g,
            Err(e) => return viol("rejected", format!("diff refuses GraphQL: {e}")),
        };
        let p = guard("patch", || {
            let spans: Vec<&str> = graphql_schema_diff::resolve_spans(&a, &b, &diff).collect();
            graphql_schema_diff::patch(&a, &diff, &spans).map(|p| p.into_schema())
        })?;
        let p = match p {
            Ok(g) => g,
            Err(e) => return viol("patch-rejects", format!("patch refuses GraphQL: {e}")),
        };
        case.append_input(&format!("### changes\n{:?}\n### patched\n{p}", diff.iter().map(|c| (&c.path, c.kind)).collect::<Vec<_>>()));
        let q = if p.trim().is_empty() {
            Doc::default()
        } else {
            match vgql::parse(&p) {
                Ok(d) => d,
                Err(e) => return viol("unparsable", format!("the patched schema is not GraphQL: {e}")),
            }
        };
        for t in q.types() {
            let mut names: Vec<&str> = t.fields.iter().map(|f| f.name.as_str()).collect();
            names.extend(t.inputs.iter().map(|f| f.name.as_str()));
            names.extend(t.values.iter().map(|f| f.name.as_str()));
            names.extend(t.members.iter().map(|f| f.as_str()));
            names.sort();
            let n = names.len();
            names.dedup();
            ensure!(n == names.len(), "repeated-member", "a member is repeated in {t}");
        }
        let q = schema(&q);
        let left = differences(&q, &y);
        if let Some(((path, kind), _)) = left.first_key_value() {
            return viol(format!("differs-{kind}"), format!("the patched schema still needs {kind} at {path} to become the target"));
        }
        ensure!(q.extensions == y.extensions, "schema-extensions", "{} schema extensions, {} in the target", q.extensions, y.extensions);
        let n = preserved(&x, &y, &q)?;
        case.count("patched", 1);
        case.count("preserved elements", n);
        for ch in &diff {
            case.seen("kinds of change", ch.kind.as_str());
        }
        case.sample(format!("{:?}", diff.iter().map(|c| format!("{} {}", c.path, c.kind.as_str())).collect::<Vec<_>>()));
        if !diff.is_empty() {
            case.nontrivial(&(a, b));
        }
        Ok(())
    });
    c.finish();
}
