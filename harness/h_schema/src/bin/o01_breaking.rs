use h_schema::{checks::*, ops};
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "O01",
        "Random schemas, weighted operations valid for them and edited schemas. What the operations use is computed independently; \
         each change that breaks that use must be reported as an error. Second oracle: with no diagnostics and no threshold, every \
         operation must still be valid for the edited schema, with the same types of results. Distinct: hash of schemas and operations.",
    );
    c.require("breaking changes", 5_000);
    c.require("operations validated", 5_000);
    c.cases("checks", 100_000, 2_000_000, |case| {
        let Some(x) = input(&mut case.rng) else { return Ok(()) };
        case.input(x.text());
        let (diff, got) = x.check(false)?;
        case.append_input(&format!("### diagnostics\n{got:#?}"));
        let usage = x.usage();
        let inputs = usage.inputs(&x.s);
        for change in &diff {
            let want = expect(&change.path, change.kind, &x.s, &x.t, &usage, &inputs);
            let found = said(&got, change);
            let kind = change.kind.as_str();
            match want {
                Expect::Error => {
                    case.count("breaking changes", 1);
                    case.seen("kind", kind);
                    ensure!(!found.is_empty(), format!("missed-{kind}"), "{kind} {} breaks operations but is not reported", change.path);
                    ensure!(is_error(found[0]), format!("severity-{kind}"), "{kind} {} breaks operations: an error", change.path);
                }
                Expect::Warning => {
                    ensure!(!found.is_empty(), format!("missed-{kind}"), "{kind} {} may break operations but is not reported", change.path)
                }
                _ => {}
            }
        }
        if got.is_empty() && x.threshold <= 1 && vgql::check::problems(&x.t_doc).is_empty() {
            for (op, text, _) in &x.ops {
                case.count("operations validated", 1);
                if let Some(why) = ops::breaks(&x.s, &x.t, &x.t_doc, op) {
                    return viol("silent-break", format!("nothing is reported, but an operation breaks: {why}\n{text}"));
                }
            }
        }
        case.nontrivial(&(&x.source, &x.target));
        case.sample(x.text());
        Ok(())
    });
    c.require("cyclic operations", 500);
    c.cases("cyclic", 2_000, 50_000, |case| {
        let Some(mut x) = input(&mut case.rng) else { return Ok(()) };
        // Fragments that spread themselves or each other, and ones that do not exist: invalid, but recorded all the same.
        for (op, text, _) in &mut x.ops {
            let names: Vec<String> = op.fragments.iter().map(|f| f.0.clone()).chain(["Unknown".into()]).collect();
            for f in &mut op.fragments {
                f.2.push(ops::Sel::Spread(case.rng.pick(&names).clone()));
            }
            if op.fragments.is_empty() {
                continue;
            }
            op.sels.push(ops::Sel::Spread(case.rng.pick(&names).clone()));
            *text = ops::show(&mut case.rng, op);
            case.count("cyclic operations", 1);
        }
        case.input(x.text());
        x.check(false)?;
        case.nontrivial(&(&x.source, &x.target));
        Ok(())
    });
    c.finish();
}
