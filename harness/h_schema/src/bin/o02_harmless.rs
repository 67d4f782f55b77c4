use h_schema::checks::*;
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "O02",
        "Random schemas, weighted operations valid for them and edited schemas. What the operations use is computed independently; \
         a change that touches nothing in use, or only loosens what is asked and tightens what is returned, must not be reported; every \
         diagnostic belongs to one change, in their order, with its severity, and names the place. Distinct: hash of schemas and operations.",
    );
    c.require("harmless changes", 20_000);
    c.require("diagnostics", 5_000);
    c.cases("checks", 100_000, 2_000_000, |case| {
        let Some(x) = input(&mut case.rng) else { return Ok(()) };
        case.input(x.text());
        let (diff, got) = x.check(false)?;
        case.append_input(&format!("### diagnostics\n{got:#?}"));
        let usage = x.usage();
        let inputs = usage.inputs(&x.s);
        let mut i = 0;
        for change in &diff {
            let want = expect(&change.path, change.kind, &x.s, &x.t, &usage, &inputs);
            let kind = change.kind.as_str();
            if want == Expect::Never {
                case.count("harmless changes", 1);
                case.seen("harmless", kind);
            }
            let Some(d) = got.get(i).filter(|d| d.path == change.path && d.change_kind == change.kind) else { continue };
            i += 1;
            case.count("diagnostics", 1);
            case.seen("reported", kind);
            ensure!(want != Expect::Never, format!("false-{kind}"), "{kind} {} breaks nothing, but: {d:?}", change.path);
            ensure!(
                is_error(d) == (want != Expect::Warning),
                format!("severity-{kind}"),
                "{kind} {} must be {want:?}, is {d:?}",
                change.path
            );
            ensure!(
                change.path.split(['.', '&']).all(|p| d.message.contains(p)),
                "message",
                "{d:?} does not name {}",
                change.path
            );
        }
        ensure!(i == got.len(), "order", "diagnostic {i} belongs to no change, or is out of order: {:?}", got.get(i));
        case.nontrivial(&(&x.source, &x.target));
        case.sample(x.text());
        Ok(())
    });
    c.finish();
}
