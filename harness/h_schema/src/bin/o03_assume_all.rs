use h_schema::{checks::*, ops::Usage};
use std::collections::BTreeSet;
use vcommon::*;
use vgql::Kind;

fn main() {
    let mut c = Check::new(
        "O03",
        "Random schemas and edited schemas, checked as if everything were in use. Each change that could break any operation must be \
         reported, each that could break none must not, and everything reported for recorded operations must be reported here too. \
         Distinct: hash of schemas.",
    );
    c.require("diagnostics", 5_000);
    c.cases("checks", 100_000, 2_000_000, |case| {
        let Some(x) = input(&mut case.rng) else { return Ok(()) };
        case.input(x.text());
        let (diff, got) = x.check(true)?;
        case.append_input(&format!("### diagnostics\n{got:#?}"));
        let usage = Usage::everything(&x.s);
        let inputs: BTreeSet<String> = x.s.types.iter().filter(|t| t.1.kind == Kind::Input).map(|t| t.0.clone()).collect();
        for change in &diff {
            let want = expect(&change.path, change.kind, &x.s, &x.t, &usage, &inputs);
            let kind = change.kind.as_str();
            let found = said(&got, change);
            let ok = match (want, &found[..]) {
                (Expect::Never, []) | (Expect::Either, []) => true,
                (Expect::Warning, [d]) => !is_error(d),
                (Expect::Error | Expect::Either, [d]) => is_error(d),
                _ => false,
            };
            let sig = match (want, found.len()) {
                (Expect::Never, _) => "false",
                (_, 0) => "missed",
                _ => "severity",
            };
            ensure!(ok, format!("{sig}-{kind}"), "{kind} {} must be {want:?}, but: {found:?}", change.path);
            case.count("diagnostics", found.len() as u64);
            case.seen("kind", kind);
        }
        ensure!(got.iter().all(|d| diff.iter().any(|c| c.path == d.path && c.kind == d.change_kind)), "stray", "a diagnostic belongs to no change");
        let (_, recorded) = x.check(false)?;
        for d in &recorded {
            ensure!(
                got.iter().any(|g| g.path == d.path && g.change_kind == d.change_kind),
                "less-than-recorded",
                "{d:?} is reported for recorded operations, but not when everything is in use"
            );
        }
        case.nontrivial(&(&x.source, &x.target));
        Ok(())
    });
    c.finish();
}
