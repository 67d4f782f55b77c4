//! Graph references: `graph@branch#version`.
use graph_ref::GraphRef;
use std::str::FromStr;
use vcommon::{Case, Check, Viol, ensure, guard};

fn check(case: &mut Case, s: &str) -> Result<(), Viol> {
    case.input(format!("{s:?}"));
    let (slug, rest) = match s.find('@') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let (branch, version) = match rest {
        None => (None, None),
        Some(r) => match r.find('#') {
            Some(i) => (Some(&r[..i]), Some(&r[i + 1..])),
            None => (Some(r), None),
        },
    };
    let valid = !slug.is_empty() && !slug.contains('/');
    match guard("parse", || GraphRef::from_str(s))? {
        Ok(g) => {
            ensure!(valid, "accepted", "{s:?} accepted as {g:?}");
            ensure!(g.slug() == slug && g.branch() == branch && g.version() == version, "parts", "{s:?} parsed as {g:?}");
            ensure!(g.to_string() == s, "display", "{s:?} displays as {g}");
            let again = GraphRef::from_str(&g.to_string());
            ensure!(again.as_ref() == Ok(&g), "round-trip", "{s:?} -> {g} -> {again:?}");
            let built = match (branch, version) {
                (None, None) => GraphRef::latest_production_version(slug.into()),
                (Some(b), None) => GraphRef::latest_version(slug.into(), b.into()),
                (Some(b), Some(v)) => GraphRef::new(slug.into(), b.into(), v.into()),
                _ => unreachable!(),
            };
            ensure!(built == g, "constructor", "{built:?} vs {g:?}");
            case.count("accepted", 1);
            case.nontrivial(s);
            case.sample(format!("{s:?} -> {g:?}"));
        }
        Err(e) => {
            ensure!(!valid, "rejected", "{s:?} rejected: {e}");
            case.count("rejected", 1);
            if slug.is_empty() {
                ensure!(e.contains("missing"), "message", "{s:?}: {e}");
            } else if let Some((_, after)) = slug.split_once('/') {
                ensure!(e.contains("account"), "message", "{s:?}: {e}");
                // the hint keeps everything but the account name
                let fixed = format!("{after}{}", &s[slug.len()..]);
                let hint = format!("\"{fixed}\"");
                ensure!(after.is_empty() || e.contains(&hint), "hint", "{s:?}: {e} does not suggest {hint}");
                ensure!(!after.is_empty() || !e.contains("Did you mean"), "hint", "{s:?}: {e}");
                if !after.contains('/') && !after.is_empty() {
                    ensure!(GraphRef::from_str(&fixed).is_ok(), "hint-parses", "{s:?}: the suggestion {fixed:?} does not parse");
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("S04", "an accepted reference");
    c.cases("refs", 100_000, 5_000_000, |case| {
        let atoms = ["@", "#", "/", "a", "my-graph", "main", "01HR7NP3A4NDVWC10PZW6ZMC5P", " ", "feat", "é", "@@", "##", ".", "-", "_", "\""];
        let mut s = String::new();
        if case.rng.pct(50) {
            s.push_str(["graph", "my-graph", "g1", "ü"][case.rng.below(4)]);
            if case.rng.pct(60) {
                s.push('@');
            }
        }
        for _ in 0..case.rng.range(0, 7) {
            let a = *case.rng.pick(&atoms);
            s.push_str(a);
        }
        check(case, &s)
    });
    c.require("accepted", 1000);
    c.require("rejected", 1000);
    c.finish();
}
