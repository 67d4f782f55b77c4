use graphql_composition::FederatedGraph;
use h_comp::{hostile::*, sut};
use vcommon::*;

/// The panic without what changes when code moves.
fn stable(msg: &str) -> String {
    let m = msg.split(" (at ").next().unwrap_or(msg);
    let m = m.split("panicked: ").nth(1).unwrap_or(m);
    let words: Vec<&str> = m.split(|c: char| !c.is_ascii_alphabetic()).filter(|w| w.len() > 2).take(9).collect();
    format!("panic-{}", words.join("-"))
}

fn main() {
    let mut c = Check::new(
        "C07",
        "Sets of subgraphs that parse and are otherwise arbitrary (random documents; valid universes with tokens, lines, \
         directives changed) are composed and rendered; that must end with a graph or with an error, never a crash or a hang, \
         and the accepted graph's SDL must load again without a crash. Distinct: hash of the SDLs.",
    );
    c.require("graphs", 500);
    c.require("rejected", 5000);
    for (name, f) in [("random", random as fn(&mut Rng) -> Parts), ("mutated", mutated)] {
        c.cases(name, 150_000, 3_000_000, |case| {
            let p = f(&mut case.rng);
            let text = show_parts(&p);
            case.input(text.as_str());
            let r = match guard("composition", || sut::compose_sdl(&p)) {
                Ok(r) => r?,
                Err(v) => {
                    case.soft(Err(Viol { sig: stable(&v.msg), msg: v.msg }));
                    return Ok(());
                }
            };
            match r {
                Ok(o) => {
                    case.count("graphs", 1);
                    if let Err(v) = guard("from_sdl", || FederatedGraph::from_sdl(&o.federated).map(|g| sut::render(&g, vec![]))) {
                        case.append_input(&o.federated);
                        case.soft(Err(Viol { sig: format!("from_sdl-{}", stable(&v.msg)), msg: v.msg }));
                    }
                    case.nontrivial(&text);
                    case.sample(text);
                }
                Err(r) => {
                    let parse = r.errors.iter().any(|e| e.starts_with("parse:"));
                    case.count(if parse { "not GraphQL" } else { "rejected" }, 1);
                    if !parse {
                        case.nontrivial(&text);
                    }
                }
            }
            Ok(())
        });
    }
    // Supergraphs that are nearly right, as they come from elsewhere.
    c.require("supergraphs refused", 1000);
    c.cases("supergraph", 100_000, 2_000_000, |case| {
        let p = if case.rng.pct(70) { sut::parts(&h_comp::universe::generate(&mut case.rng, h_comp::universe::Features::default())) } else { mutated(&mut case.rng) };
        let Ok(Ok(Ok(o))) = guard("composition", || sut::compose_sdl(&p)) else { return Ok(()) };
        let all = words(&o.federated);
        let mut names: Vec<String> = (0..20).map(|_| case.rng.pick(&all)).map(|(a, b)| o.federated[*a..*b].to_string()).collect();
        names.extend(["Int", "Missing", "graph", "__x", "a__b", "join__Graph", "[[[[[[[[[[[[Int]]]]]]]]]]]]"].map(String::from));
        let mut sdl = o.federated.clone();
        for _ in 0..1 + case.rng.below(3) {
            sdl = mutate_text(&mut case.rng, &sdl, &names);
        }
        case.input(sdl.as_str());
        match guard("from_sdl", || FederatedGraph::from_sdl(&sdl).map(|g| sut::render(&g, vec![]))) {
            Ok(Ok(rendered)) => {
                case.count("supergraphs loaded", 1);
                rendered?;
            }
            Ok(Err(_)) => case.count("supergraphs refused", 1),
            // The parser is another project's crate.
            Err(v) if v.msg.contains("/cynic-parser-") => case.count("panics of the third-party parser", 1),
            Err(v) => case.soft(Err(Viol { sig: format!("from_sdl-{}", stable(&v.msg)), msg: v.msg })),
        }
        case.nontrivial(&sdl);
        Ok(())
    });
    c.finish();
}
