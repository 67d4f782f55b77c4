use h_comp::{model::*, sut, universe::*};
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "C01",
        "Random valid sets of 1-5 subgraphs are composed; the federated SDL is parsed by an independent parser and \
         compared, element by element, with an independent model of the merge rules (types, kinds, fields, types of \
         fields, arguments, defaults, enum values, union members, implemented interfaces, descriptions, deprecations, \
         tags, @inaccessible, @authenticated, @cost, @oneOf). Distinct: hash of all the subgraph SDLs.",
    );
    c.assume("the subgraphs are generated valid, without interface objects and composite-schema directives");
    c.require("composed", 1000);
    c.require("merged types", 1000);
    c.require("merged fields", 1000);
    c.cases("valid universes", 150_000, 1_500_000, |case| {
        let subs = generate(&mut case.rng, Features::default());
        let text = show(&subs);
        case.input(text.as_str());
        let m = expected(&subs);
        let o = match sut::run(&subs)? {
            Ok(o) => o,
            Err(r) => return viol("valid-rejected", format!("valid subgraphs are rejected: {:?}", r.errors)),
        };
        case.append_input(&format!("### federated\n{}", o.federated));
        let fed = match vgql::parse(&o.federated) {
            Ok(d) => d,
            Err(e) => return viol("federated-unparsable", format!("the federated SDL is not GraphQL: {e}")),
        };
        case.count("composed", 1);
        let shared = |n: &String| subs.iter().filter(|s| s.doc.types().any(|t| t.name == *n)).count() > 1;
        case.count("merged types", m.types.keys().filter(|t| shared(t)).count() as u64);
        case.count("merged fields", m.types.values().flat_map(|t| t.fields.values()).filter(|f| f.joins.len() > 1).count() as u64);
        compare_federated(&fed, &m, false)?;
        case.sample(text.clone());
        case.nontrivial(&text);
        Ok(())
    });
    c.finish();
}
