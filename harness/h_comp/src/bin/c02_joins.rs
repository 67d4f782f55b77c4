use h_comp::{model::*, sut, universe::*};
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "C02",
        "Random valid sets of subgraphs are composed; every @join__* directive of the federated SDL (which subgraph has \
         which type with which keys, which subgraph resolves which field with which type, requires, provides, override \
         and label, who has which enum value, union member and interface implementation) is compared with what the \
         subgraphs say. Distinct: hash of all the subgraph SDLs.",
    );
    c.assume("field sets are compared after normalising white space and order; a field without @join__field belongs to all the subgraphs of its type");
    c.require("join directives", 10_000);
    c.require("overrides", 100);
    c.require("requires", 100);
    c.require("provides", 50);
    c.cases("valid universes", 150_000, 1_500_000, |case| {
        let subs = generate(&mut case.rng, Features::default());
        let text = show(&subs);
        case.input(text.as_str());
        let m = expected(&subs);
        let o = match sut::run(&subs)? {
            Ok(o) => o,
            Err(r) => return viol("valid-rejected", format!("valid subgraphs are rejected: {:?}", r.errors)),
        };
        case.append_input(&format!("### federated\n{}", o.federated));
        let fed = match vgql::parse(&o.federated) {
            Ok(d) => d,
            Err(e) => return viol("federated-unparsable", format!("the federated SDL is not GraphQL: {e}")),
        };
        case.count("join directives", o.federated.matches("@join__").count() as u64);
        for j in m.types.values().flat_map(|t| t.fields.values()).flat_map(|f| f.joins.values()) {
            case.count("overrides", j.over.is_some() as u64);
            case.count("requires", j.requires.is_some() as u64);
            case.count("provides", j.provides.is_some() as u64);
        }
        compare_federated(&fed, &m, true)?;
        compare_graphs(&fed, &subs)?;
        case.sample(text.clone());
        case.nontrivial(&text);
        Ok(())
    });
    c.finish();
}
