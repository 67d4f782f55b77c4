use graphql_composition::FederatedGraph;
use h_comp::{normal::*, sut, universe::*};
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "C06",
        "Random valid sets of subgraphs are composed; the federated SDL must be a valid schema for an independent validator \
         and for the repository's own, load into a federated graph, and render (federated and API) as before; texts compared \
         in normal form. Distinct: hash of the federated SDL.",
    );
    c.require("reloaded", 1000);
    c.cases("valid universes", 150_000, 1_500_000, |case| {
        let subs = generate(&mut case.rng, Features::default());
        let text = show(&subs);
        case.input(text.as_str());
        let o = match sut::run(&subs)? {
            Ok(o) => o,
            Err(r) => return viol("valid-rejected", format!("valid subgraphs are rejected: {:?}", r.errors)),
        };
        case.append_input(&format!("### federated\n{}", o.federated));
        let doc = match vgql::parse(&o.federated) {
            Ok(d) => d,
            Err(e) => return viol("federated-unparsable", format!("the federated SDL is not GraphQL: {e}")),
        };
        let problems = vgql::check::problems(&doc);
        ensure!(problems.is_empty(), format!("federated-invalid-{}", problems[0].0), "not a valid schema: {problems:?}");
        let d = graphql_schema_validation::validate(&o.federated);
        let found: Vec<String> = d.iter().map(|m| m.to_string()).collect();
        ensure!(found.is_empty(), "federated-invalid-for-validator", "graphql-schema-validation: {found:?}");
        let g = match FederatedGraph::from_sdl(&o.federated) {
            Ok(g) => g,
            Err(e) => return viol("not-loaded", format!("from_sdl of the composed SDL: {e}")),
        };
        let again = sut::render(&g, vec![])?;
        case.append_input(&format!("### federated, reloaded\n{}", again.federated));
        for (what, a, b) in [("federated", &o.federated, &again.federated), ("api", &o.api, &again.api)] {
            let p = |s: &str| vgql::parse(s).map_err(|e| Viol { sig: format!("{what}-unparsable"), msg: e.to_string() });
            let (a, b) = (normal(&p(a)?, false), normal(&p(b)?, false));
            ensure!(a == b, format!("reload-changes-{what}"), "{}", first_difference(&a, &b));
        }
        case.count("reloaded", 1);
        case.count("byte-identical", (o.federated == again.federated) as u64);
        case.sample(text);
        case.nontrivial(&o.federated);
        Ok(())
    });
    c.finish();
}
