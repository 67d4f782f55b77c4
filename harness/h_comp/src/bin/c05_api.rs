use h_comp::{model::*, sut, universe::*};
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "C05",
        "Random valid sets of subgraphs with @inaccessible on types, fields, arguments, input fields and enum values are \
         composed; the API SDL must show exactly what is not inaccessible, no join directive or definition, and be a valid \
         self-contained GraphQL schema for an independent validator. Distinct: hash of all the subgraph SDLs.",
    );
    c.require("API schemas", 1000);
    c.require("hidden types", 100);
    c.require("hidden fields", 100);
    c.require("hidden values", 100);
    c.require("hidden input fields", 100);
    c.cases("valid universes", 150_000, 1_500_000, |case| {
        let subs = generate(&mut case.rng, Features::default());
        let text = show(&subs);
        case.input(text.as_str());
        let m = expected(&subs);
        let o = match sut::run(&subs)? {
            Ok(o) => o,
            Err(r) => return viol("valid-rejected", format!("valid subgraphs are rejected: {:?}", r.errors)),
        };
        case.append_input(&format!("### API\n{}", o.api));
        let api = match vgql::parse(&o.api) {
            Ok(d) => d,
            Err(e) => return viol("api-unparsable", format!("the API SDL is not GraphQL: {e}")),
        };
        case.count("API schemas", 1);
        for t in m.types.values() {
            case.count("hidden types", t.meta.inaccessible as u64);
            case.count("hidden fields", t.fields.values().filter(|f| f.meta.inaccessible).count() as u64);
            case.count("hidden input fields", t.inputs.values().filter(|f| f.meta.inaccessible).count() as u64);
            case.count("hidden values", t.values.values().filter(|f| f.meta.inaccessible).count() as u64);
        }
        let mut soft = vec![];
        let r = compare_api(&api, &m, &mut soft);
        for v in soft {
            case.soft(Err(v));
        }
        r?;
        // An argument shown although it is hidden may be of a hidden type.
        let hidden: Vec<&String> = m.types.iter().filter(|t| t.1.meta.inaccessible).map(|t| t.0).collect();
        let mut api = api;
        for t in api.types_mut() {
            for f in &mut t.fields {
                if let Some(w) = m.types[&t.name].fields.get(&f.name) {
                    f.args.retain(|a| !w.args[&a.name].meta.inaccessible);
                }
            }
        }
        let printed = api.to_string();
        for h in hidden {
            let mentions = printed.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == h);
            ensure!(!mentions || printed.contains('"'), "hidden-type-mentioned", "the inaccessible type {h} is mentioned");
        }
        let problems = vgql::check::problems(&api);
        ensure!(problems.is_empty(), format!("api-invalid-{}", problems[0].0), "the API SDL is not a valid schema: {problems:?}");
        case.sample(text.clone());
        case.nontrivial(&text);
        Ok(())
    });
    c.finish();
}
