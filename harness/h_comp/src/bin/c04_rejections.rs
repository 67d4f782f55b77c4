use h_comp::{invalid, sut, universe::*};
use vcommon::*;

fn main() {
    let mut c = Check::new(
        "C04",
        "A random valid set of subgraphs is broken in one of 32 ways (each a documented composition rule); composing it \
         must fail, yield no graph, and one error must name the offending elements. Distinct: class and hash of the SDLs.",
    );
    for class in 0..invalid::CLASSES {
        c.cases(&format!("class {class}"), 8000, 80_000, |case| {
            let ft = Features::default();
            let mut subs = generate(&mut case.rng, ft);
            let Some(mu) = invalid::mutate(&mut case.rng, &mut subs, class) else { return Ok(()) };
            let text = show(&subs);
            case.input(format!("# made invalid: {mu:?}\n{text}"));
            match sut::run(&subs)? {
                Ok(o) => viol(
                    format!("accepted-{}", mu.class),
                    format!("{mu:?} is accepted; composed to\n{}", o.federated),
                ),
                Err(r) => {
                    case.count(mu.class, 1);
                    case.count("rejected", 1);
                    ensure!(
                        r.errors.iter().any(|e| mu.names.iter().all(|n| e.contains(n.as_str()))),
                        format!("not-named-{}", mu.class),
                        "no error names {:?}: {:?}", mu.names, r.errors
                    );
                    case.nontrivial(&(mu.class, &text));
                    case.sample(format!("{mu:?}\n{:?}\n{text}", r.errors));
                    Ok(())
                }
            }
        });
        c.require("rejected", 100 * (invalid::CLASSES as u64));
    }
    c.finish();
}
