use h_comp::{invalid, normal::*, sut, universe::*};
use vcommon::*;
use vgql::*;

type Parts = Vec<(String, String, String)>;

fn outcome(p: &Parts) -> Result<Result<sut::Composed, sut::Rejected>, Viol> {
    sut::compose_sdl(p)
}

fn same(
    what: &str,
    a: &Result<sut::Composed, sut::Rejected>,
    b: &Result<sut::Composed, sut::Rejected>,
    loose: bool,
) -> Result<(), Viol> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            for (kind, x, y) in [("federated", &a.federated, &b.federated), ("api", &a.api, &b.api)] {
                let p = |s: &str| vgql::parse(s).map_err(|e| Viol { sig: format!("{kind}-unparsable"), msg: format!("{e}\n{s}") });
                let (nx, ny) = (normal(&p(x)?, loose), normal(&p(y)?, loose));
                ensure!(nx == ny, format!("{what}-changes-{kind}"), "{what}: the {kind} schema differs; {}", first_difference(&nx, &ny));
            }
            Ok(())
        }
        (Err(a), Err(b)) => {
            let codes = |r: &sut::Rejected| {
                let mut c = r.codes.clone();
                c.sort();
                c.dedup();
                c
            };
            let _ = codes;
            ensure!(a.errors.is_empty() == b.errors.is_empty(), format!("{what}-errors"), "{:?} vs {:?}", a.errors, b.errors);
            Ok(())
        }
        (Ok(_), Err(r)) => viol(format!("{what}-rejects"), format!("{what}: accepted before, rejected after: {:?}", r.errors)),
        (Err(r), Ok(_)) => viol(format!("{what}-accepts"), format!("{what}: rejected before, accepted after: {:?}", r.errors)),
    }
}

fn shuffle_defs(r: &mut Rng, doc: &mut Doc) {
    r.shuffle(&mut doc.defs);
    for t in doc.types_mut() {
        r.shuffle(&mut t.fields);
        r.shuffle(&mut t.inputs);
        r.shuffle(&mut t.values);
        r.shuffle(&mut t.members);
        r.shuffle(&mut t.implements);
        for f in &mut t.fields {
            r.shuffle(&mut f.args);
        }
    }
}

/// Moves some of the parts of some definitions to extensions.
fn split(r: &mut Rng, doc: &mut Doc) -> usize {
    let mut extra: Vec<TypeDef> = vec![];
    for t in doc.types_mut() {
        if t.ext || !r.pct(40) {
            continue;
        }
        let mut e = TypeDef::new(t.kind, &t.name);
        e.ext = true;
        if t.fields.len() > 1 {
            let k = r.range(1, t.fields.len());
            e.fields = t.fields.split_off(k);
        }
        if t.inputs.len() > 1 {
            let k = r.range(1, t.inputs.len());
            e.inputs = t.inputs.split_off(k);
        }
        if t.values.len() > 1 {
            let k = r.range(1, t.values.len());
            e.values = t.values.split_off(k);
        }
        if t.members.len() > 1 {
            let k = r.range(1, t.members.len());
            e.members = t.members.split_off(k);
        }
        if !t.implements.is_empty() && r.bool() {
            e.implements = std::mem::take(&mut t.implements);
        }
        if !t.dirs.is_empty() && r.bool() {
            let k = r.below(t.dirs.len());
            e.dirs = t.dirs.split_off(k);
        }
        if e.fields.is_empty() && e.inputs.is_empty() && e.values.is_empty() && e.members.is_empty() && e.implements.is_empty() && e.dirs.is_empty() {
            continue;
        }
        extra.push(e);
    }
    let n = extra.len();
    for e in extra {
        let k = r.below(doc.defs.len() + 1);
        doc.defs.insert(k, Def::Type(e));
    }
    n
}

fn main() {
    let mut c = Check::new(
        "C03",
        "Random sets of subgraphs, valid and invalid, are composed once; then again, with the subgraphs in other orders, \
         with the definitions, fields, arguments, values, members shuffled, and with definitions split into extensions. The \
         verdict and the composed and API schemas (normal form) must not change. Distinct: hash of the SDLs of both sides.",
    );
    c.require("composed twice", 1000);
    c.require("subgraph orders", 1000);
    c.require("definition orders", 1000);
    c.require("splits", 1000);
    c.require("rejected both times", 1000);
    for (name, invalid) in [("valid", false), ("invalid", true)] {
        c.cases(name, 40_000, 1_000_000, |case| {
            let mut subs = generate(&mut case.rng, Features::default());
            if invalid {
                let class = case.rng.below(invalid::CLASSES);
                if invalid::mutate(&mut case.rng, &mut subs, class).is_none() {
                    return Ok(());
                }
            }
            let text = show(&subs);
            case.input(text.as_str());
            let base = sut::parts(&subs);
            let first = outcome(&base)?;
            let again = outcome(&base)?;
            match (&first, &again) {
                (Ok(a), Ok(b)) => {
                    ensure!(a.federated == b.federated && a.api == b.api, "twice-differs", "composing twice gives other text: {}", first_difference(&a.federated, &b.federated));
                }
                (Err(a), Err(b)) => ensure!(a.errors == b.errors, "twice-differs", "{:?} vs {:?}", a.errors, b.errors),
                _ => return viol("twice-differs", "composing twice gives another verdict"),
            }
            case.count("composed twice", 1);
            case.count("rejected both times", first.is_err() as u64);
            let mut r = case.rng.clone();
            match case.rng.below(3) {
                0 => {
                    if subs.len() < 2 {
                        return Ok(());
                    }
                    let mut p = base.clone();
                    r.shuffle(&mut p);
                    if p == base {
                        p.reverse();
                    }
                    case.append_input(&format!("# reordered: {:?}", p.iter().map(|x| &x.0).collect::<Vec<_>>()));
                    same("subgraph-order", &first, &outcome(&p)?, true)?;
                    case.count("subgraph orders", 1);
                    case.nontrivial(&(&text, p));
                }
                1 => {
                    let mut o = subs.clone();
                    o.iter_mut().for_each(|s| shuffle_defs(&mut r, &mut s.doc));
                    let after = show(&o);
                    case.append_input(&format!("### shuffled\n{after}"));
                    same("definition-order", &first, &outcome(&sut::parts(&o))?, false)?;
                    case.count("definition orders", 1);
                    case.nontrivial(&(&text, after));
                }
                _ => {
                    let mut o = subs.clone();
                    let n: usize = o.iter_mut().map(|s| split(&mut r, &mut s.doc)).sum();
                    let after = show(&o);
                    case.append_input(&format!("### split\n{after}"));
                    same("split", &first, &outcome(&sut::parts(&o))?, false)?;
                    case.count("splits", n as u64);
                    if n > 0 {
                        case.nontrivial(&(&text, after));
                    }
                }
            }
            case.sample(text);
            Ok(())
        });
    }
    c.finish();
}
