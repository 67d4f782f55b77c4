//! Type wrapping algebra against an independent stack model.
use graphql_wrapping_types::{ListWrapping, Wrapping, WrappingType};
use vcommon::{Case, Check, Rng, Viol, ensure, guard};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model {
    inner: bool,
    lists: Vec<bool>, // innermost first, true = non null
}

impl Model {
    fn non_null(&self) -> bool {
        *self.lists.last().unwrap_or(&self.inner)
    }
    fn render(&self, name: &str) -> String {
        let mut s = name.to_string();
        if self.inner {
            s.push('!');
        }
        for l in &self.lists {
            s = format!("[{s}]{}", if *l { "!" } else { "" });
        }
        s
    }
    fn build(&self) -> Wrapping {
        let mut w = Wrapping::new();
        if self.inner {
            w = w.non_null();
        }
        for l in &self.lists {
            w = if *l { w.list_non_null() } else { w.list() };
        }
        w
    }
}

fn lw(b: bool) -> ListWrapping {
    if b { ListWrapping::ListNonNull } else { ListWrapping::List }
}

fn observe(w: Wrapping, m: &Model) -> Result<(), Viol> {
    let lists: Vec<ListWrapping> = m.lists.iter().map(|b| lw(*b)).collect();
    ensure!(w.inner_is_required() == m.inner, "inner", "{w:?} inner required, model {m:?}");
    ensure!(w.list_wrappings().collect::<Vec<_>>() == lists, "lists", "{w:?} lists, model {m:?}");
    ensure!(w.list_wrappings().len() == lists.len(), "lists-len", "{w:?} lists len, model {m:?}");
    let rev: Vec<_> = w.list_wrappings().rev().collect();
    ensure!(rev.iter().rev().copied().collect::<Vec<_>>() == lists, "lists-rev", "{w:?} reversed lists, model {m:?}");
    ensure!(w.is_non_null() == m.non_null(), "nullability", "{w:?} non null, model {m:?}");
    ensure!(w.is_nullable() == !m.non_null(), "nullability", "{w:?} nullable, model {m:?}");
    ensure!(w.is_list() == !m.lists.is_empty(), "is-list", "{w:?} list, model {m:?}");
    let mut it = vec![];
    if m.inner {
        it.push(WrappingType::NonNull);
    }
    for l in &m.lists {
        it.push(WrappingType::List);
        if *l {
            it.push(WrappingType::NonNull);
        }
    }
    ensure!(w.iter().collect::<Vec<_>>() == it, "iter", "{w:?} iter {:?}, model {m:?}", w.iter().collect::<Vec<_>>());
    for name in ["T", "Some_Name1"] {
        let d = w.type_display(name).to_string();
        ensure!(d == m.render(name), "display", "{w:?} displays {d}, model {}", m.render(name));
    }
    let json = serde_json::to_string(&w).unwrap();
    let back: Wrapping = serde_json::from_str(&json).unwrap();
    ensure!(back == w, "serde", "{w:?} through serde is {back:?}");
    // removal of the outermost wrapper
    let wl = w.without_list();
    match m.lists.split_last() {
        None => ensure!(wl.is_none(), "without-list", "{w:?}.without_list() = {wl:?}"),
        Some((_, rest)) => {
            let e = Model { inner: m.inner, lists: rest.to_vec() }.build();
            ensure!(wl == Some(e), "without-list", "{w:?}.without_list() = {wl:?}, expected {e:?}");
        }
    }
    let mut e = m.clone();
    match e.lists.last_mut() {
        Some(l) => *l = false,
        None => e.inner = false,
    }
    let wn = w.without_non_null();
    ensure!(wn == e.build(), "without-non-null", "{w:?}.without_non_null() = {wn:?}, model {e:?}");
    let mut e = m.clone();
    match e.lists.last_mut() {
        Some(l) => *l = true,
        None => e.inner = true,
    }
    ensure!(w.non_null() == e.build(), "non-null", "{w:?}.non_null() = {:?}, model {e:?}", w.non_null());
    // the mutable form pops outermost first and gives the same wrapping back
    let mut mu = w.to_mutable();
    ensure!(Wrapping::from(mu.clone()) == w, "mutable", "{w:?} through the mutable form");
    for (i, l) in m.lists.iter().enumerate().rev() {
        ensure!(mu.is_required() == *l && mu.is_nullable() == !*l, "mutable-nullability", "{w:?} mutable at depth {i}");
        let p = mu.pop_outermost_list_wrapping();
        ensure!(p == Some(lw(*l)), "mutable-pop", "{w:?} pop {p:?}, expected {:?}", lw(*l));
        let at = Model { inner: m.inner, lists: m.lists[..i].to_vec() }.build();
        ensure!(Wrapping::from(mu.clone()) == at, "mutable", "{w:?} after pop to depth {i}");
    }
    ensure!(mu.is_required() == m.inner, "mutable-nullability", "{w:?} mutable inner");
    ensure!(mu.pop_outermost_list_wrapping().is_none(), "mutable-pop", "{w:?} pop beyond the end");
    for l in &m.lists {
        mu.push_outermost_list_wrapping(lw(*l));
    }
    ensure!(Wrapping::from(mu) == w, "mutable", "{w:?} rebuilt through pushes");
    Ok(())
}

fn lenient(a: &Model, b: &Model) -> bool {
    a.lists.len() == b.lists.len() && (!a.inner || b.inner) && a.lists.iter().zip(&b.lists).all(|(x, y)| !*x || *y)
}

fn pair(a: &Model, b: &Model) -> Result<(), Viol> {
    let (x, y) = (a.build(), b.build());
    ensure!((x == y) == (a == b), "eq", "{x:?} == {y:?}: {}", x == y);
    ensure!(
        x.is_equal_or_more_lenient_than(y) == lenient(a, b),
        "lenient",
        "{x:?} lenient than {y:?}: {}",
        x.is_equal_or_more_lenient_than(y)
    );
    Ok(())
}

fn random_model(rng: &mut Rng) -> Model {
    let n = rng.range(0, 10);
    Model { inner: rng.bool(), lists: (0..n).map(|_| rng.bool()).collect() }
}

fn main() {
    let mut c = Check::new("S01", "a wrapping of list depth 2 or more, or an operation sequence that changed it");
    // every representable wrapping
    c.one("all", |case: &mut Case| {
        for depth in 0..=10usize {
            for bits in 0u32..(2 << depth) {
                let m = Model { inner: bits & 1 == 1, lists: (0..depth).map(|i| bits >> (i + 1) & 1 == 1).collect() };
                case.input(format!("{m:?}"));
                let w = guard("build", || m.build())?;
                guard("observe", || observe(w, &m))??;
                case.count("wrappings", 1);
                if depth >= 2 {
                    case.nontrivial(&m);
                }
            }
        }
        Ok(())
    });
    // every pair up to depth 3 for the leniency order
    c.one("pairs", |case: &mut Case| {
        let mut all = vec![];
        for depth in 0..=3usize {
            for bits in 0u32..(2 << depth) {
                all.push(Model { inner: bits & 1 == 1, lists: (0..depth).map(|i| bits >> (i + 1) & 1 == 1).collect() });
            }
        }
        for a in &all {
            for b in &all {
                case.input(format!("{a:?} {b:?}"));
                pair(a, b)?;
                case.count("pairs", 1);
            }
        }
        Ok(())
    });
    c.cases("ops", 20_000, 2_000_000, |case| {
        let mut m = Model { inner: false, lists: vec![] };
        let mut w = Wrapping::default();
        let mut log = String::new();
        for _ in 0..case.rng.range(1, 30) {
            match case.rng.below(7) {
                0 if m.lists.len() < 10 => {
                    m.lists.push(false);
                    w = w.list();
                    log.push_str("list ");
                }
                1 if m.lists.len() < 10 => {
                    m.lists.push(true);
                    w = w.list_non_null();
                    log.push_str("list_non_null ");
                }
                2 => {
                    match m.lists.last_mut() {
                        Some(l) => *l = true,
                        None => m.inner = true,
                    }
                    w = w.non_null();
                    log.push_str("non_null ");
                }
                3 => {
                    m.lists.pop();
                    w = w.without_list().unwrap_or(w);
                    log.push_str("without_list ");
                }
                4 => {
                    match m.lists.last_mut() {
                        Some(l) => *l = false,
                        None => m.inner = false,
                    }
                    w = w.without_non_null();
                    log.push_str("without_non_null ");
                }
                5 if m.lists.len() < 10 => {
                    let mut mu = w.to_mutable();
                    mu.push_outermost_list_wrapping(ListWrapping::ListNonNull);
                    w = mu.into();
                    m.lists.push(true);
                    log.push_str("mutable-push ");
                }
                _ => {
                    let mut mu = w.to_mutable();
                    let p = mu.pop_outermost_list_wrapping();
                    ensure!(p.map(|p| p == ListWrapping::ListNonNull) == m.lists.pop(), "mutable-pop", "after {log}");
                    w = mu.into();
                    log.push_str("mutable-pop ");
                }
            }
            case.input(log.clone());
            guard("observe", || observe(w, &m))??;
        }
        let b = random_model(&mut case.rng);
        pair(&m, &b)?;
        let mut near = m.clone();
        if !near.lists.is_empty() {
            let i = case.rng.below(near.lists.len());
            near.lists[i] ^= true;
        }
        pair(&m, &near)?;
        pair(&near, &m)?;
        case.count("operations", log.split(' ').count() as u64);
        case.nontrivial(&log);
        case.sample(log);
        Ok(())
    });
    c.require("wrappings", 4094);
    c.finish();
}
