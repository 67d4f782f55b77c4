//! Id ranges, id sets and id maps against plain models.
use id_newtypes::{BitSet, IdRange, IdToMany, IdToOne};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{Case, Check, Viol, ensure, guard};
use walker::{Walk, WalkIterator};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize, id_derives::Id)]
struct PlainId(u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct TinyId(u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct NzId(std::num::NonZero<u16>);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, id_derives::Id)]
struct NzTinyId(std::num::NonZero<u8>);

#[derive(id_derives::IndexedFields)]
struct Store {
    #[indexed_by(PlainId)]
    names: Vec<String>,
    #[indexed_by(NzId)]
    numbers: Vec<u64>,
}

#[derive(Clone, Copy)]
struct Ctx<'a>(&'a Store);
impl<'c> Walk<Ctx<'c>> for PlainId {
    type Walker<'a>
        = (PlainId, &'c str)
    where
        Ctx<'c>: 'a;
    fn walk<'a>(self, ctx: impl Into<Ctx<'c>>) -> Self::Walker<'a>
    where
        Self: 'a,
        Ctx<'c>: 'a,
    {
        let ctx: Ctx<'c> = ctx.into();
        (self, ctx.0[self].as_str())
    }
}

fn ranges(case: &mut Case) -> Result<(), Viol> {
    let (a, b) = (case.rng.below(300), case.rng.below(300));
    let (lo, hi) = (a.min(b), a.max(b));
    case.input(format!("range {lo}..{hi}"));
    let r: IdRange<NzId> = match case.rng.below(3) {
        0 => IdRange::from_start_and_end(lo, hi),
        1 => IdRange::from_start_and_length((lo, hi - lo)),
        _ => IdRange::from(lo..hi),
    };
    ensure!(r.len() == hi - lo && r.is_empty() == (lo == hi), "len", "{r:?}");
    ensure!(r.as_usize() == (lo..hi), "as-usize", "{r:?}");
    let fwd: Vec<usize> = r.into_iter().map(usize::from).collect();
    ensure!(fwd == (lo..hi).collect::<Vec<_>>(), "iter", "{r:?} -> {fwd:?}");
    let bwd: Vec<usize> = r.into_iter().rev().map(usize::from).collect();
    ensure!(bwd == (lo..hi).rev().collect::<Vec<_>>(), "rev", "{r:?} -> {bwd:?}");
    // mixed ends
    let mut it = r.into_iter();
    let mut m = lo..hi;
    for _ in 0..(hi - lo + 2) {
        ensure!(it.len() == m.len(), "size", "{r:?} len {} expected {}", it.len(), m.len());
        ensure!(it.size_hint() == m.size_hint(), "size", "{r:?} size hint");
        let (x, y) = if case.rng.bool() { (it.next(), m.next()) } else { (it.next_back(), m.next_back()) };
        ensure!(x.map(usize::from) == y, "ends", "{r:?}: {x:?} vs {y:?}");
    }
    for i in 0..(hi - lo + 3) {
        ensure!(r.get(i).map(usize::from) == (lo + i < hi).then_some(lo + i), "get", "{r:?}.get({i}) = {:?}", r.get(i));
    }
    for i in lo.saturating_sub(2)..hi + 2 {
        let e = (lo..hi).contains(&i).then(|| i - lo);
        ensure!(r.index_of(NzId::from(i)) == e, "index-of", "{r:?}.index_of({i}) = {:?}", r.index_of(NzId::from(i)));
    }
    let single = IdRange::from_single(NzId::from(lo));
    ensure!(single.as_usize() == (lo..lo + 1), "single", "{single:?}");
    // slices
    let mut ids: Vec<usize> = (lo..hi.min(lo + 12)).collect();
    match case.rng.below(4) {
        0 if ids.len() > 1 => {
            let i = case.rng.below(ids.len());
            ids.remove(i);
        }
        1 if ids.len() > 1 => {
            let (i, j) = (case.rng.below(ids.len()), case.rng.below(ids.len()));
            ids.swap(i, j);
        }
        2 if !ids.is_empty() => {
            let i = case.rng.below(ids.len());
            ids.insert(i, ids[i]);
        }
        _ => {}
    }
    let contiguous = ids.windows(2).all(|w| w[1] == w[0] + 1);
    let got = IdRange::from_slice(&ids.iter().map(|i| NzId::from(*i)).collect::<Vec<_>>());
    match got {
        None => ensure!(!contiguous, "from-slice", "{ids:?} rejected"),
        Some(g) => {
            let back: Vec<usize> = g.into_iter().map(usize::from).collect();
            ensure!(contiguous && back == ids, "from-slice", "{ids:?} -> {g:?}");
        }
    }
    case.count("ranges", 1);
    if hi > lo + 1 {
        case.nontrivial(&("range", lo, hi));
    }
    Ok(())
}

fn observe_set(b: &BitSet<PlainId>, len: usize, m: &BTreeSet<usize>, log: &str) -> Result<(), Viol> {
    ensure!(b.len() == len, "bitset-len", "len {} expected {len}: {log}", b.len());
    ensure!(b.is_empty() == (len == 0), "bitset-empty", "{log}");
    let ones: Vec<usize> = b.ones().map(usize::from).collect();
    ensure!(ones == m.iter().copied().collect::<Vec<_>>(), "bitset-ones", "{ones:?} expected {m:?}: {log}");
    let zeroes: Vec<usize> = b.zeroes().map(usize::from).collect();
    ensure!(zeroes == (0..len).filter(|i| !m.contains(i)).collect::<Vec<_>>(), "bitset-zeroes", "{zeroes:?} expected not {m:?}: {log}");
    for i in 0..len {
        ensure!(b[PlainId::from(i)] == m.contains(&i), "bitset-index", "{i}: {log}");
    }
    Ok(())
}

fn bitsets(case: &mut Case) -> Result<(), Viol> {
    let mut sets = vec![];
    let mut log = String::new();
    for _ in 0..2 {
        let mut len = case.rng.below(150);
        let mut b = BitSet::<PlainId>::with_capacity(len);
        let mut m = BTreeSet::new();
        for _ in 0..case.rng.range(0, 15) {
            if len == 0 {
                len = case.rng.range(1, 140);
                b.grow(len);
            }
            let i = case.rng.below(len);
            let id = PlainId::from(i);
            match case.rng.below(7) {
                0 => {
                    let was = b.put(id);
                    ensure!(was != m.insert(i), "bitset-put", "put({i}) said {was}: {log}");
                    log.push_str(&format!("put {i};"));
                }
                1 => {
                    let v = case.rng.bool();
                    b.set(id, v);
                    if v { m.insert(i) } else { m.remove(&i) };
                    log.push_str(&format!("set {i} {v};"));
                }
                2 => {
                    b.insert(id);
                    m.insert(i);
                    log.push_str(&format!("insert {i};"));
                }
                3 => {
                    let j = case.rng.range(i, len);
                    let v = case.rng.bool();
                    b.set_range(IdRange::from_start_and_end(i, j), v);
                    for k in i..j {
                        if v { m.insert(k) } else { m.remove(&k) };
                    }
                    log.push_str(&format!("set_range {i}..{j} {v};"));
                }
                4 => {
                    let n = case.rng.below(200);
                    b.grow(n);
                    len = len.max(n);
                    log.push_str(&format!("grow {n};"));
                }
                5 if case.rng.pct(20) => {
                    let v = case.rng.bool();
                    b.set_all(v);
                    m = if v { (0..len).collect() } else { BTreeSet::new() };
                    log.push_str(&format!("set_all {v};"));
                }
                _ if case.rng.pct(30) => {
                    b = !b;
                    m = (0..len).filter(|i| !m.contains(i)).collect();
                    log.push_str("not;");
                }
                _ => {}
            }
            case.input(log.clone());
            observe_set(&b, len, &m, &log)?;
        }
        sets.push((b, len, m));
        log.push_str(" | ");
    }
    let (b2, l2, m2) = sets.pop().unwrap();
    let (b1, l1, m1) = sets.pop().unwrap();
    let len = l1.max(l2);
    let or: BTreeSet<usize> = m1.union(&m2).copied().collect();
    let and: BTreeSet<usize> = m1.intersection(&m2).copied().collect();
    let xor: BTreeSet<usize> = m1.symmetric_difference(&m2).copied().collect();
    let ones = |b: &BitSet<PlainId>| b.ones().map(usize::from).collect::<BTreeSet<usize>>();
    observe_set(&(b1.clone() | b2.clone()), len, &or, &format!("{log} or"))?;
    observe_set(&(b1.clone() ^ b2.clone()), len, &xor, &format!("{log} xor"))?;
    ensure!(ones(&(b1.clone() & b2.clone())) == and, "bitset-and", "{log}");
    let (mut x, mut y, mut z) = (b1.clone(), b1.clone(), b1.clone());
    x |= b2.clone();
    y &= b2.clone();
    z ^= b2.clone();
    ensure!(ones(&x) == or && ones(&y) == and && ones(&z) == xor, "bitset-assign", "{log}");
    let bytes = postcard::to_stdvec(&b1).unwrap();
    let back: BitSet<PlainId> = postcard::from_bytes(&bytes).unwrap();
    observe_set(&back, l1, &m1, "serde")?;
    case.count("bit set histories", 1);
    case.nontrivial(&log);
    Ok(())
}

fn maps(case: &mut Case) -> Result<(), Viol> {
    let n = case.rng.below(40);
    let pairs: Vec<(PlainId, u32)> = (0..n).map(|_| (PlainId::from(case.rng.below(12)), case.rng.below(50) as u32)).collect();
    case.input(format!("{pairs:?}"));
    let mut model: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
    for (k, v) in &pairs {
        model.entry(usize::from(*k)).or_default().push(*v);
    }
    let m: IdToMany<PlainId, u32> = match case.rng.below(3) {
        0 => pairs.iter().copied().collect(),
        1 => IdToMany::from(pairs.clone()),
        _ => {
            let mut s = pairs.clone();
            s.sort_by_key(|p| p.0);
            IdToMany::from_sorted_vec(s)
        }
    };
    for id in 0..14usize {
        let mut got: Vec<u32> = m.find_all(PlainId::from(id)).copied().collect();
        let mut want = model.get(&id).cloned().unwrap_or_default();
        got.sort();
        want.sort();
        ensure!(got == want, "find-all", "{id}: {got:?} expected {want:?}");
    }
    let ids: Vec<usize> = m.ids().map(usize::from).collect();
    ensure!(ids == model.keys().copied().collect::<Vec<_>>(), "ids", "{ids:?}");
    ensure!(m.as_ref().len() == n, "relations", "{} of {n}", m.as_ref().len());
    let mut one = IdToOne::<NzId, u64>::init(7, n + 1);
    let mut model = vec![7u64; n + 1];
    for _ in 0..10 {
        let i = case.rng.below(n + 1);
        one[NzId::from(i)] = i as u64 * 3;
        model[i] = i as u64 * 3;
        ensure!(one[NzId::from(i)] == model[i], "one", "{i}");
    }
    ensure!(one.iter().map(|(i, v)| (usize::from(i), *v)).eq(model.iter().copied().enumerate()), "one-iter", "iter");
    ensure!(one.into_iter().map(|(i, v)| (usize::from(i), v)).eq(model.into_iter().enumerate()), "one-iter", "into_iter");
    case.count("id maps", 1);
    case.nontrivial(&format!("{pairs:?}"));
    Ok(())
}

fn walkers(case: &mut Case) -> Result<(), Viol> {
    let n = case.rng.range(1, 30);
    let store = Store { names: (0..n).map(|i| format!("n{i}")).collect(), numbers: (0..n).map(|i| i as u64 * 10).collect() };
    let ctx = Ctx(&store);
    let (a, b) = (case.rng.below(n + 1), case.rng.below(n + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    case.input(format!("store of {n}, walk {lo}..{hi}"));
    let range: IdRange<PlainId> = IdRange::from_start_and_end(lo, hi);
    let want: Vec<(usize, String)> = (lo..hi).map(|i| (i, format!("n{i}"))).collect();
    let flat = |v: Vec<(PlainId, &str)>| v.into_iter().map(|(i, s)| (usize::from(i), s.to_string())).collect::<Vec<_>>();
    let w = Walk::<Ctx<'_>>::walk(range, ctx);
    ensure!(w.len() == hi - lo, "walk-len", "{}", w.len());
    ensure!(flat(w.clone().collect()) == want, "walk", "range walk");
    let mut back = flat(w.clone().rev().collect());
    back.reverse();
    ensure!(back == want, "walk-back", "reverse walk");
    let ids: Vec<PlainId> = range.into_iter().collect();
    ensure!(flat(Walk::<Ctx<'_>>::walk(ids.as_slice(), ctx).collect()) == want, "walk-slice", "slice walk");
    ensure!(store[range] == store.names[lo..hi], "indexed-range", "{lo}..{hi}");
    let nz: IdRange<NzId> = IdRange::from_start_and_end(lo, hi);
    ensure!(store[nz] == store.numbers[lo..hi], "indexed-range", "{lo}..{hi} non-zero");
    for i in 0..n {
        ensure!(store[PlainId::from(i)] == format!("n{i}") && store[NzId::from(i)] == i as u64 * 10, "indexed", "{i}");
    }
    // order and equality of walk iterators follow length, then items
    let mk = |case: &mut Case| -> Vec<PlainId> { (0..case.rng.below(4)).map(|_| PlainId::from(case.rng.below(n.min(3)))).collect() };
    let (x, y) = (mk(case), mk(case));
    let wx = WalkIterator::new(x.iter(), ctx);
    let wy = WalkIterator::new(y.iter(), ctx);
    let want = x.len().cmp(&y.len()).then_with(|| x.cmp(&y));
    ensure!(std::cmp::Ord::cmp(&wx, &wy) == want, "walk-cmp", "{x:?} {y:?}");
    ensure!(std::cmp::PartialOrd::partial_cmp(&wx, &wy) == Some(want), "walk-cmp", "{x:?} {y:?}");
    ensure!((wx == wy) == (x == y), "walk-eq", "{x:?} {y:?}");
    case.count("walks", 1);
    case.nontrivial(&(n, lo, hi, format!("{x:?}{y:?}")));
    Ok(())
}

fn main() {
    let mut c = Check::new("S06", "a non-empty range, an operation history, a relation or a walk");
    c.cases("ranges", 6000, 300_000, ranges);
    c.cases("bitsets", 6000, 400_000, bitsets);
    c.cases("maps", 6000, 300_000, maps);
    c.cases("walkers", 6000, 300_000, walkers);
    // conversions are exact over the whole domain of the id and refuse what does not fit
    c.one("conversions", |case| {
        for i in 0..300usize {
            case.input(format!("{i}"));
            let t = guard("tiny", || TinyId::from(i));
            ensure!(t.is_ok() == (i <= 255), "domain", "u8 id from {i}: {}", t.is_ok());
            if let Ok(t) = t {
                ensure!(usize::from(t) == i && u8::from(t) as usize == i, "round-trip", "u8 id {i}");
                ensure!(TinyId::from(i as u8) == t, "round-trip", "u8 id {i}");
                ensure!(t.to_string() == format!("Tiny#{i}") && format!("{t:?}") == format!("Tiny#{i}"), "display", "{t}");
            }
            let t = guard("nz", || NzTinyId::from(i));
            ensure!(t.is_ok() == (i < 255), "domain", "non-zero u8 id from {i}: {}", t.is_ok());
            if let Ok(t) = t {
                ensure!(usize::from(t) == i && u8::from(t) as usize == i, "round-trip", "non-zero u8 id {i}");
                ensure!(NzTinyId::from(i as u8) == t, "round-trip", "non-zero u8 id {i}");
                ensure!(t.to_string() == format!("NzTiny#{i}"), "display", "{t}");
            }
            case.count("conversions", 2);
        }
        for i in [0usize, 1, 255, 256, 65533, 65534, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1] {
            case.input(format!("{i}"));
            let t = guard("nz16", || NzId::from(i));
            ensure!(t.is_ok() == (i < 65535), "domain", "non-zero u16 id from {i}: {}", t.is_ok());
            if let Ok(t) = t {
                ensure!(usize::from(t) == i, "round-trip", "{i}");
            }
            let t = guard("u32", || PlainId::from(i));
            ensure!(t.is_ok() == (i <= u32::MAX as usize), "domain", "u32 id from {i}: {}", t.is_ok());
            if let Ok(t) = t {
                ensure!(usize::from(t) == i, "round-trip", "{i}");
            }
        }
        // ids order like the integers they stand for
        for i in 0..200usize {
            for j in 0..200usize {
                ensure!(NzTinyId::from(i).cmp(&NzTinyId::from(j)) == i.cmp(&j), "order", "{i} {j}");
            }
        }
        Ok(())
    });
    c.require("conversions", 600);
    c.finish();
}
