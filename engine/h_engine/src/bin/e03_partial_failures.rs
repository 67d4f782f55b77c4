use h_engine::{
    fed, gql,
    gql::{Document, OpKind, Sel},
    judge::{Judge, Path, Step, error_paths, leads_somewhere, leads_to_null, near_null},
    lab::*,
    ops::{self, Op, Style},
    rt::Options,
    shrink::shrink,
    world::Fed,
};
use runtime::fetch::FetchError;
use serde_json::{Value as J, json};
use std::collections::BTreeSet;
use vcommon::{Check, Rng, Viol, ensure, guard, hash_of, viol};

/// What happens to an answer of a subgraph.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// Nothing the gateway may notice.
    Harmless,
    Transport,
    Status,
    Garbage,
    /// Ends before it is complete.
    Truncated,
    OnlyErrors,
    NullAndErrors,
    Corrupt,
    NullEntities,
    WrongCount,
}

const FAULTS: [Fault; 10] = [
    Fault::Harmless,
    Fault::Transport,
    Fault::Status,
    Fault::Garbage,
    Fault::Truncated,
    Fault::OnlyErrors,
    Fault::NullAndErrors,
    Fault::Corrupt,
    Fault::NullEntities,
    Fault::WrongCount,
];

fn hard(f: Fault) -> bool {
    matches!(
        f,
        Fault::Transport
            | Fault::Status
            | Fault::Garbage
            | Fault::Truncated
            | Fault::OnlyErrors
            | Fault::NullAndErrors
    )
}

/// Depends on what is asked for only, so that asking again gives the same.
fn choose(seed: u64, s: &Seen, harmless: bool) -> (Fault, Rng) {
    let mut r = Rng::new(hash_of(&(seed, s.sub, &s.query, s.variables.to_string())));
    if harmless {
        return (Fault::Harmless, r);
    }
    // One kind for all of them most of the time.
    let mut one = Rng::new(seed);
    let kind = if one.pct(70) {
        *one.pick(&FAULTS)
    } else {
        *r.pick(&FAULTS)
    };
    let share = *one.pick(&[20, 50, 100]);
    if !r.pct(share) {
        return (Fault::None, r);
    }
    let kind = match kind {
        Fault::NullEntities | Fault::WrongCount if !s.entities => Fault::None,
        k => k,
    };
    (kind, r)
}

fn marker() -> J {
    json!({"bad": true})
}

/// Response keys that always have a selection: what is below others may be the value of a custom
/// scalar.
fn composite_keys(doc: &Document) -> BTreeSet<String> {
    fn go(sels: &[Sel], with: &mut BTreeSet<String>, without: &mut BTreeSet<String>) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    if f.sels.is_empty() {
                        &mut *without
                    } else {
                        &mut *with
                    }
                    .insert(f.key().to_owned());
                    go(&f.sels, with, without);
                }
                Sel::Inline(_, _, inner) => go(inner, with, without),
                Sel::Spread(..) => (),
            }
        }
    }
    let (mut with, mut without) = Default::default();
    for op in &doc.ops {
        go(&op.sels, &mut with, &mut without);
    }
    for f in &doc.frags {
        go(&f.sels, &mut with, &mut without);
    }
    with.difference(&without).cloned().collect()
}

/// Whether a field with the last key of the path is selected several times: it may be asked for
/// several times, and only one of the answers be missing.
fn twice(doc: &Document, path: &Path) -> bool {
    fn count(sels: &[Sel], key: &str) -> usize {
        sels.iter()
            .map(|s| match s {
                Sel::Field(f) => (f.key() == key) as usize + count(&f.sels, key),
                Sel::Inline(_, _, inner) => count(inner, key),
                Sel::Spread(..) => 0,
            })
            .sum()
    }
    let last = path.iter().rev().find_map(|s| match s {
        Step::Key(k) => Some(k),
        _ => None,
    });
    let Some(key) = last else { return false };
    let all = doc
        .ops
        .iter()
        .map(|o| &o.sels)
        .chain(doc.frags.iter().map(|f| &f.sels));
    all.map(|sels| count(sels, key)).sum::<usize>() > 1
}

fn spread_extras(r: &mut Rng, j: &mut J, composite: &BTreeSet<String>) {
    match j {
        J::Object(o) => {
            for (k, v) in o.iter_mut() {
                if composite.contains(k) {
                    spread_extras(r, v, composite);
                }
            }
            if o.is_empty() || r.pct(30) {
                o.insert("unasked".into(), json!([{"x": 1}, null, "é"]));
            }
            if r.pct(30) {
                let turned: Vec<_> = std::mem::take(o).into_iter().rev().collect();
                o.extend(turned);
            }
        }
        J::Array(a) => a.iter_mut().for_each(|v| spread_extras(r, v, composite)),
        _ => (),
    }
}

/// Replaces something in the data by what has no place there.
fn corrupt(r: &mut Rng, j: &mut J, composite: &BTreeSet<String>, depth: usize) {
    let inside = r.pct(75);
    match j {
        J::Object(o) if !o.is_empty() && (inside || depth == 0) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = r.pick(&keys);
            if r.pct(15) && depth > 0 {
                o.remove(k);
            } else {
                let v = o.get_mut(k).unwrap();
                if composite.contains(k) {
                    corrupt(r, v, composite, depth + 1);
                } else {
                    *v = r.pick(&[marker(), marker(), J::Null]).clone();
                }
            }
        }
        J::Array(a) if !a.is_empty() && inside => {
            let n = r.below(a.len());
            corrupt(r, &mut a[n], composite, depth + 1)
        }
        J::Object(_) => {
            *j = r
                .pick(&[json!("no object"), json!([]), J::Null, json!(7)])
                .clone()
        }
        J::Array(_) => *j = r.pick(&[json!(true), J::Null]).clone(),
        _ => *j = r.pick(&[json!("no object"), json!(7)]).clone(),
    }
}

fn apply(
    f: Fault,
    r: &mut Rng,
    s: &Seen,
) -> Option<runtime::fetch::FetchResult<http::Response<bytes::Bytes>>> {
    let ok = |j: J| Some(Ok(respond(200, "application/json", j.to_string())));
    let mut answer = s.answer.clone();
    let doc = gql::parse(&s.query).ok();
    let composite = doc.as_ref().map(composite_keys).unwrap_or_default();
    let errors = {
        let mut e = json!({"message": "broken", "locations": [{"line": 1, "column": 2}], "extensions": {"code": "X"}});
        let keys: Vec<String> = answer["data"]
            .as_object()
            .into_iter()
            .flatten()
            .map(|(k, _)| k.clone())
            .collect();
        if !keys.is_empty() && r.bool() {
            e["path"] = json!([r.pick(&keys)]);
        }
        json!([e])
    };
    match f {
        Fault::None => None,
        Fault::Harmless => {
            spread_extras(r, &mut answer["data"], &composite);
            if r.bool() {
                answer["extensions"] = json!({"trace": [1, {"a": null}]});
            }
            if r.pct(20) {
                answer["errors"] = J::Null;
            }
            let text = if r.bool() {
                serde_json::to_string_pretty(&answer).unwrap()
            } else {
                answer.to_string()
            };
            let kind = r.str(&[
                "application/json",
                "application/graphql-response+json",
                "application/json; charset=utf-8",
            ]);
            Some(Ok(respond(200, kind, text)))
        }
        Fault::Transport => Some(Err(FetchError::from("no connection"))),
        Fault::Status => Some(Ok(respond(
            *r.pick(&[500, 404, 401, 503]),
            "text/plain",
            "not today".into(),
        ))),
        Fault::Garbage => {
            let t = r.str(&[
                "",
                "{",
                "null",
                "[]",
                "<html></html>",
                "{}",
                "{\"data\": ",
                "7",
                "\"data\"",
            ]);
            Some(Ok(respond(200, "application/json", t.into())))
        }
        Fault::Truncated => {
            let mut t = answer.to_string();
            let ends: Vec<usize> = t
                .char_indices()
                .map(|(n, _)| n)
                .filter(|n| *n > 7)
                .collect();
            t.truncate(*r.pick(&ends));
            Some(Ok(respond(200, "application/json", t)))
        }
        Fault::OnlyErrors => ok(json!({"errors": errors})),
        Fault::NullAndErrors => ok(json!({"data": null, "errors": errors})),
        Fault::Corrupt => {
            corrupt(r, &mut answer["data"], &composite, 0);
            ok(answer)
        }
        Fault::NullEntities => {
            for e in answer["data"]["_entities"].as_array_mut()? {
                if r.bool() {
                    *e = J::Null;
                }
            }
            ok(answer)
        }
        Fault::WrongCount => {
            let list = answer["data"]["_entities"].as_array_mut()?;
            if r.bool() && !list.is_empty() {
                list.pop();
            } else {
                let more = list.first().cloned().unwrap_or(J::Null);
                list.push(more);
            }
            ok(answer)
        }
    }
}

#[derive(Default)]
struct Outcome {
    faults: Vec<Fault>,
    lost: usize,
    errors: usize,
    kept: bool,
}

async fn ask(
    lab: &Lab,
    op: &Op,
    seed: u64,
    harmless: bool,
    record: &mut String,
) -> Result<Outcome, Viol> {
    *lab.mock.meddle.lock().unwrap() = Some(Box::new(move |s, _| {
        let (f, mut r) = choose(seed, s, harmless);
        apply(f, &mut r, s)
    }));
    let want = lab.annotated(op);
    let a = lab.ask(op).await;
    let log = lab.take_log();
    for s in &log {
        let (f, mut r) = choose(seed, s, harmless);
        let changed = match apply(f, &mut r, s) {
            Some(Ok(r)) => format!("{} {}", r.status(), String::from_utf8_lossy(r.body())),
            Some(Err(e)) => e.to_string(),
            None => String::new(),
        };
        record.push_str(&format!(
            "-> {} {} {}\n<- {}\n<- {f:?} {changed}\n",
            lab.fed.names[s.sub], s.query, s.variables, s.answer
        ));
    }
    let got = json_of(&a)?;
    record.push_str(&format!(
        "# answer {}\n{got}\n# expected\n{}\n",
        a.status,
        lab.expected(op, None)
    ));

    let mut out = Outcome::default();
    // What may be missing: these root fields, and fields of these types.
    let mut roots: BTreeSet<String> = BTreeSet::new();
    let mut types: BTreeSet<String> = BTreeSet::new();
    let mut failed_roots: Vec<BTreeSet<String>> = vec![];
    let mut loud = false;
    let mut silent = false;
    for s in &log {
        let (f, _) = choose(seed, s, harmless);
        out.faults.push(f);
        let odd = !s.problems.is_empty();
        if matches!(f, Fault::None | Fault::Harmless) && !odd {
            continue;
        }
        if hard(f) {
            loud = true;
        } else {
            silent = true;
        }
        if s.entities {
            for (_, v) in s.variables.as_object().into_iter().flatten() {
                for rep in v.as_array().into_iter().flatten() {
                    if let Some(t) = rep.get("__typename").and_then(|t| t.as_str()) {
                        types.insert(t.to_owned());
                    }
                }
            }
        } else if let Ok(doc) = gql::parse(&s.query) {
            let keys = doc.ops[0].sels.iter().filter_map(|s| match s {
                Sel::Field(f) => Some(f.key().to_owned()),
                _ => None,
            });
            let keys: BTreeSet<String> = keys.collect();
            roots.extend(keys.clone());
            if hard(f) {
                failed_roots.push(keys);
            }
        }
    }

    let paths = error_paths(&got)?;
    out.errors = paths.len();
    let Some(data) = got.get("data") else {
        return viol(
            "no-data",
            format!("the operation was executed, but there is no data: {got}"),
        );
    };
    let mut judge = Judge {
        view: &lab.fed.api,
        marker: silent.then(marker),
        any_order: silent || loud,
        lost: vec![],
        within: vec![],
    };
    judge.data(&want, data)?;
    out.lost = judge.lost.len();
    out.kept = data
        .as_object()
        .is_some_and(|o| o.values().any(|v| !v.is_null()));

    if roots.is_empty() && types.is_empty() {
        ensure!(
            judge.lost.is_empty(),
            "lost-without-fault",
            "{:?} are null, but nothing failed",
            judge.lost
        );
        ensure!(paths.is_empty(), "error-without-fault", "{}", got["errors"]);
    }
    if loud {
        ensure!(
            !paths.is_empty(),
            "silent-failure",
            "a subgraph failed, but there are no errors"
        );
    }
    for l in &judge.lost {
        let root = match l.path.first() {
            Some(Step::Key(k)) => roots.contains(k),
            _ => !roots.is_empty(),
        };
        ensure!(
            root || l.types.iter().any(|t| types.contains(t)),
            "unaffected-lost",
            "{:?} is null, but only {roots:?} and {types:?} failed",
            l.path
        );
        // A subgraph that gives null for what may be null says nothing else about it.
        ensure!(
            silent || !paths.is_empty(),
            "unexplained-null",
            "{:?} is null, but there are no errors",
            l.path
        );
    }
    // One error for each of the failed requests for root fields.
    for keys in &failed_roots {
        let told = |p: &Path| matches!(p.first(), Some(Step::Key(k)) if keys.contains(k));
        ensure!(
            paths.iter().any(|p| p.as_ref().is_none_or(told)),
            "unreported-request",
            "the request for {keys:?} failed, but no error says so: {}",
            got["errors"]
        );
    }
    // What was received before the end may be kept.
    let cut = out.faults.contains(&Fault::Truncated);
    for p in paths.iter().flatten().filter(|_| !cut) {
        ensure!(
            leads_to_null(data, p)
                || near_null(data, p)
                || (twice(&op.doc, p) && leads_somewhere(data, p)),
            "error-path",
            "the path of an error, {p:?}, does not lead to null"
        );
    }
    Ok(out)
}

fn main() {
    let mut c = Check::new(
        "E03",
        "failures of subgraphs cost no more than what they were needed for",
    );
    for (name, quick, thorough) in [("faults", 16000, 300000), ("harmless", 4000, 80000)] {
        c.cases(name, quick, thorough, |case| {
            let harmless = name == "harmless";
            let subs = fed::generate(&mut case.rng, fed::Features { requires: harmless, ..fed::ALL });
            let seed = case.rng.u64();
            let fed = Fed::new(&subs, seed);
            let rng = case.rng.clone();
            guard("engine", || {
                block_on(async {
                    let mut rng = rng;
                    let lab = match Lab::new(fed, Options::default()).await {
                        Ok(l) => l,
                        Err(e) => return viol("not-composed", e),
                    };
                    for _ in 0..4 {
                        let style = Style::random(&mut rng);
                        let Some(op) = ops::generate(&lab.fed.api, &mut rng, OpKind::Query, style) else {
                            continue;
                        };
                        let seed = rng.u64();
                        case.input(lab.describe(&op));
                        let mut record = String::new();
                        match ask(&lab, &op, seed, harmless, &mut record).await {
                            Ok(o) => {
                                for f in &o.faults {
                                    case.count(&format!("{f:?}"), 1);
                                }
                                case.count("lost fields", o.lost as u64);
                                case.count("errors", o.errors as u64);
                                case.count("partial answers", (o.lost > 0 && o.kept) as u64);
                                if o.faults.iter().any(|f| *f != Fault::None) {
                                    case.nontrivial(&key(&op));
                                }
                                if o.lost > 0 && o.kept {
                                    case.sample(record);
                                }
                            }
                            Err(v) => {
                                case.append_input(&record);
                                let least = shrink(&lab.fed.api, &op, async |n| {
                                    matches!(ask(&lab, n, seed, harmless, &mut String::new()).await, Err(w) if w.sig == v.sig)
                                })
                                .await;
                                let mut record = String::new();
                                let _ = ask(&lab, &least, seed, harmless, &mut record).await;
                                case.append_input(&format!("\n# smaller\n{}{record}", lab.describe(&least)));
                                return Err(v);
                            }
                        }
                    }
                    Ok(())
                })
            })?
        });
    }
    for f in FAULTS {
        c.require(&format!("{f:?}"), 100);
    }
    c.require("partial answers", 1000);
    c.require("errors", 1000);
    c.finish()
}
