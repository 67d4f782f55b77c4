use gateway_config::{RetryConfig, SubgraphConfig};
use h_engine::{
    fed,
    gql::OpKind,
    lab::*,
    ops::{self, Op, Style},
    rt::Options,
    world::{Fed, ordered},
};
use runtime::fetch::FetchError;
use serde_json::json;
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};
use vcommon::{Check, Rng, Viol, ensure, guard, hash_of, viol};

type Key = (usize, String, String);

fn key_of(s: &Seen) -> Key {
    (s.sub, s.query.clone(), s.variables.to_string())
}

fn counts(log: &[Seen]) -> BTreeMap<Key, usize> {
    let mut c = BTreeMap::new();
    for s in log {
        *c.entry(key_of(s)).or_default() += 1;
    }
    c
}

/// How the tries of a request fail, and how many of them.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Lost,
    Status(u16),
    Errors,
}

impl Fault {
    /// Whether it is worth another try.
    fn passing(self) -> bool {
        match self {
            Fault::Lost => true,
            Fault::Status(s) => s >= 500 || s == 429,
            Fault::Errors => false,
        }
    }
}

fn fault(seed: u64, key: &Key) -> Option<(Fault, usize)> {
    let mut r = Rng::new(hash_of(&(seed, key)));
    if !r.pct(45) {
        return None;
    }
    let f = match r.below(8) {
        0 | 1 => Fault::Lost,
        2 => Fault::Status(500),
        3 => Fault::Status(503),
        4 => Fault::Status(502),
        5 => Fault::Status(429),
        6 => Fault::Status(*r.pick(&[400, 401, 404])),
        _ => Fault::Errors,
    };
    Some((f, if f.passing() { r.range(1, 3) } else { usize::MAX }))
}

/// Whether failed queries and mutations are to be repeated.
fn allowed(all: &RetryConfig, own: &Option<RetryConfig>) -> (bool, bool) {
    let c = own.as_ref().unwrap_or(all);
    (c.enabled, c.enabled && c.retry_mutations)
}

fn settings(r: &mut Rng) -> RetryConfig {
    RetryConfig { enabled: r.bool(), retry_mutations: r.bool(), ..Default::default() }
}

#[derive(Default)]
struct Outcome {
    repeated: u64,
    repeated_mutations: u64,
    not_repeated: u64,
    not_repeated_mutations: u64,
    in_vain: u64,
}

async fn ask(lab: &Lab, op: &Op, rules: &[(bool, bool)], seed: u64, record: &mut String) -> Result<Outcome, Viol> {
    // Without faults: what has to be asked.
    *lab.mock.meddle.lock().unwrap() = None;
    lab.take_log();
    lab.mock.steps.store(0, std::sync::atomic::Ordering::SeqCst);
    let calm = json_of(&lab.ask(op).await)?;
    let usual = counts(&lab.take_log());
    ensure!(calm.get("errors").is_none(), "unexpected-errors", "{}", calm["errors"]);

    let tries: Arc<Mutex<BTreeMap<Key, usize>>> = Default::default();
    let t = tries.clone();
    *lab.mock.meddle.lock().unwrap() = Some(Box::new(move |s, _| {
        let key = key_of(s);
        let (f, n) = fault(seed, &key)?;
        let mut t = t.lock().unwrap();
        let k = t.entry(key).or_insert(0);
        *k += 1;
        (*k <= n).then(|| match f {
            Fault::Lost => Err(FetchError::from("connection reset")),
            Fault::Status(s) => Ok(respond(s, "text/plain", "later".into())),
            Fault::Errors => Ok(respond(200, "application/json", json!({"errors": [{"message": "broken"}], "data": null}).to_string())),
        })
    }));
    let a = lab.ask(op).await;
    let log = lab.take_log();
    record.push_str(&describe_log(&log, &lab.fed.names));
    let got = json_of(&a)?;
    record.push_str(&format!("# answer {}\n{got}\n# without faults\n{calm}\n", a.status));

    let mut out = Outcome::default();
    let mut lost = false;
    let mut mutation_failed = false;
    for (key, n) in counts(&log) {
        let mutation = log.iter().any(|s| key_of(s) == key && s.mutation);
        let planned = fault(seed, &key);
        let repeat = if mutation { rules[key.0].1 } else { rules[key.0].0 };
        let sub = &lab.fed.names[key.0];
        let once = usual.get(&key).copied();
        let Some((f, k)) = planned else {
            if let Some(once) = once {
                ensure!(n <= once, "repeated-without-failure", "{sub} got {} {n} times", key.1);
            }
            continue;
        };
        mutation_failed |= mutation;
        if repeat && f.passing() {
            ensure!(n > k, "not-repeated", "{sub} got {} {n} times, though {k} failed", key.1);
            if let Some(once) = once {
                ensure!(n <= once + k, "repeated-without-failure", "{sub} got {} {n} times, though {k} failed", key.1);
            }
            if mutation { out.repeated_mutations += 1 } else { out.repeated += 1 }
            continue;
        }
        lost = true;
        // Different requests may become the same when something else is lost, so only those that are usual count.
        if let Some(once) = once {
            let sig = match (mutation, f.passing()) {
                (true, true) => "mutation-repeated",
                (false, true) => "query-repeated",
                _ => "answer-repeated",
            };
            ensure!(n <= once, sig, "{sub} got {} {n} times, after {f:?}", key.1);
        }
        if !f.passing() {
            out.in_vain += 1
        } else if mutation {
            out.not_repeated_mutations += 1
        } else {
            out.not_repeated += 1
        }
    }
    if lost {
        ensure!(got.get("errors").is_some(), "silent-failure", "an answer was lost, but there are no errors");
    } else {
        ensure!(got.get("errors").is_none(), "unexpected-errors", "all failures pass, but {}", got["errors"]);
        if !mutation_failed && op.doc.ops[0].kind == OpKind::Query {
            ensure!(ordered(&got["data"]) == ordered(&calm["data"]), "wrong-data", "the data differs");
        }
    }
    Ok(out)
}

fn main() {
    let mut c = Check::new("E09", "failed requests are repeated exactly where this is allowed");
    for (name, quick, thorough) in [("queries", 5000, 120000), ("mutations", 3000, 60000)] {
        c.cases(name, quick, thorough, |case| {
            let subs = fed::generate(&mut case.rng, fed::ALL);
            let seed = case.rng.u64();
            let fed = Fed::new(&subs, seed);
            let kind = if name == "queries" { OpKind::Query } else { OpKind::Mutation };
            if fed.api.root(kind).is_none() {
                return Ok(());
            }
            let r = &mut case.rng;
            let all = settings(r);
            let own: Vec<Option<RetryConfig>> = fed.names.iter().map(|_| r.bool().then(|| settings(r))).collect();
            let mut options = Options::default();
            options.config.gateway.retry = all;
            for (n, o) in fed.names.iter().zip(&own) {
                if o.is_some() || r.bool() {
                    options.config.subgraphs.insert(n.clone(), SubgraphConfig { retry: *o, ..Default::default() });
                }
            }
            let rules: Vec<(bool, bool)> = own.iter().map(|o| allowed(&all, o)).collect();
            let rng = r.clone();
            guard("engine", || {
                block_on(async {
                    let mut rng = rng;
                    let r = &mut rng;
                    let lab = match Lab::new(fed, options).await {
                        Ok(l) => l,
                        Err(e) => return viol("not-composed", e),
                    };
                    for _ in 0..3 {
                        let style = Style::random(r);
                        let Some(op) = ops::generate(&lab.fed.api, r, kind, style) else { continue };
                        let seed = r.u64();
                        case.input(format!("{}# retry {all:?}\n# of subgraphs {own:?}\n", lab.describe(&op)));
                        let mut record = String::new();
                        match ask(&lab, &op, &rules, seed, &mut record).await {
                            Ok(o) => {
                                case.count("repeated queries", o.repeated);
                                case.count("repeated mutations", o.repeated_mutations);
                                case.count("failed queries not to repeat", o.not_repeated);
                                case.count("failed mutations not to repeat", o.not_repeated_mutations);
                                case.count("answers not worth another try", o.in_vain);
                                if o.repeated + o.repeated_mutations > 0 && o.not_repeated + o.not_repeated_mutations > 0 {
                                    case.nontrivial(&(key(&op), seed));
                                    case.sample(record);
                                }
                            }
                            Err(v) => {
                                case.append_input(&record);
                                return Err(v);
                            }
                        }
                    }
                    Ok(())
                })
            })?
        });
    }
    for w in ["repeated queries", "repeated mutations", "failed queries not to repeat", "failed mutations not to repeat", "answers not worth another try"] {
        c.require(w, 300);
    }
    c.finish()
}
