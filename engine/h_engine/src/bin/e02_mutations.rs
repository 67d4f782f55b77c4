use h_engine::{
    fed,
    gql::OpKind,
    lab::*,
    ops::{self, Op, Style},
    rt::Options,
    shrink::shrink,
    world::{Fed, ordered},
};
use runtime::fetch::FetchError;
use serde_json::json;
use std::sync::{
    Mutex,
    atomic::{AtomicU64, Ordering},
};
use vcommon::{Check, Rng, Viol, ensure, guard, hash_of, viol};

#[derive(Default)]
struct Outcome {
    executed: usize,
    lost: usize,
    switches: usize,
    entities: bool,
}

/// With `loss`, some answers to mutations never arrive, though they were executed.
async fn ask(
    lab: &Lab,
    op: &Op,
    seed: u64,
    loss: bool,
    record: &mut String,
) -> Result<Outcome, Viol> {
    let counter = AtomicU64::new(0);
    let order = Mutex::new(vec![]);
    let want = lab.expected(
        op,
        Some(&|name, _| {
            order.lock().unwrap().push(name.to_owned());
            counter.fetch_add(1, Ordering::SeqCst)
        }),
    );
    let order = order.into_inner().unwrap();
    lab.mock.steps.store(0, Ordering::SeqCst);
    lab.mock.mutated.lock().unwrap().clear();
    *lab.mock.delays.lock().unwrap() = Some(Rng::new(seed));
    let lose =
        move |s: &Seen| loss && s.mutation && Rng::new(hash_of(&(seed, s.sub, &s.query))).pct(30);
    *lab.mock.meddle.lock().unwrap() = Some(Box::new(move |s, _| {
        lose(s).then(|| match seed % 3 {
            0 => Err(FetchError::from("connection reset")),
            1 => Ok(respond(503, "text/plain", "later".into())),
            _ => Ok(respond(
                200,
                "application/json",
                json!({"errors": [{"message": "broken"}]}).to_string(),
            )),
        })
    }));
    let a = lab.ask(op).await;
    let log = lab.take_log();
    record.push_str(&describe_log(&log, &lab.fed.names));
    let got = json_of(&a)?;
    record.push_str(&format!(
        "# answer {}\n{got}\n# expected\n{want}\n",
        a.status
    ));
    for s in &log {
        if let Some((sig, msg)) = s.problems.first() {
            return viol(sig.clone(), format!("{}: {msg}", lab.fed.names[s.sub]));
        }
        ensure!(
            s.mutation == s.query.trim_start().starts_with("mutation"),
            "mutation-flag",
            "{} is sent with is_mutation: {}",
            s.query,
            s.mutation
        );
    }
    let mutated = lab.mock.mutated.lock().unwrap().clone();
    record.push_str(&format!("# executed {mutated:?}\n# expected {order:?}\n"));
    let lost = log.iter().filter(|s| lose(s)).count();
    let out = Outcome {
        executed: mutated.len(),
        lost,
        switches: log.windows(2).filter(|w| w[0].sub != w[1].sub).count(),
        entities: log.iter().any(|s| s.entities),
    };
    if lost > 0 {
        // What a null above makes pointless may be left out, but nothing is done twice or earlier.
        let mut rest = order.iter();
        ensure!(
            mutated.iter().all(|m| rest.any(|o| o == m)),
            "execution",
            "{mutated:?} were executed instead of {order:?}, or a part of it"
        );
        ensure!(
            got.get("errors").is_some(),
            "silent-failure",
            "an answer was lost, but there are no errors"
        );
        return Ok(out);
    }
    ensure!(
        mutated == order,
        "execution",
        "{mutated:?} were executed instead of {order:?}"
    );
    ensure!(
        got.get("errors").is_none(),
        "unexpected-errors",
        "{}",
        got["errors"]
    );
    ensure!(
        ordered(&got["data"]) == ordered(&want),
        "wrong-data",
        "the data differs"
    );
    Ok(out)
}

fn main() {
    let mut c = Check::new("E02", "mutations are executed once, one after the other");
    for (name, quick, thorough) in [("mutations", 16000, 300000), ("lost", 8000, 150000)] {
        c.cases(name, quick, thorough, |case| {
            let subs = fed::generate(&mut case.rng, fed::ALL);
            let seed = case.rng.u64();
            let fed = Fed::new(&subs, seed);
            if fed.api.root(OpKind::Mutation).is_none() {
                return Ok(());
            }
            let rng = case.rng.clone();
            guard("engine", || {
                block_on(async {
                    let mut rng = rng;
                    let lab = match Lab::new(fed, Options::default()).await {
                        Ok(l) => l,
                        Err(e) => return viol("not-composed", e),
                    };
                    for _ in 0..4 {
                        let style = Style { width: rng.range(2, 6), ..Style::random(&mut rng) };
                        let Some(op) = ops::generate(&lab.fed.api, &mut rng, OpKind::Mutation, style) else {
                            continue;
                        };
                        let seed = rng.u64();
                        let loss = name == "lost";
                        case.input(lab.describe(&op));
                        let mut record = String::new();
                        match ask(&lab, &op, seed, loss, &mut record).await {
                            Ok(o) => {
                                case.count("executed", o.executed as u64);
                                case.count("lost answers", o.lost as u64);
                                case.count("with entities", o.entities as u64);
                                if o.executed > 1 && o.switches > 0 {
                                    case.count("over several subgraphs", 1);
                                    case.nontrivial(&key(&op));
                                    case.sample(record);
                                }
                            }
                            Err(v) => {
                                case.append_input(&record);
                                let least = shrink(&lab.fed.api, &op, async |n| {
                                    matches!(ask(&lab, n, seed, loss, &mut String::new()).await, Err(w) if w.sig == v.sig)
                                })
                                .await;
                                let mut record = String::new();
                                let _ = ask(&lab, &least, seed, loss, &mut record).await;
                                case.append_input(&format!("\n# smaller\n{}{record}", lab.describe(&least)));
                                return Err(v);
                            }
                        }
                    }
                    Ok(())
                })
            })?
        });
    }
    c.require("executed", 10000);
    c.require("over several subgraphs", 1000);
    c.require("lost answers", 500);
    c.finish()
}
