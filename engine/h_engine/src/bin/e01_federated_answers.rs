use h_engine::{
    fed,
    gql::{self, OpKind},
    lab::*,
    ops::{self, Op, Style},
    rt::Options,
    shrink::shrink,
    world::{Fed, ordered},
};
use vcommon::{Check, Viol, ensure, guard, viol};

/// The number of requests, and whether entities were fetched.
async fn ask(lab: &Lab, op: &Op, record: &mut String) -> Result<(usize, bool), Viol> {
    let want = lab.expected(op, None);
    let a = lab.ask(op).await;
    let log = lab.take_log();
    record.push_str(&describe_log(&log, &lab.fed.names));
    let got = json_of(&a)?;
    record.push_str(&format!(
        "# answer {}\n{got}\n# expected\n{want}\n",
        a.status
    ));
    for s in &log {
        if let Some((sig, msg)) = s.problems.first() {
            return viol(sig.clone(), format!("{}: {msg}", lab.fed.names[s.sub]));
        }
    }
    ensure!(
        got.get("errors").is_none(),
        "unexpected-errors",
        "{}",
        got["errors"]
    );
    ensure!(
        ordered(&got["data"]) == ordered(&want),
        "wrong-data",
        "the data differs"
    );
    Ok((log.len(), log.iter().any(|s| s.entities)))
}

fn main() {
    let mut c = Check::new(
        "E01",
        "the gateway answers a query as one server with all the data would",
    );
    c.cases("queries", 12000, 300000, |case| {
        let subs = fed::generate(&mut case.rng, fed::ALL);
        let seed = case.rng.u64();
        let fed = Fed::new(&subs, seed);
        let mut text = String::new();
        for (n, s) in &subs {
            text.push_str(&format!("# subgraph {n}\n{s}\n"));
        }
        case.input(text);
        let rng = case.rng.clone();
        guard("engine", || {
            block_on(async {
                let mut rng = rng;
                let lab = match Lab::new(fed, Options::default()).await {
                    Ok(l) => l,
                    Err(e) => return viol("not-composed", e),
                };
                for _ in 0..4 {
                    let style = Style::random(&mut rng);
                    let Some(op) = ops::generate(&lab.fed.api, &mut rng, OpKind::Query, style) else {
                        case.count("no operation", 1);
                        continue;
                    };
                    case.input(lab.describe(&op));
                    if gql::print(&op.doc).contains("k0: $") {
                        case.count("variables inside of custom scalars", 1);
                    }
                    let mut record = String::new();
                    match ask(&lab, &op, &mut record).await {
                        Ok((requests, entities)) => {
                            case.count("requests", requests as u64);
                            if entities {
                                case.count("with entities", 1);
                                case.sample(record);
                                case.nontrivial(&key(&op));
                            }
                        }
                        Err(v) => {
                            case.append_input(&record);
                            let least = shrink(&lab.fed.api, &op, async |n| {
                                matches!(ask(&lab, n, &mut String::new()).await, Err(w) if w.sig == v.sig)
                            })
                            .await;
                            let mut record = String::new();
                            let _ = ask(&lab, &least, &mut record).await;
                            case.append_input(&format!("\n# smaller\n{}{record}", lab.describe(&least)));
                            return Err(v);
                        }
                    }
                }
                Ok(())
            })
        })?
    });
    c.require("requests", 1000);
    c.require("with entities", 1000);
    c.finish()
}
