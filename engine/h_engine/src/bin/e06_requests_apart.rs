use bytes::Bytes;
use h_engine::{
    fed,
    gql::{self, Document, OpKind, Sel},
    lab::*,
    ops::{self, Op, Style},
    rt::{Answer, Options},
    world::{Fed, ordered},
};
use serde_json::{Map, Value as J, json};
use std::sync::atomic::Ordering;
use vcommon::{Check, Rng, Viol, ensure, guard, viol};

/// Operations that are sent in one document, told apart by their names.
struct Sheet {
    text: String,
    ops: Vec<Op>,
    names: Vec<String>,
}

fn rename(sels: &mut [Sel], prefix: &str) {
    for s in sels {
        match s {
            Sel::Field(f) => rename(&mut f.sels, prefix),
            Sel::Inline(_, _, inner) => rename(inner, prefix),
            Sel::Spread(n, _) => *n = format!("{prefix}{n}"),
        }
    }
}

fn sheet(mut ops: Vec<Op>) -> Sheet {
    let mut all = Document::default();
    let mut names = vec![];
    for (i, op) in ops.iter_mut().enumerate() {
        let name = format!("Part{i}");
        op.doc.ops[0].name = Some(name.clone());
        let mut doc = op.doc.clone();
        rename(&mut doc.ops[0].sels, &name);
        for f in &mut doc.frags {
            f.name = format!("{name}{}", f.name);
            rename(&mut f.sels, &name);
        }
        names.push(name);
        all.ops.append(&mut doc.ops);
        all.frags.append(&mut doc.frags);
    }
    Sheet { text: gql::print(&all), ops, names }
}

#[derive(Clone)]
struct Ask {
    text: String,
    name: Option<String>,
    vars: Map<String, J>,
    op: Op,
}

impl Ask {
    fn body(&self) -> J {
        let mut b = json!({"query": self.text, "variables": self.vars});
        if let Some(n) = &self.name {
            b["operationName"] = json!(n);
        }
        b
    }

    fn uri(&self) -> String {
        let mut s = format!(
            "http://gateway/graphql?query={}&variables={}",
            escape(&self.text),
            escape(&J::Object(self.vars.clone()).to_string())
        );
        if let Some(n) = &self.name {
            s.push_str(&format!("&operationName={n}"));
        }
        s
    }
}

fn escape(s: &str) -> String {
    s.bytes()
        .map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") })
        .collect()
}

async fn get(lab: &Lab, a: &Ask) -> Answer {
    let r = http::Request::builder().method("GET").uri(a.uri()).header("accept", "application/json");
    lab.gateway.send(r.body(Bytes::new()).unwrap()).await
}

/// Some requests for the operations of a sheet, with various values for their variables.
fn asks(lab: &Lab, r: &mut Rng, sheets: &[Sheet], n: usize) -> Vec<Ask> {
    (0..n)
        .map(|_| {
            let s = r.pick(sheets);
            let i = r.below(s.ops.len());
            let op = &s.ops[i];
            let mut op = op.clone();
            if r.pct(70) {
                op.vars = ops::other_values(&lab.fed.api, r, &op);
            }
            let name = (s.ops.len() > 1 || r.bool()).then(|| s.names[i].clone());
            Ask { text: s.text.clone(), name, vars: op.vars.clone(), op }
        })
        .collect()
}

fn answer_is(lab: &Lab, a: &Ask, got: &J, how: &str, record: &mut String) -> Result<(), Viol> {
    let want = lab.expected(&a.op, None);
    record.push_str(&format!("# {how} {:?} {}\n# got\n{got}\n# expected\n{want}\n", a.name, J::Object(a.vars.clone())));
    ensure!(got.get("errors").is_none(), format!("unexpected-errors:{how}"), "{}", got["errors"]);
    ensure!(ordered(&got["data"]) == ordered(&want), format!("wrong-data:{how}"), "the data differs ({how})");
    Ok(())
}

fn subgraphs_are_fine(lab: &Lab, record: &mut String) -> Result<usize, Viol> {
    let log = lab.take_log();
    record.push_str(&describe_log(&log, &lab.fed.names));
    for s in &log {
        if let Some((sig, msg)) = s.problems.first() {
            return viol(sig.clone(), format!("{}: {msg}", lab.fed.names[s.sub]));
        }
    }
    Ok(log.len())
}

fn main() {
    let mut c = Check::new("E06", "requests do not influence each other, however they are sent");
    c.cases("requests", 5000, 120000, |case| {
        let subs = fed::generate(&mut case.rng, fed::ALL);
        let seed = case.rng.u64();
        let fed = Fed::new(&subs, seed);
        let subs: String = subs.iter().map(|(n, s)| format!("# subgraph {n}\n{s}\n")).collect();
        case.input(subs.clone());
        let rng = case.rng.clone();
        guard("engine", || {
            block_on(async {
                let mut rng = rng;
                let r = &mut rng;
                let mut options = Options { no_operation_cache: r.pct(25), ..Default::default() };
                let batching = r.pct(75);
                let limit = if r.bool() { Some(r.range(1, 6) as u8) } else { None };
                options.config.gateway.batching.enabled = batching;
                options.config.gateway.batching.limit = limit;
                let lab = match Lab::new(fed, options).await {
                    Ok(l) => l,
                    Err(e) => return viol("not-composed", e),
                };
                *lab.mock.delays.lock().unwrap() = Some(r.clone());
                let mut sheets = vec![];
                for _ in 0..3 {
                    let parts = if r.bool() { 1 } else { r.range(2, 4) };
                    let mut all = vec![];
                    for _ in 0..parts {
                        let mut style = Style::random(r);
                        style.variables = true;
                        all.extend(ops::generate(&lab.fed.api, r, OpKind::Query, style));
                    }
                    if !all.is_empty() {
                        sheets.push(sheet(all));
                    }
                }
                if sheets.is_empty() {
                    return Ok(());
                }
                let style = Style::random(r);
                let mutation = ops::generate(&lab.fed.api, r, OpKind::Mutation, style).map(|op| sheet(vec![op]));
                let all: Vec<String> = sheets.iter().map(|s| s.text.clone()).collect();
                case.input(format!("{subs}\n# batching {batching} {limit:?}\n{}\n", all.join("\n")));
                let mut record = String::new();
                for _ in 0..4 {
                    let v = step(&lab, r, &sheets, mutation.as_ref(), batching, limit, &mut record, case).await;
                    if let Err(v) = v {
                        case.append_input(&record);
                        return Err(v);
                    }
                    case.nontrivial(&record);
                    if record.len() > 20000 {
                        record.clear();
                    }
                }
                case.count("from the cache", lab.gateway.operations.hits.load(Ordering::SeqCst) as u64);
                case.sample(record);
                Ok(())
            })
        })?
    });
    for w in ["concurrent", "get", "batch", "batch refused", "mutation by GET", "from the cache"] {
        c.require(w, 200);
    }
    c.finish()
}

#[allow(clippy::too_many_arguments)]
async fn step(
    lab: &Lab,
    r: &mut Rng,
    sheets: &[Sheet],
    mutation: Option<&Sheet>,
    batching: bool,
    limit: Option<u8>,
    record: &mut String,
    case: &mut vcommon::Case,
) -> Result<(), Viol> {
    match r.below(if mutation.is_some() { 5 } else { 4 }) {
        0 | 1 => {
            let n = r.range(2, 8);
            let all = asks(lab, r, sheets, n);
            case.count("concurrent", all.len() as u64);
            let bodies: Vec<J> = all.iter().map(|a| a.body()).collect();
            let answers = futures::future::join_all(bodies.into_iter().map(|b| lab.gateway.post(b, &[]))).await;
            subgraphs_are_fine(lab, record)?;
            for (a, got) in all.iter().zip(&answers) {
                answer_is(lab, a, &json_of(got)?, "concurrent", record)?;
            }
        }
        2 => {
            let a = &asks(lab, r, sheets, 1)[0];
            case.count("get", 1);
            let got = get(lab, a).await;
            subgraphs_are_fine(lab, record)?;
            answer_is(lab, a, &json_of(&got)?, "get", record)?;
        }
        3 => {
            let n = r.range(1, 7);
            let all = asks(lab, r, sheets, n);
            let body = J::Array(all.iter().map(|a| a.body()).collect());
            let got = json_of(&lab.gateway.post(body, &[]).await)?;
            let requests = subgraphs_are_fine(lab, record)?;
            if !batching || limit.is_some_and(|l| n > l as usize) {
                case.count("batch refused", 1);
                record.push_str(&format!("# batch of {n}\n{got}\n"));
                ensure!(requests == 0, "refused-batch-sent", "requests were sent for a refused batch of {n}");
                ensure!(got["errors"].is_array() && got["data"].is_null(), "batch-accepted", "a batch of {n} was accepted");
            } else {
                case.count("batch", 1);
                let Some(got) = got.as_array() else { return viol("batch-answer", got.to_string()) };
                ensure!(got.len() == n, "batch-length", "{} answers for {n} requests", got.len());
                for (a, got) in all.iter().zip(got) {
                    answer_is(lab, a, got, "batch", record)?;
                }
            }
        }
        _ => {
            let s = mutation.unwrap();
            let op = s.ops[0].clone();
            let a = Ask { text: s.text.clone(), name: None, vars: op.vars.clone(), op };
            if r.bool() {
                // The operation is known to the gateway from here on.
                lab.gateway.post(a.body(), &[]).await;
            }
            lab.take_log();
            let before = lab.mock.steps.load(Ordering::SeqCst);
            case.count("mutation by GET", 1);
            let got = get(lab, &a).await;
            let requests = lab.take_log().len();
            record.push_str(&format!("# GET {}\n# {} {}\n", a.text, got.status, String::from_utf8_lossy(&got.body)));
            ensure!(
                requests == 0 && lab.mock.steps.load(Ordering::SeqCst) == before,
                "mutation-by-get",
                "a mutation was executed for a GET request"
            );
            ensure!(got.status == 405, "mutation-by-get-status", "status {}", got.status);
        }
    }
    Ok(())
}
