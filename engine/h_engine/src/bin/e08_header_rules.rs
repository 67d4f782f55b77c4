use h_engine::{
    fed,
    gql::OpKind,
    lab::*,
    ops::{self, Style},
    rt::Options,
    world::{Fed, ordered},
};
use serde_json::{Value as J, json};
use std::collections::BTreeSet;
use vcommon::{Check, Rng, Viol, ensure, guard, viol};

#[derive(Clone, Debug)]
enum Which {
    Name(String),
    /// Every name that starts with this.
    Start(String),
    /// Every name.
    Any,
}

impl Which {
    fn is(&self, name: &str) -> bool {
        match self {
            Which::Name(n) => n.eq_ignore_ascii_case(name),
            Which::Start(s) => name.starts_with(&s.to_ascii_lowercase()),
            Which::Any => true,
        }
    }

    fn json(&self, to: &mut J) {
        match self {
            Which::Name(n) => to["name"] = json!(n),
            Which::Start(s) => to["pattern"] = json!(format!("^{s}")),
            Which::Any => to["pattern"] = json!(".*"),
        }
    }
}

#[derive(Clone, Debug)]
enum Rule {
    Forward { which: Which, default: Option<String>, rename: Option<String> },
    Insert { name: String, value: String },
    Remove { which: Which },
    Duplicate { name: String, default: Option<String>, rename: String },
}

impl Rule {
    fn json(&self) -> J {
        let mut j = json!({});
        match self {
            Rule::Forward { which, default, rename } => {
                j["rule"] = json!("forward");
                which.json(&mut j);
                if let Some(d) = default {
                    j["default"] = json!(d);
                }
                if let Some(r) = rename {
                    j["rename"] = json!(r);
                }
            }
            Rule::Insert { name, value } => j = json!({"rule": "insert", "name": name, "value": value}),
            Rule::Remove { which } => {
                j["rule"] = json!("remove");
                which.json(&mut j);
            }
            Rule::Duplicate { name, default, rename } => {
                j = json!({"rule": "rename_duplicate", "name": name, "rename": rename});
                if let Some(d) = default {
                    j["default"] = json!(d);
                }
            }
        }
        j
    }
}

/// These are between two neighbours, or the gateway's own business.
const DENIED: [&str; 21] = [
    "accept",
    "accept-charset",
    "accept-encoding",
    "accept-ranges",
    "content-length",
    "content-type",
    "connection",
    "keep-alive",
    "proxy-authenticate",
    "proxy-authorization",
    "te",
    "trailer",
    "transfer-encoding",
    "upgrade",
    "origin",
    "host",
    "sec-websocket-version",
    "sec-websocket-key",
    "sec-websocket-accept",
    "sec-websocket-protocol",
    "sec-websocket-extensions",
];

/// Set by the gateway for every request.
const OWN: [&str; 4] = ["accept", "content-length", "content-type", "connection"];

type Headers = BTreeSet<(String, String)>;

fn denied(name: &str) -> bool {
    DENIED.contains(&name)
}

fn apply(rules: &[Rule], client: &[(String, String)], out: &mut Headers) {
    for r in rules {
        match r {
            Rule::Forward { which: Which::Name(n), default, rename } => {
                let n = n.to_ascii_lowercase();
                out.retain(|(k, _)| *k != n);
                let to = rename.as_ref().unwrap_or(&n).to_ascii_lowercase();
                if denied(&to) {
                    continue;
                }
                let found: Vec<&String> = client.iter().filter(|(k, _)| *k == n).map(|(_, v)| v).collect();
                match default {
                    Some(d) if found.is_empty() => {
                        out.retain(|(k, _)| *k != to);
                        out.insert((to, d.clone()));
                    }
                    _ => out.extend(found.into_iter().map(|v| (to.clone(), v.clone()))),
                }
            }
            Rule::Forward { which, rename, .. } => {
                for (k, v) in client.iter().filter(|(k, _)| which.is(k) && !denied(k)) {
                    let to = rename.as_ref().unwrap_or(k).to_ascii_lowercase();
                    if !denied(&to) {
                        out.insert((to, v.clone()));
                    }
                }
            }
            Rule::Insert { name, value } => {
                if !denied(&name.to_ascii_lowercase()) {
                    out.insert((name.to_ascii_lowercase(), value.clone()));
                }
            }
            Rule::Remove { which } => out.retain(|(k, _)| !which.is(k)),
            Rule::Duplicate { name, default, rename } => {
                let (n, to) = (name.to_ascii_lowercase(), rename.to_ascii_lowercase());
                if denied(&to) {
                    continue;
                }
                if let Some(v) = client.iter().find(|(k, _)| *k == n).map(|(_, v)| v).or(default.as_ref()) {
                    if !denied(&n) {
                        out.insert((n, v.clone()));
                    }
                    out.insert((to, v.clone()));
                }
            }
        }
    }
}

const PLAIN: [&str; 8] =
    ["x-a", "x-b", "x-b2", "authorization", "cookie", "x-tenant", "user-agent", "forwarded"];

fn name(r: &mut Rng) -> String {
    let n = if r.pct(25) { *r.pick(&DENIED) } else { *r.pick(&PLAIN) };
    if r.pct(20) { n.to_ascii_uppercase() } else { n.to_owned() }
}

fn rule(r: &mut Rng, n: usize) -> Rule {
    let which = |r: &mut Rng| match r.below(4) {
        0 => Which::Start(r.str(&["x-", "X-B", "author", "h", "con", "proxy", "t"]).to_owned()),
        1 if r.pct(40) => Which::Any,
        _ => Which::Name(name(r)),
    };
    let default = r.pct(30).then(|| format!("default{n}"));
    match r.below(8) {
        0..=3 => {
            let rename = r.pct(30).then(|| name(r));
            Rule::Forward { which: which(r), default, rename }
        }
        4 => Rule::Insert { name: name(r), value: format!("inserted{n}") },
        5 | 6 => Rule::Remove { which: which(r) },
        _ => Rule::Duplicate { name: name(r), default, rename: name(r) },
    }
}

fn main() {
    let mut c = Check::new("E08", "subgraphs get the headers their rules grant, and no others");
    c.cases("headers", 8000, 200000, |case| {
        let subs = fed::generate(&mut case.rng, fed::ALL);
        let seed = case.rng.u64();
        let fed = Fed::new(&subs, seed);
        let r = &mut case.rng;
        let mut n = 0;
        let mut rules = |r: &mut Rng, most: usize| -> Vec<Rule> {
            (0..r.below(most + 1))
                .map(|_| {
                    n += 1;
                    rule(r, n)
                })
                .collect()
        };
        let all = rules(r, 5);
        let each: Vec<Vec<Rule>> = fed.names.iter().map(|_| rules(r, 4)).collect();
        let mut options = Options::default();
        let parse = |rules: &[Rule]| -> Vec<gateway_config::HeaderRule> {
            let j: J = rules.iter().map(|r| r.json()).collect();
            serde_json::from_value(j).unwrap_or_else(|e| vcommon::harness_bug!("header rules: {e}"))
        };
        options.config.headers = parse(&all);
        for (n, rules) in fed.names.iter().zip(&each) {
            options.config.subgraphs.insert(
                n.clone(),
                gateway_config::SubgraphConfig { headers: parse(rules), ..Default::default() },
            );
        }
        let rng = r.clone();
        guard("engine", || {
            block_on(async {
                let mut rng = rng;
                let r = &mut rng;
                let lab = match Lab::new(fed, options).await {
                    Ok(l) => l,
                    Err(e) => return viol("not-composed", e),
                };
                let mut asks = vec![];
                for i in 0..3 {
                    let style = Style::random(r);
                    let Some(op) = ops::generate(&lab.fed.api, r, OpKind::Query, style) else { continue };
                    let mut client: Vec<(String, String)> = vec![];
                    for k in 0..r.below(8) {
                        let n = name(r).to_ascii_lowercase();
                        if !["accept", "content-type"].contains(&n.as_str()) {
                            client.push((n, format!("client{i}-{k}")));
                        }
                    }
                    asks.push((op, client));
                }
                for (op, client) in &asks {
                    case.input(format!(
                        "{}# rules {all:?}\n# rules of subgraphs {each:?}\n# client {client:?}\n",
                        lab.describe(op)
                    ));
                    lab.take_log();
                    let headers: Vec<(&str, &str)> = client.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
                    let body = json!({"query": h_engine::gql::print(&op.doc), "variables": op.vars});
                    let got = json_of(&lab.gateway.post(body, &headers).await)?;
                    ensure!(
                        got.get("errors").is_none() && ordered(&got["data"]) == ordered(&lab.expected(op, None)),
                        "wrong-answer",
                        "{got}"
                    );
                    let mut client = client.clone();
                    client.push(("accept".into(), "application/json".into()));
                    client.push(("content-type".into(), "application/json".into()));
                    for s in lab.take_log() {
                        let mut want = Headers::new();
                        apply(&all, &client, &mut want);
                        apply(&each[s.sub], &client, &mut want);
                        want.retain(|(k, _)| !OWN.contains(&k.as_str()));
                        let mut have = Headers::new();
                        for (k, v) in &s.headers {
                            let v = v.to_str().unwrap_or("?").to_owned();
                            if OWN.contains(&k.as_str()) {
                                ensure!(
                                    !["client", "default", "inserted"].iter().any(|p| v.starts_with(p)),
                                    "own-header",
                                    "{k}: {v}"
                                );
                                continue;
                            }
                            have.insert((k.to_string(), v));
                        }
                        case.count("requests", 1);
                        case.count("headers", want.len() as u64);
                        if !want.is_empty() {
                            case.nontrivial(&(format!("{all:?}"), format!("{client:?}"), s.sub));
                        }
                        let sub = &lab.fed.names[s.sub];
                        if let Some((k, v)) = have.difference(&want).next() {
                            case.append_input(&format!("# {sub} got {have:?}\n# and should have got {want:?}\n"));
                            let sig = if denied(k) { "denied-header-sent" } else { "header-sent" };
                            return Err(Viol { sig: sig.into(), msg: format!("{sub} got {k}: {v}") });
                        }
                        if let Some((k, v)) = want.difference(&have).next() {
                            case.append_input(&format!("# {sub} got {have:?}\n# and should have got {want:?}\n"));
                            return viol("header-missing", format!("{sub} did not get {k}: {v}"));
                        }
                    }
                    case.sample(format!("{client:?}\n{all:?}\n{each:?}"));
                }
                Ok(())
            })
        })?
    });
    c.require("requests", 1000);
    c.require("headers", 1000);
    c.finish()
}
