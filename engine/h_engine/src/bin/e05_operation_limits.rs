use h_engine::{
    fed,
    gql::{self, Document, FieldSel, OpKind, Sel},
    lab::*,
    ops::{self, Op, Style},
    rt::Options,
    view::View,
    world::{Fed, ordered},
};
use std::collections::BTreeSet;
use vcommon::{Check, Rng, Viol, ensure, guard, viol};

/// What an operation asks for, fragments being read wherever they are spread.
#[derive(Default, Debug, Clone)]
struct Size {
    depth: usize,
    aliases: usize,
    roots: usize,
    fields: usize,
    distinct: BTreeSet<(String, String)>,
    introspection: bool,
}

fn measure(view: &View, doc: &Document, parent: &str, sels: &[Sel], depth: usize, out: &mut Size) {
    for s in sels {
        match s {
            Sel::Field(f) => {
                out.fields += 1;
                out.roots += (depth == 0) as usize;
                out.aliases += f.alias.is_some() as usize;
                out.depth = out.depth.max(depth + 1);
                if f.name == "__schema" || f.name == "__type" {
                    out.introspection = true;
                    measure(view, doc, "", &f.sels, depth + 1, out);
                    out.distinct.insert((parent.into(), f.name.clone()));
                } else if parent.is_empty() {
                    out.distinct.insert((f.name.clone(), String::new()));
                    measure(view, doc, "", &f.sels, depth + 1, out);
                } else if f.name != "__typename" {
                    out.distinct.insert((parent.into(), f.name.clone()));
                    let base = view.get(parent).unwrap().field(&f.name).unwrap().ty.base();
                    measure(view, doc, base, &f.sels, depth + 1, out);
                }
            }
            Sel::Spread(n, _) => {
                let f = doc.frag(n).unwrap();
                measure(view, doc, &f.on, &f.sels, depth, out)
            }
            Sel::Inline(on, _, inner) => measure(view, doc, on.as_deref().unwrap_or(parent), inner, depth, out),
        }
    }
}

fn size(view: &View, op: &Op) -> Size {
    let mut s = Size::default();
    let o = &op.doc.ops[0];
    measure(view, &op.doc, view.root(o.kind).unwrap(), &o.sels, 0, &mut s);
    s
}

/// A limit near what the operation needs, or none.
fn near(r: &mut Rng, n: usize, share: u32) -> Option<u16> {
    if !r.pct(share) {
        return None;
    }
    Some((n as i64 + r.below(4) as i64 - 2).clamp(1, 60000) as u16)
}

fn introspection(r: &mut Rng, op: &mut Op) {
    let leaf = |name: &str, sels: Vec<Sel>| {
        Sel::Field(FieldSel { alias: None, name: name.into(), args: vec![], dirs: vec![], sels })
    };
    let (name, args, inner) = if r.bool() {
        ("__schema", vec![], leaf("queryType", vec![leaf("name", vec![])]))
    } else {
        ("__type", vec![("name".to_owned(), vgql::Value::Str("Query".into()))], leaf("name", vec![]))
    };
    let alias = r.pct(50).then(|| "own".to_owned());
    let mut s = Sel::Field(FieldSel { alias, name: name.into(), args, dirs: vec![], sels: vec![inner] });
    match r.below(3) {
        0 => s = Sel::Inline(None, vec![], vec![s]),
        1 => {
            op.doc.frags.push(gql::Fragment { name: "Introspection".into(), on: "Query".into(), sels: vec![s] });
            s = Sel::Spread("Introspection".into(), vec![]);
        }
        _ => {}
    }
    let sels = &mut op.doc.ops[0].sels;
    let i = r.below(sels.len() + 1);
    sels.insert(i, s);
}

async fn ask(lab: &Lab, op: &Op, over: &[String], record: &mut String) -> Result<(), Viol> {
    lab.take_log();
    let a = lab.ask(op).await;
    let log = lab.take_log();
    record.push_str(&describe_log(&log, &lab.fed.names));
    let got = json_of(&a)?;
    record.push_str(&format!("# answer {}\n{got}\n", a.status));
    if over.is_empty() {
        ensure!(got.get("errors").is_none(), "refused-within-limits", "{}", got["errors"]);
        if !record.contains("# introspection") {
            ensure!(
                ordered(&got["data"]) == ordered(&lab.expected(op, None)),
                "wrong-data",
                "the data differs"
            );
        }
    } else {
        ensure!(
            got["errors"].as_array().is_some_and(|e| !e.is_empty()),
            "accepted-over-limits",
            "answered although {}",
            over.join(", ")
        );
        ensure!(log.is_empty(), "over-limits-sent", "requests were sent although {}", over.join(", "));
        ensure!(got["data"].is_null(), "data-over-limits", "there is data although {}", over.join(", "));
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("E05", "operations over the configured limits are refused, all others are answered");
    c.cases("limits", 8000, 200000, |case| {
        let subs = fed::generate(&mut case.rng, fed::ALL);
        let seed = case.rng.u64();
        let fed = Fed::new(&subs, seed);
        let subs: String = subs.iter().map(|(n, s)| format!("# subgraph {n}\n{s}\n")).collect();
        case.input(subs);
        let r = &mut case.rng;
        let mut all = vec![];
        for _ in 0..5 {
            let style = Style::random(r);
            if let Some(op) = ops::generate(&fed.api, r, OpKind::Query, style) {
                all.push(op);
            }
        }
        if all.is_empty() {
            return Ok(());
        }
        let first = size(&fed.api, &all[0]);
        let share = *r.pick(&[25, 50, 100]);
        let limits = gateway_config::OperationLimitsConfig {
            depth: near(r, first.depth, share),
            height: near(r, first.distinct.len(), share),
            aliases: near(r, first.aliases, share),
            root_fields: near(r, first.roots, share),
            complexity: near(r, first.fields, share),
        };
        let may_introspect = r.bool();
        let mut options = Options::default();
        options.config.operation_limits = Some(limits);
        options.config.graph.introspection = if may_introspect { Some(true) } else { *r.pick(&[None, Some(false)]) };
        for op in &mut all {
            if r.pct(20) {
                introspection(r, op);
            }
        }
        guard("engine", || {
            block_on(async {
                let lab = match Lab::new(fed, options).await {
                    Ok(l) => l,
                    Err(e) => return viol("not-composed", e),
                };
                for op in &all {
                    let s = size(&lab.fed.api, op);
                    let mut over = vec![];
                    for (what, is, limit) in [
                        ("depth", s.depth, limits.depth),
                        ("height", s.distinct.len(), limits.height),
                        ("aliases", s.aliases, limits.aliases),
                        ("root fields", s.roots, limits.root_fields),
                        ("complexity", s.fields, limits.complexity),
                    ] {
                        if let Some(l) = limit {
                            if is > l as usize {
                                over.push(format!("{what} {is} > {l}"));
                                case.count(&format!("over {what}"), 1);
                            } else if is == l as usize {
                                case.count(&format!("exactly {what}"), 1);
                            }
                        }
                    }
                    if s.introspection && !may_introspect {
                        over.push("introspection is off".into());
                        case.count("introspection refused", 1);
                    }
                    case.count(if over.is_empty() { "within" } else { "over" }, 1);
                    case.input(format!("{}# {limits:?}\n# introspection: {may_introspect}\n# {over:?}\n", lab.describe(op)));
                    let mut record = String::new();
                    if s.introspection {
                        record.push_str("# introspection\n");
                    }
                    case.nontrivial(&(key(op), format!("{limits:?}")));
                    if let Err(v) = ask(&lab, op, &over, &mut record).await {
                        case.append_input(&record);
                        return Err(v);
                    }
                    case.sample(format!("{}\n{limits:?} {over:?}\n{record}", gql::print(&op.doc)));
                }
                Ok(())
            })
        })?
    });
    for w in ["depth", "height", "aliases", "root fields", "complexity"] {
        c.require(&format!("over {w}"), 100);
        c.require(&format!("exactly {w}"), 100);
    }
    c.require("introspection refused", 100);
    c.finish()
}
