use h_engine::{
    fed,
    gql::{self, Document, FieldSel, OpKind, Sel, VarDef},
    lab::*,
    ops::{self, Op, Style},
    rt::Options,
    view::{self, View},
    world::Fed,
};
use serde_json::{Value as J, json};
use vcommon::{Check, Rng, Viol, ensure, guard, viol};
use vgql::{Dir, Ty, Value, lex::lex};

type Sets<'a> = &'a mut dyn FnMut(&str, &mut Vec<Sel>);

fn walk(view: &View, parent: &str, sels: &mut Vec<Sel>, f: Sets) {
    f(parent, sels);
    for s in sels {
        match s {
            Sel::Field(x) => {
                if let Some(d) = view.get(parent).and_then(|t| t.field(&x.name)) {
                    let base = d.ty.base().to_owned();
                    if view.composite(&base) {
                        walk(view, &base, &mut x.sels, f);
                    }
                }
            }
            Sel::Inline(on, _, inner) => walk(view, &on.clone().unwrap_or(parent.to_owned()), inner, f),
            Sel::Spread(..) => {}
        }
    }
}

fn all_sets(view: &View, doc: &mut Document, f: Sets) {
    let root = view.root(doc.ops[0].kind).unwrap().to_owned();
    walk(view, &root, &mut doc.ops[0].sels, f);
    for frag in &mut doc.frags {
        walk(view, &frag.on.clone(), &mut frag.sels, f);
    }
}

/// Lets `f` edit one of the selection sets.
fn one_set(view: &View, doc: &mut Document, r: &mut Rng, f: impl FnOnce(&mut Rng, &str, &mut Vec<Sel>)) {
    let mut n = 0;
    all_sets(view, doc, &mut |_, _| n += 1);
    let at = r.below(n);
    let (mut i, mut f) = (0, Some(f));
    all_sets(view, doc, &mut |parent, sels| {
        if i == at
            && let Some(f) = f.take()
        {
            f(r, parent, sels)
        }
        i += 1;
    });
}

/// Lets `f` edit one of the fields for which `ok` holds.
fn one_field(
    view: &View,
    doc: &mut Document,
    r: &mut Rng,
    ok: impl Fn(&str, &FieldSel) -> bool,
    f: impl FnOnce(&mut Rng, &str, &mut FieldSel),
) -> bool {
    let mut n = 0;
    all_sets(view, doc, &mut |p, sels| n += sels.iter().filter(|s| matches!(s, Sel::Field(x) if ok(p, x))).count());
    if n == 0 {
        return false;
    }
    let at = r.below(n);
    let (mut i, mut f) = (0, Some(f));
    all_sets(view, doc, &mut |p, sels| {
        for s in sels {
            if let Sel::Field(x) = s
                && ok(p, x)
            {
                if i == at
                    && let Some(f) = f.take()
                {
                    f(r, p, x);
                }
                i += 1;
            }
        }
    });
    true
}

fn literal(view: &View, r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 9 } else { 12 }) {
        0 => Value::Null,
        1 => Value::Int(r.pick(&["0", "7", "-1", "2147483647", "2147483648", "-2147483649", "99999999999"]).to_string()),
        2 => Value::Float(r.pick(&["0.5", "-1e-3", "1e300"]).to_string()),
        3 => Value::Str(r.pick(&["", "a", "true", "1", "RED"]).to_string()),
        4 | 5 => Value::Bool(r.bool()),
        6 => Value::Enum("NOWHERE".into()),
        7 | 8 => {
            let all: Vec<&String> = view.types.values().flat_map(|t| &t.values).collect();
            if all.is_empty() { Value::Enum("X".into()) } else { Value::Enum(r.pick(&all).to_string()) }
        }
        9 => Value::List((0..r.below(3)).map(|_| literal(view, r, depth - 1)).collect()),
        _ => {
            let all: Vec<&String> = view.types.values().flat_map(|t| t.inputs.iter().map(|a| &a.name)).collect();
            let mut names: Vec<String> = (0..r.below(3))
                .map(|_| if all.is_empty() || r.pct(20) { "zzz".to_owned() } else { r.pick(&all).to_string() })
                .collect();
            names.sort();
            names.dedup();
            Value::Obj(names.into_iter().map(|n| (n, literal(view, r, depth - 1))).collect())
        }
    }
}

/// Replaces some part of a value.
fn spoil(view: &View, r: &mut Rng, v: &mut Value) {
    match v {
        Value::List(l) if !l.is_empty() && r.pct(70) => {
            let i = r.below(l.len());
            spoil(view, r, &mut l[i])
        }
        Value::Obj(o) if r.pct(75) => match r.below(4) {
            0 => o.push(("zzz".into(), Value::Int("1".into()))),
            1 if !o.is_empty() => {
                o.remove(r.below(o.len()));
            }
            _ if !o.is_empty() => {
                let i = r.below(o.len());
                spoil(view, r, &mut o[i].1)
            }
            _ => {}
        },
        v => *v = literal(view, r, 2),
    }
}

fn garbage(view: &View, r: &mut Rng, depth: usize) -> J {
    match literal(view, r, depth) {
        Value::Null => J::Null,
        Value::Int(s) | Value::Float(s) => serde_json::from_str(&s).unwrap_or(J::Null),
        Value::Str(s) | Value::Enum(s) => J::String(s),
        Value::Bool(b) => J::Bool(b),
        Value::List(l) => J::Array(l.iter().map(|_| garbage(view, r, 0)).collect()),
        Value::Obj(o) => J::Object(o.into_iter().map(|(n, _)| (n, garbage(view, r, 0))).collect()),
        Value::Var(_) => J::Null,
    }
}

fn spoil_json(view: &View, r: &mut Rng, j: &mut J) {
    match j {
        J::Array(l) if !l.is_empty() && r.pct(70) => {
            let i = r.below(l.len());
            spoil_json(view, r, &mut l[i])
        }
        J::Object(o) if !o.is_empty() && r.pct(75) => {
            let k = r.pick(&o.keys().cloned().collect::<Vec<_>>()).clone();
            match r.below(4) {
                0 => {
                    o.insert("zzz".into(), json!(1));
                }
                1 => {
                    o.remove(&k);
                }
                _ => spoil_json(view, r, o.get_mut(&k).unwrap()),
            }
        }
        j => *j = garbage(view, r, 2),
    }
}

/// Something is done to the operation that may make it invalid. (Its name, and its text where it is not printed from
/// the document.)
fn edit(view: &View, op: &mut Op, r: &mut Rng, at: usize) -> (&'static str, Option<String>) {
    let doc = &mut op.doc;
    let mut text = None;
    let names: Vec<String> = view.types.values().flat_map(|t| t.fields.iter().map(|f| f.name.clone())).collect();
    let types: Vec<String> = view.types.keys().cloned().collect();
    let kind = match at {
        0 => {
            one_set(view, doc, r, |r, _, sels| {
                let name = if r.pct(40) || names.is_empty() { "zzz".to_owned() } else { r.pick(&names).clone() };
                let f = FieldSel { alias: Some("own".into()), name, args: vec![], dirs: vec![], sels: vec![] };
                let i = r.below(sels.len() + 1);
                sels.insert(i, Sel::Field(f))
            });
            "field"
        }
        1 => {
            let composite = |p: &str, x: &FieldSel| {
                view.get(p).and_then(|t| t.field(&x.name)).is_some_and(|d| view.composite(d.ty.base()))
            };
            one_field(view, doc, r, composite, |_, _, x| x.sels.clear());
            "no selection"
        }
        2 => {
            let leaf = |p: &str, x: &FieldSel| {
                view.get(p).and_then(|t| t.field(&x.name)).is_some_and(|d| !view.composite(d.ty.base()))
            };
            one_field(view, doc, r, leaf, |_, _, x| {
                x.sels.push(Sel::Field(FieldSel {
                    alias: None,
                    name: "__typename".into(),
                    args: vec![],
                    dirs: vec![],
                    sels: vec![],
                }))
            });
            "selection on a leaf"
        }
        3 => {
            one_field(view, doc, r, |_, x| x.name != "__typename", |r, _, x| {
                x.args.push(("zzz".into(), literal(view, r, 1)))
            });
            "unknown argument"
        }
        4 => {
            one_field(view, doc, r, |_, x| !x.args.is_empty(), |r, _, x| {
                x.args.remove(r.below(x.args.len()));
            });
            "argument left out"
        }
        5 | 6 | 7 => {
            one_field(view, doc, r, |_, x| !x.args.is_empty(), |r, _, x| {
                let i = r.below(x.args.len());
                spoil(view, r, &mut x.args[i].1)
            });
            "argument value"
        }
        8 => {
            one_field(view, doc, r, |_, x| !x.args.is_empty(), |r, _, x| {
                let i = r.below(x.args.len());
                let mut v = Value::Var("undefined".into());
                if r.pct(30) {
                    v = Value::List(vec![v]);
                }
                x.args[i].1 = v;
            });
            "undefined variable"
        }
        9 => {
            let vars = &mut doc.ops[0].vars;
            if !vars.is_empty() {
                let v = r.pick(vars).clone();
                vars.push(v);
            }
            "variable twice"
        }
        10 => {
            let default = r.pct(30).then(|| Value::Int("1".into()));
            doc.ops[0].vars.push(VarDef { name: "zz".into(), ty: Ty::named("Int"), default });
            "unused variable"
        }
        11 | 12 => {
            let vars = &mut doc.ops[0].vars;
            if !vars.is_empty() {
                let i = r.below(vars.len());
                let old = vars[i].ty.clone();
                vars[i].ty = match r.below(6) {
                    0 => Ty::named(r.pick(&types).as_str()),
                    1 => Ty::named("Zzz"),
                    2 => Ty::named(r.str(&["Int", "Float", "String", "Boolean", "ID"])),
                    3 => Ty::List(Box::new(old)),
                    _ => old.nullable(),
                };
            }
            "variable type"
        }
        13 => {
            let vars = &mut doc.ops[0].vars;
            if !vars.is_empty() {
                let i = r.below(vars.len());
                match &mut vars[i].default {
                    Some(d) => spoil(view, r, d),
                    None => vars[i].default = Some(literal(view, r, 2)),
                }
            }
            "default value"
        }
        14 => {
            one_set(view, doc, r, |_, _, sels| sels.push(Sel::Spread("Unknown".into(), vec![])));
            "unknown fragment"
        }
        15 => {
            if !doc.frags.is_empty() {
                let name = r.pick(&doc.frags).name.clone();
                one_set(view, doc, r, |_, _, sels| sels.push(Sel::Spread(name, vec![])));
            }
            "spread"
        }
        16 => {
            let inner = vec![Sel::Field(FieldSel {
                alias: None,
                name: "__typename".into(),
                args: vec![],
                dirs: vec![],
                sels: vec![],
            })];
            let on = if r.pct(15) { "Zzz".to_owned() } else { r.pick(&types).clone() };
            one_set(view, doc, r, |_, _, sels| sels.push(Sel::Inline(Some(on), vec![], inner)));
            "type condition"
        }
        17 => {
            one_field(view, doc, r, |_, _| true, |r, _, x| {
                let name = r.str(&["skip", "include"]).to_owned();
                let args = if r.pct(30) { vec![] } else { vec![("if".to_owned(), literal(view, r, 1))] };
                x.dirs = vec![Dir { name, args }]
            });
            "condition"
        }
        18 | 19 | 20 => {
            let keys: Vec<String> = op.vars.keys().cloned().collect();
            if !keys.is_empty() {
                let k = r.pick(&keys).clone();
                if r.pct(25) {
                    op.vars.remove(&k);
                } else {
                    spoil_json(view, r, op.vars.get_mut(&k).unwrap());
                }
            }
            "variables"
        }
        21 => {
            let printed = gql::print(doc);
            let mut cut = printed.clone();
            let ends: Vec<usize> = printed.char_indices().map(|(i, _)| i).collect();
            let i = *r.pick(&ends);
            match r.below(3) {
                0 => cut.truncate(i),
                1 => {
                    let c = cut.remove(i);
                    if !"{}()$:\"".contains(c) {
                        cut.insert(i, '{');
                    }
                }
                _ => cut.insert(i, *r.pick(&['{', '}', '(', ')', '$', ':', '"', '|', '?'])),
            }
            text = Some(cut);
            "syntax"
        }
        _ => {
            let other = if doc.ops[0].kind == OpKind::Query { OpKind::Mutation } else { OpKind::Query };
            doc.ops[0].kind = other;
            "root type"
        }
    };
    (kind, text)
}

/// What the engine does not claim to check.
fn unchecked(e: &str) -> bool {
    e.starts_with("fragment ")
        || e.contains("different shapes")
        || e.contains(" differ")
        || e.contains(" twice")
        || e.starts_with("unknown @")
        // The gateway takes a variable where a list of its type is expected.
        || e.split_once(" where [").is_some_and(|(v, _)| !v.contains("of type ["))
}

async fn refused(lab: &Lab, body: J, why: &str, record: &mut String) -> Result<(), Viol> {
    lab.take_log();
    let a = lab.gateway.post(body, &[]).await;
    let log = lab.take_log();
    record.push_str(&format!("# {why}\n{}", describe_log(&log, &lab.fed.names)));
    let got = json_of(&a)?;
    record.push_str(&format!("# answer {}\n{got}\n", a.status));
    ensure!(
        got["errors"].as_array().is_some_and(|e| !e.is_empty()),
        "accepted",
        "an invalid operation was answered without errors ({why})"
    );
    ensure!(log.is_empty(), "invalid-operation-sent", "an invalid operation made the gateway send requests ({why})");
    ensure!(got["data"].is_null(), "data-for-invalid-operation", "there is data for an invalid operation ({why})");
    ensure!(
        got["errors"].as_array().unwrap().iter().all(|e| e["message"].as_str().is_some_and(|m| !m.is_empty())),
        "error-without-message",
        "{}",
        got["errors"]
    );
    Ok(())
}

fn main() {
    let mut c = Check::new("E04", "an invalid operation is refused before anything is sent");
    c.cases("invalid", 8000, 200000, |case| {
        let subs = fed::generate(&mut case.rng, fed::ALL);
        let seed = case.rng.u64();
        let fed = Fed::new(&subs, seed);
        case.input(subs.iter().map(|(n, s)| format!("# subgraph {n}\n{s}\n")).collect::<String>());
        let rng = case.rng.clone();
        guard("engine", || {
            block_on(async {
                let mut rng = rng;
                let lab = match Lab::new(fed, Options::default()).await {
                    Ok(l) => l,
                    Err(e) => return viol("not-composed", e),
                };
                let api = &lab.fed.api;
                let mutations = api.root(OpKind::Mutation).is_some();
                for _ in 0..4 {
                    let kind = if mutations && rng.pct(40) { OpKind::Mutation } else { OpKind::Query };
                    let mut style = Style::random(&mut rng);
                    style.variables |= rng.bool();
                    let Some(op) = ops::generate(api, &mut rng, kind, style) else { continue };
                    // The gateway knows the operation already, or not.
                    let before = rng.bool();
                    if before {
                        lab.ask(&op).await;
                    }
                    for _ in 0..6 {
                        let mut bad = op.clone();
                        let at = rng.below(23);
                        let (what, text) = edit(api, &mut bad, &mut rng, at);
                        let problems: Vec<String> = match &text {
                            Some(t) if lex(t).is_err() || gql::parse(t).is_err() => vec!["syntax".into()],
                            Some(_) => vec![],
                            None => {
                                let mut p: Vec<String> =
                                    view::validate(api, &bad.doc).into_iter().filter(|e| !unchecked(e)).collect();
                                if let Some(op) = bad.doc.ops.first()
                                    && p.is_empty()
                                    && let Err(e) = view::coerce_vars(api, op, &bad.vars)
                                {
                                    p.push(e)
                                }
                                p
                            }
                        };
                        let query = text.unwrap_or_else(|| gql::print(&bad.doc));
                        if problems.is_empty() {
                            case.count("still valid", 1);
                            continue;
                        }
                        case.count(what, 1);
                        case.seen("what", what);
                        case.input(format!(
                            "{}\n# {what}: {problems:?}\n{query}\n# variables {}\n",
                            lab.describe(&op),
                            J::Object(bad.vars.clone())
                        ));
                        case.nontrivial(&query);
                        let mut record = String::new();
                        let body = json!({"query": query, "variables": bad.vars});
                        if let Err(v) = refused(&lab, body, &problems.join("; "), &mut record).await {
                            case.append_input(&record);
                            return Err(Viol { sig: format!("{}:{what}", v.sig), msg: v.msg });
                        }
                        if rng.pct(2) {
                            case.sample(format!("{query}\n{record}"));
                        }
                    }
                }
                Ok(())
            })
        })?
    });
    for what in ["field", "argument value", "variables", "type condition", "variable type", "syntax", "spread"] {
        c.require(what, 200);
    }
    c.finish()
}
