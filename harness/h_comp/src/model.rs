//! What a set of (valid) subgraphs must compose to, written from the documented merge rules.
use crate::universe::{Fed, ROOTS, Sub};
use std::collections::{BTreeMap, BTreeSet};
use vgql::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Meta {
    pub descs: Vec<String>,
    pub tags: BTreeSet<String>,
    pub inaccessible: bool,
    pub deprecated: Option<BTreeSet<String>>,
    pub authenticated: bool,
    pub one_of: bool,
    pub costs: BTreeSet<String>,
    pub scopes: BTreeSet<Vec<String>>,
    pub policies: BTreeSet<Vec<String>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MJoin {
    pub external: bool,
    pub ty: Option<String>,
    pub over: Option<String>,
    pub label: Option<String>,
    pub requires: Option<Vec<parse::Sel>>,
    pub provides: Option<Vec<parse::Sel>>,
}

#[derive(Clone, Debug)]
pub struct MInput {
    pub meta: Meta,
    pub ty: Ty,
    pub default: Option<Value>,
    pub joins: BTreeMap<String, Option<String>>,
}

#[derive(Clone, Debug)]
pub struct MField {
    pub meta: Meta,
    pub ty: Ty,
    pub args: BTreeMap<String, MInput>,
    pub joins: BTreeMap<String, MJoin>,
}

#[derive(Clone, Debug)]
pub struct MValue {
    pub meta: Meta,
    pub graphs: BTreeSet<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct MKey {
    pub graph: String,
    pub key: Option<Vec<parse::Sel>>,
    pub resolvable: bool,
    pub interface_object: bool,
}

#[derive(Clone, Debug)]
pub struct MType {
    pub kind: Kind,
    pub meta: Meta,
    pub joins: Vec<MKey>,
    pub fields: BTreeMap<String, MField>,
    pub inputs: BTreeMap<String, MInput>,
    pub values: BTreeMap<String, MValue>,
    pub members: BTreeMap<String, BTreeSet<String>>,
    pub implements: BTreeMap<String, BTreeSet<String>>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub types: BTreeMap<String, MType>,
}

pub fn graph_name(name: &str) -> String {
    name.chars().map(|c| if c == '-' { '_' } else { c.to_ascii_uppercase() }).collect()
}

pub fn canon(v: &Value) -> Value {
    match v {
        Value::Int(s) | Value::Float(s) => Value::Float(format!("{:?}", s.parse::<f64>().unwrap_or(f64::NAN))),
        Value::List(v) => Value::List(v.iter().map(canon).collect()),
        Value::Obj(v) => {
            let mut v: Vec<_> = v.iter().map(|(n, x)| (n.clone(), canon(x))).collect();
            v.sort();
            Value::Obj(v)
        }
        v => v.clone(),
    }
}

/// `[["a", "b"], ["c"]]`: each inner list is a set of requirements.
fn alternatives(d: &Dir, arg: &str) -> Vec<Vec<String>> {
    let Some(Value::List(outer)) = d.arg(arg) else { return vec![] };
    outer
        .iter()
        .map(|inner| {
            let Value::List(inner) = inner else { return vec![] };
            let mut v: Vec<String> = inner.iter().filter_map(|s| if let Value::Str(s) = s { Some(s.clone()) } else { None }).collect();
            v.sort();
            v
        })
        .collect()
}

fn meta<'a>(sites: impl Iterator<Item = (&'a Vec<Dir>, &'a Option<String>)>) -> Meta {
    let mut m = Meta::default();
    for (dirs, desc) in sites {
        m.descs.extend(desc.clone());
        for d in dirs {
            match d.name.as_str() {
                "tag" => m.tags.extend(d.str_arg("name")),
                "inaccessible" => m.inaccessible = true,
                "authenticated" => m.authenticated = true,
                "oneOf" => m.one_of = true,
                "requiresScopes" => m.scopes.extend(alternatives(d, "scopes")),
                "policy" => m.policies.extend(alternatives(d, "policies")),
                "cost" => m.costs.extend(d.arg("weight").map(|v| v.to_string())),
                "deprecated" => {
                    m.deprecated
                        .get_or_insert_default()
                        .insert(d.str_arg("reason").unwrap_or_else(|| "No longer supported".into()));
                }
                _ => {}
            }
        }
    }
    m
}

/// Same type except possibly the outermost nullability.
pub fn compatible(a: &Ty, b: &Ty) -> bool {
    a.clone().nullable() == b.clone().nullable()
}

fn merge_out<'a>(tys: impl Iterator<Item = &'a Ty> + Clone) -> Ty {
    let first = tys.clone().next().unwrap().clone();
    assert!(tys.clone().all(|t| compatible(t, &first)), "h_comp: incompatible types generated");
    if tys.clone().all(|t| t.is_non_null()) { first } else { first.nullable() }
}

fn merge_in<'a>(tys: impl Iterator<Item = &'a Ty> + Clone) -> Ty {
    let first = tys.clone().next().unwrap().clone();
    assert!(tys.clone().all(|t| compatible(t, &first)), "h_comp: incompatible types generated");
    if tys.clone().any(|t| t.is_non_null()) { first.non_null() } else { first }
}

fn merge_inputs(defs: &[(&Sub, &Vec<InputVal>)]) -> BTreeMap<String, MInput> {
    let mut out = BTreeMap::new();
    let Some((_, first)) = defs.first() else { return out };
    for f in first.iter() {
        let all: Vec<(&Sub, &InputVal)> =
            defs.iter().filter_map(|(s, l)| l.iter().find(|x| x.name == f.name).map(|x| (*s, x))).collect();
        if all.len() != defs.len() {
            continue;
        }
        let ty = merge_in(all.iter().map(|x| &x.1.ty));
        out.insert(
            f.name.clone(),
            MInput {
                meta: meta(all.iter().map(|x| (&x.1.dirs, &x.1.desc))),
                default: all.iter().find_map(|x| x.1.default.as_ref()).map(canon),
                joins: all
                    .iter()
                    .map(|(s, x)| (graph_name(&s.name), (x.ty != ty).then(|| x.ty.to_string())))
                    .collect(),
                ty,
            },
        );
    }
    out
}

fn sel(d: Option<&Dir>) -> Option<Vec<parse::Sel>> {
    parse::canonical_field_set(&d?.str_arg("fields")?).ok()
}

/// The fields of `t` that are part of one of its keys, or of a key of another type going through it.
pub fn key_fields(sub: &Sub, t: &str) -> BTreeSet<String> {
    fn walk(sub: &Sub, ty: &str, sels: &[parse::Sel], want: &str, out: &mut BTreeSet<String>) {
        for s in sels {
            if let parse::Sel::Field { name, sub: inner, .. } = s {
                if ty == want {
                    out.insert(name.clone());
                }
                if !inner.is_empty() {
                    if let Some(f) = all_defs(sub, ty).find_map(|d| d.field(name)) {
                        walk(sub, f.ty.base(), inner, want, out);
                    }
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    for d in sub.doc.types() {
        for k in d.dirs.iter().filter(|d| d.name == "key") {
            if let Some(s) = sel(Some(k)) {
                walk(sub, &d.name, &s, t, &mut out);
            }
        }
    }
    out
}

fn all_defs<'a>(sub: &'a Sub, t: &'a str) -> impl Iterator<Item = &'a TypeDef> {
    sub.doc.types().filter(move |d| d.name == t)
}

pub fn expected(subs: &[Sub]) -> Model {
    let mut m = Model::default();
    // The order in which subgraphs are considered only matters for "first found" rules, which the
    // comparison leaves open.
    let names: BTreeSet<String> = subs.iter().flat_map(|s| s.doc.types().map(|t| t.name.clone())).collect();
    let mut used_in = BTreeSet::new();
    let mut used_out = BTreeSet::new();
    for t in subs.iter().flat_map(|s| s.doc.types()) {
        for f in &t.fields {
            used_out.insert(f.ty.base().to_string());
            used_in.extend(f.args.iter().map(|a| a.ty.base().to_string()));
        }
        used_in.extend(t.inputs.iter().map(|a| a.ty.base().to_string()));
    }
    for name in names {
        let defs: Vec<(&Sub, &TypeDef)> =
            subs.iter().flat_map(|s| s.doc.types().filter(|t| t.name == name).map(move |t| (s, t))).collect();
        let kind = defs[0].1.kind;
        let root = ROOTS.iter().any(|r| r.1 == name);
        let mut t = MType {
            kind,
            meta: meta(defs.iter().map(|d| (&d.1.dirs, &d.1.desc))),
            joins: vec![],
            fields: BTreeMap::new(),
            inputs: BTreeMap::new(),
            values: BTreeMap::new(),
            members: BTreeMap::new(),
            implements: BTreeMap::new(),
        };
        let entity = defs.iter().any(|d| d.1.dirs.iter().any(|d| d.name == "key"));
        // A union is recorded through its members, a scalar not at all.
        if !root && !matches!(kind, Kind::Union | Kind::Scalar) {
            for (s, d) in &defs {
                let graph = graph_name(&s.name);
                let keys: Vec<&Dir> = d.dirs.iter().filter(|d| d.name == "key").collect();
                if keys.is_empty() && !entity {
                    t.joins.push(MKey { graph, key: None, resolvable: true, interface_object: false });
                } else {
                    for k in keys {
                        t.joins.push(MKey {
                            graph: graph.clone(),
                            key: sel(Some(k)),
                            resolvable: k.arg("resolvable") != Some(&Value::Bool(false)),
                            interface_object: false,
                        });
                    }
                }
            }
        }
        t.joins.sort();
        for (s, d) in &defs {
            for i in &d.implements {
                t.implements.entry(i.clone()).or_default().insert(graph_name(&s.name));
            }
            for i in &d.members {
                t.members.entry(i.clone()).or_default().insert(graph_name(&s.name));
            }
        }
        match kind {
            Kind::Object | Kind::Interface => {
                let fnames: BTreeSet<&String> = defs.iter().flat_map(|d| d.1.fields.iter().map(|f| &f.name)).collect();
                for fname in fnames {
                    let fs: Vec<(&Sub, &TypeDef, &Field)> =
                        defs.iter().filter_map(|(s, d)| d.field(fname).map(|f| (*s, *d, f))).collect();
                    let ty = merge_out(fs.iter().map(|f| &f.2.ty));
                    let args = merge_inputs(&fs.iter().map(|f| (f.0, &f.2.args)).collect::<Vec<_>>());
                    let mut joins = BTreeMap::new();
                    let mut overridden = BTreeSet::new();
                    for (s, d, f) in &fs {
                        let dir = |n: &str| f.dirs.iter().find(|d| d.name == n);
                        let ext = dir("external").is_some() || d.dirs.iter().any(|d| d.name == "external");
                        let over = dir("override").and_then(|d| d.str_arg("from"));
                        let label = dir("override").and_then(|d| d.str_arg("label"));
                        if let Some(o) = &over {
                            if label.is_none() || label.as_deref() == Some("percent(100)") {
                                overridden.insert(graph_name(o));
                            }
                        }
                        joins.insert(
                            graph_name(&s.name),
                            MJoin {
                                external: ext && !key_fields(s, &name).contains(fname.as_str()),
                                ty: (f.ty != ty).then(|| f.ty.to_string()),
                                over,
                                label,
                                requires: sel(dir("requires")),
                                provides: sel(dir("provides")),
                            },
                        );
                    }
                    // What is moved away completely is not resolved by the old subgraph any more.
                    joins.retain(|g, _| !overridden.contains(g));
                    t.fields.insert(
                        fname.clone(),
                        MField { meta: meta(fs.iter().map(|f| (&f.2.dirs, &f.2.desc))), ty, args, joins },
                    );
                }
            }
            Kind::Input => {
                t.inputs = merge_inputs(&defs.iter().map(|(s, d)| (*s, &d.inputs)).collect::<Vec<_>>());
            }
            Kind::Enum => {
                let vnames: BTreeSet<&String> = defs.iter().flat_map(|d| d.1.values.iter().map(|v| &v.name)).collect();
                for v in vnames {
                    let vs: Vec<(&Sub, &EnumVal)> =
                        defs.iter().filter_map(|(s, d)| d.value(v).map(|x| (*s, x))).collect();
                    if used_in.contains(&name) && vs.len() != defs.len() {
                        assert!(!used_out.contains(&name), "h_comp: inconsistent enum generated");
                        continue;
                    }
                    t.values.insert(
                        v.clone(),
                        MValue {
                            meta: meta(vs.iter().map(|v| (&v.1.dirs, &v.1.desc))),
                            graphs: vs.iter().map(|v| graph_name(&v.0.name)).collect(),
                        },
                    );
                }
            }
            Kind::Union | Kind::Scalar => {}
        }
        m.types.insert(name, t);
    }
    m
}

pub fn is_v1(s: &Sub) -> bool {
    s.fed == Fed::V1
}

// --------------------------------------------------------------------------------------------
// Comparison with what came out.

use vcommon::*;

type R = Result<(), Viol>;

/// White space at the ends of lines and blank lines do not matter.
fn lines(s: &str) -> Vec<&str> {
    s.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect()
}

fn check_desc(place: &str, got: &Option<String>, m: &Meta) -> R {
    match got {
        None => ensure!(m.descs.is_empty(), "description-lost", "{place}: the description {:?} is lost", m.descs),
        Some(d) => ensure!(
            m.descs.iter().any(|x| lines(x) == lines(d)),
            "description-changed",
            "{place}: description {d:?}, the subgraphs say {:?}",
            m.descs
        ),
    }
    Ok(())
}

fn check_meta(place: &str, dirs: &[Dir], m: &Meta, api: bool) -> R {
    let all = |n: &str| dirs.iter().filter(|d| d.name == n).collect::<Vec<_>>();
    let dep = all("deprecated");
    ensure!(dep.len() <= 1, "deprecated-twice", "{place}: {dirs:?}");
    match (&m.deprecated, dep.first()) {
        (None, None) => {}
        (Some(reasons), Some(d)) => {
            let r = d.str_arg("reason").unwrap_or_else(|| "No longer supported".into());
            ensure!(reasons.contains(&r), "deprecation-reason", "{place}: reason {r:?}, the subgraphs say {reasons:?}");
        }
        (w, _) => ensure!(false, "deprecated", "{place}: expected deprecation {w:?}, found {dep:?}"),
    }
    if api {
        let others: Vec<_> = dirs.iter().filter(|d| d.name != "deprecated").collect();
        ensure!(others.is_empty(), "internal-directive", "{place}: the API schema shows {others:?}");
        return Ok(());
    }
    let tags: Vec<String> = all("tag").iter().filter_map(|d| d.str_arg("name")).collect();
    let set: BTreeSet<String> = tags.iter().cloned().collect();
    ensure!(set == m.tags && tags.len() == set.len(), "tags", "{place}: expected tags {:?}, found {tags:?}", m.tags);
    for (n, want) in [("inaccessible", m.inaccessible), ("authenticated", m.authenticated), ("oneOf", m.one_of)] {
        ensure!(all(n).len() == want as usize, n, "{place}: expected @{n}: {want}, found {dirs:?}");
    }
    for (n, arg, want) in [("requiresScopes", "scopes", &m.scopes), ("policy", "policies", &m.policies)] {
        let d = all(n);
        ensure!(d.len() == !want.is_empty() as usize, n, "{place}: expected @{n} {want:?}, found {dirs:?}");
        let got: BTreeSet<Vec<String>> = d.iter().flat_map(|d| alternatives(d, arg)).collect();
        ensure!(got == *want, n, "{place}: expected @{n} {want:?}, found {got:?}");
    }
    let cost: BTreeSet<String> = all("cost").iter().filter_map(|d| d.arg("weight").map(|v| v.to_string())).collect();
    ensure!(cost.is_subset(&m.costs) && cost.is_empty() == m.costs.is_empty(), "cost", "{place}: {cost:?} vs {:?}", m.costs);
    Ok(())
}

fn names_match<'a>(
    place: &str,
    what: &str,
    got: impl Iterator<Item = &'a String>,
    want: impl Iterator<Item = &'a String>,
) -> R {
    let g: Vec<&String> = got.collect();
    let gs: BTreeSet<&String> = g.iter().copied().collect();
    let w: BTreeSet<&String> = want.collect();
    ensure!(g.len() == gs.len(), format!("{what}-duplicated"), "{place}: {what} {g:?}");
    let missing: Vec<_> = w.difference(&gs).collect();
    ensure!(missing.is_empty(), format!("{what}-missing"), "{place}: {what} {missing:?} missing");
    let extra: Vec<_> = gs.difference(&w).collect();
    ensure!(extra.is_empty(), format!("{what}-extra"), "{place}: {what} {extra:?} should not be there");
    Ok(())
}

fn check_input(place: &str, got: &InputVal, want: &MInput, api: bool) -> R {
    ensure!(got.ty == want.ty, "input-type", "{place}: {} instead of {}", got.ty, want.ty);
    ensure!(
        got.default.as_ref().map(canon) == want.default,
        "default-value",
        "{place}: default {:?} instead of {:?}",
        got.default.as_ref().map(|d| d.to_string()),
        want.default
    );
    check_desc(place, &got.desc, &want.meta)?;
    check_meta(place, &got.dirs, &want.meta, api)
}

fn check_type(t: &TypeDef, w: &MType, api: Option<&Model>, joins: bool, soft: &mut Vec<Viol>) -> R {
    let p = &t.name;
    let model = api;
    let api = api.is_some();
    let vis = |m: &Meta| !api || !m.inaccessible;
    ensure!(t.kind == w.kind, "kind", "{p} is {:?}, expected {:?}", t.kind, w.kind);
    let root = ROOTS.iter().any(|r| r.1 == *p);
    if !root {
        check_desc(p, &t.desc, &w.meta)?;
    }
    check_meta(p, &t.dirs, &w.meta, api)?;
    names_match(p, "field", t.fields.iter().map(|f| &f.name), w.fields.iter().filter(|f| vis(&f.1.meta)).map(|f| f.0))?;
    names_match(p, "input-field", t.inputs.iter().map(|f| &f.name), w.inputs.iter().filter(|f| vis(&f.1.meta)).map(|f| f.0))?;
    names_match(p, "value", t.values.iter().map(|f| &f.name), w.values.iter().filter(|f| vis(&f.1.meta)).map(|f| f.0))?;
    let shown = |n: &String| model.is_none_or(|m| !m.types[n].meta.inaccessible);
    names_match(p, "member", t.members.iter(), w.members.keys().filter(|n| shown(n)))?;
    if !api {
        names_match(p, "implements", t.implements.iter(), w.implements.keys())?;
    }
    for f in &t.fields {
        let wf = &w.fields[&f.name];
        let p = format!("{p}.{}", f.name);
        ensure!(f.ty == wf.ty, "field-type", "{p}: {} instead of {}", f.ty, wf.ty);
        check_desc(&p, &f.desc, &wf.meta)?;
        check_meta(&p, &f.dirs, &wf.meta, api)?;
        let hidden = |n: &String| wf.args.get(n).is_some_and(|a| api && a.meta.inaccessible);
        if let Some(a) = f.args.iter().find(|a| hidden(&a.name)) {
            soft.push(Viol {
                sig: "api-argument-inaccessible-shown".into(),
                msg: format!("{p}: the API schema shows the @inaccessible argument {}", a.name),
            });
        }
        let shown = f.args.iter().filter(|a| !hidden(&a.name));
        names_match(&p, "argument", shown.clone().map(|a| &a.name), wf.args.iter().filter(|f| vis(&f.1.meta)).map(|f| f.0))?;
        for a in shown {
            check_input(&format!("{p}({}:)", a.name), a, &wf.args[&a.name], api)?;
        }
        if joins {
            check_field_joins(&p, f, wf, w)?;
        }
    }
    for f in &t.inputs {
        let wf = &w.inputs[&f.name];
        let p = format!("{p}.{}", f.name);
        check_input(&p, f, wf, api)?;
        if joins {
            let got = join_fields(&p, &f.dirs)?;
            let want: BTreeMap<String, MJoin> = wf
                .joins
                .iter()
                .map(|(g, ty)| (g.clone(), MJoin { ty: ty.clone(), ..MJoin::default() }))
                .collect();
            effective(&p, got, &want, w)?;
        }
    }
    for v in &t.values {
        let wv = &w.values[&v.name];
        let p = format!("{p}.{}", v.name);
        check_desc(&p, &v.desc, &wv.meta)?;
        check_meta(&p, &v.dirs, &wv.meta, api)?;
        if joins {
            let g: Vec<String> =
                v.dirs.iter().filter(|d| d.name == "join__enumValue").filter_map(|d| d.str_arg("graph")).collect();
            names_match(&p, "enum-value-graph", g.iter(), wv.graphs.iter())?;
        }
    }
    if joins {
        check_type_joins(t, w)?;
    }
    Ok(())
}

fn join_fields(p: &str, dirs: &[Dir]) -> Result<Option<BTreeMap<String, MJoin>>, Viol> {
    let ds: Vec<&Dir> = dirs.iter().filter(|d| d.name == "join__field").collect();
    if ds.is_empty() {
        return Ok(None);
    }
    let mut out = BTreeMap::new();
    for d in ds {
        let set = |n: &str| match d.str_arg(n) {
            None => Ok(None),
            Some(s) => match parse::canonical_field_set(&s) {
                Ok(v) => Ok(Some(v)),
                Err(e) => viol("field-set", format!("{p}: {n} {s:?}: {e}")),
            },
        };
        let Some(g) = d.str_arg("graph") else {
            return viol("join-field-without-graph", format!("{p}: {d}"));
        };
        let j = MJoin {
            external: d.arg("external") == Some(&Value::Bool(true)),
            ty: d.str_arg("type"),
            over: d.str_arg("override"),
            label: d.str_arg("overrideLabel"),
            requires: set("requires")?,
            provides: set("provides")?,
        };
        ensure!(out.insert(g.clone(), j).is_none(), "join-field-duplicated", "{p}: two @join__field for {g}");
    }
    Ok(Some(out))
}

fn effective(p: &str, got: Option<BTreeMap<String, MJoin>>, want: &BTreeMap<String, MJoin>, t: &MType) -> R {
    // Without any @join__field, the field belongs to all the subgraphs that have the type.
    let got = got.unwrap_or_else(|| t.joins.iter().map(|j| (j.graph.clone(), MJoin::default())).collect());
    for (g, w) in want {
        let Some(h) = got.get(g) else {
            return viol("resolver-missing", format!("{p}: subgraph {g} is not recorded as resolving it (recorded: {:?})", got.keys()));
        };
        ensure!(h == w, "resolver-attributes", "{p} in {g}: recorded {h:?}, expected {w:?}");
    }
    for g in got.keys() {
        ensure!(want.contains_key(g), "resolver-extra", "{p}: subgraph {g} is recorded as resolving it, it does not");
    }
    Ok(())
}

fn check_field_joins(p: &str, f: &Field, wf: &MField, w: &MType) -> R {
    effective(p, join_fields(p, &f.dirs)?, &wf.joins, w)
}

fn check_type_joins(t: &TypeDef, w: &MType) -> R {
    let p = &t.name;
    let mut got = vec![];
    for d in t.dirs.iter().filter(|d| d.name == "join__type") {
        let key = match d.str_arg("key") {
            None => None,
            Some(s) => match parse::canonical_field_set(&s) {
                Ok(v) => Some(v),
                Err(e) => return viol("key-field-set", format!("{p}: {s:?}: {e}")),
            },
        };
        got.push(MKey {
            graph: d.str_arg("graph").unwrap_or_default(),
            key,
            resolvable: d.arg("resolvable") != Some(&Value::Bool(false)),
            interface_object: d.arg("isInterfaceObject") == Some(&Value::Bool(true)),
        });
    }
    got.sort();
    ensure!(got == w.joins, "join-type", "{p}: recorded {got:?}, expected {:?}", w.joins);
    let pairs = |dir: &str, arg: &str| -> Vec<(String, String)> {
        let mut v: Vec<_> = t
            .dirs
            .iter()
            .filter(|d| d.name == dir)
            .map(|d| (d.str_arg(arg).unwrap_or_default(), d.str_arg("graph").unwrap_or_default()))
            .collect();
        v.sort();
        v
    };
    let want = |m: &BTreeMap<String, BTreeSet<String>>| -> Vec<(String, String)> {
        m.iter().flat_map(|(n, g)| g.iter().map(move |g| (n.clone(), g.clone()))).collect()
    };
    let m = pairs("join__unionMember", "member");
    ensure!(m == want(&w.members), "join-union-member", "{p}: recorded {m:?}, expected {:?}", w.members);
    let m = pairs("join__implements", "interface");
    ensure!(m == want(&w.implements), "join-implements", "{p}: recorded {m:?}, expected {:?}", w.implements);
    Ok(())
}

/// Names that composition adds to the federated schema on its own.
pub fn internal(name: &str) -> bool {
    name.starts_with("join__") || name.starts_with("link__") || name.starts_with("extension__")
}

pub fn compare_federated(doc: &Doc, m: &Model, joins: bool) -> R {
    let own: Vec<&TypeDef> = doc.types().filter(|t| !internal(&t.name)).collect();
    names_match("federated schema", "type", own.iter().map(|t| &t.name), m.types.keys())?;
    for t in own {
        check_type(t, &m.types[&t.name], None, joins, &mut vec![])?;
    }
    let roots: BTreeMap<&String, &String> = doc
        .defs
        .iter()
        .filter_map(|d| if let Def::Schema(s) = d { Some(s) } else { None })
        .flat_map(|s| s.roots.iter().map(|r| (&r.0, &r.1)))
        .collect();
    for (op, n) in ROOTS {
        let (op, n) = (op.to_string(), n.to_string());
        let want = m.types.contains_key(&n);
        ensure!((roots.get(&op) == Some(&&n)) == want, "roots", "schema {{ {op} }} is {:?}, expected: {want}", roots.get(&op));
    }
    Ok(())
}

pub fn compare_graphs(doc: &Doc, subs: &[Sub]) -> R {
    let Some(t) = doc.ty("join__Graph") else { return viol("join-graph", "no join__Graph enum") };
    let got: BTreeMap<String, (String, String)> = t
        .values
        .iter()
        .filter_map(|v| {
            let d = v.dirs.iter().find(|d| d.name == "join__graph")?;
            Some((v.name.clone(), (d.str_arg("name")?, d.str_arg("url").unwrap_or_default())))
        })
        .collect();
    let want: BTreeMap<String, (String, String)> =
        subs.iter().map(|s| (graph_name(&s.name), (s.name.clone(), s.url.clone()))).collect();
    ensure!(got == want && t.values.len() == subs.len(), "join-graph", "join__Graph is {got:?}, expected {want:?}");
    Ok(())
}

pub fn compare_api(doc: &Doc, m: &Model, soft: &mut Vec<Viol>) -> R {
    let want: Vec<&String> = m
        .types
        .iter()
        .filter(|(_, t)| !t.meta.inaccessible)
        .filter(|(_, t)| t.kind != Kind::Object || t.fields.values().any(|f| !f.meta.inaccessible))
        .map(|(n, _)| n)
        .collect();
    names_match("API schema", "type", doc.types().map(|t| &t.name), want.into_iter())?;
    for t in doc.types() {
        check_type(t, &m.types[&t.name], Some(m), false, soft)?;
    }
    Ok(())
}
