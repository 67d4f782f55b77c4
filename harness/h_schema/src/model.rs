//! What a schema consists of, extensions merged, and how two schemas differ.
use std::collections::{BTreeMap, BTreeSet};
use vgql::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Type {
    pub kind: Kind,
    pub implements: BTreeSet<String>,
    pub fields: BTreeMap<String, Field>,
    pub inputs: BTreeMap<String, InputVal>,
    pub values: BTreeMap<String, EnumVal>,
    pub members: BTreeSet<String>,
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Schema {
    pub types: BTreeMap<String, Type>,
    pub directives: BTreeMap<String, DirDef>,
    pub roots: Option<BTreeMap<String, String>>,
    pub extensions: usize,
}

pub fn schema(doc: &Doc) -> Schema {
    let mut s = Schema::default();
    for d in &doc.defs {
        match d {
            Def::Schema(d) if d.ext => s.extensions += 1,
            Def::Schema(d) => s.roots = Some(d.roots.iter().cloned().collect()),
            Def::Directive(d) => {
                s.directives.insert(d.name.clone(), d.clone());
            }
            Def::Type(t) => {
                let e = s.types.entry(t.name.clone()).or_insert_with(|| Type {
                    kind: t.kind,
                    implements: Default::default(),
                    fields: Default::default(),
                    inputs: Default::default(),
                    values: Default::default(),
                    members: Default::default(),
                    desc: None,
                    dirs: vec![],
                });
                e.desc = e.desc.take().or(t.desc.clone());
                e.dirs.extend(t.dirs.iter().cloned());
                e.implements.extend(t.implements.iter().cloned());
                e.fields.extend(t.fields.iter().map(|f| (f.name.clone(), f.clone())));
                e.inputs.extend(t.inputs.iter().map(|f| (f.name.clone(), f.clone())));
                e.values.extend(t.values.iter().map(|f| (f.name.clone(), f.clone())));
                e.members.extend(t.members.iter().cloned());
            }
        }
    }
    s
}

/// A change: path, kind, and the text (normalised) that its span must show, if any.
pub type Changes = BTreeMap<(String, &'static str), Option<String>>;

fn added(k: Kind) -> &'static str {
    match k {
        Kind::Scalar => "AddScalar",
        Kind::Object => "AddObjectType",
        Kind::Interface => "AddInterface",
        Kind::Union => "AddUnion",
        Kind::Enum => "AddEnum",
        Kind::Input => "AddInputObject",
    }
}

fn removed(k: Kind) -> &'static str {
    match k {
        Kind::Scalar => "RemoveScalar",
        Kind::Object => "RemoveObjectType",
        Kind::Interface => "RemoveInterface",
        Kind::Union => "RemoveUnion",
        Kind::Enum => "RemoveEnum",
        Kind::Input => "RemoveInputObject",
    }
}

/// Keys of `b` that `a` lacks, and of `a` that `b` lacks.
fn keys<'a, T>(a: &'a BTreeMap<String, T>, b: &'a BTreeMap<String, T>) -> (Vec<&'a String>, Vec<&'a String>) {
    (b.keys().filter(|k| !a.contains_key(*k)).collect(), a.keys().filter(|k| !b.contains_key(*k)).collect())
}

/// Without the description, which spans do not include.
fn directive_text(d: &DirDef) -> String {
    Def::Directive(DirDef { desc: None, ..d.clone() }).to_string()
}

/// Every structural difference between two schemas.
pub fn differences(a: &Schema, b: &Schema) -> Changes {
    let mut out = Changes::new();
    let mut put = |path: String, kind: &'static str, text: Option<String>| {
        out.insert((path, kind), text);
    };
    match (&a.roots, &b.roots) {
        (None, Some(_)) => put(":schema".into(), "AddSchemaDefinition", None),
        (Some(_), None) => put(":schema".into(), "RemoveSchemaDefinition", None),
        (Some(x), Some(y)) => {
            for (op, kind) in [("query", "ChangeQueryType"), ("mutation", "ChangeMutationType"), ("subscription", "ChangeSubscriptionType")] {
                if x.get(op) != y.get(op) {
                    put(":schema".into(), kind, Some(y.get(op).cloned().unwrap_or_default()));
                }
            }
        }
        (None, None) => {}
    }
    let (add, rm) = keys(&a.directives, &b.directives);
    for d in add {
        put(d.clone(), "AddDirectiveDefinition", Some(directive_text(&b.directives[d])));
    }
    for d in rm {
        put(d.clone(), "RemoveDirectiveDefinition", None);
    }
    let (add, rm) = keys(&a.types, &b.types);
    for t in add {
        put(t.clone(), added(b.types[t].kind), None);
    }
    for t in rm {
        put(t.clone(), removed(a.types[t].kind), None);
    }
    for (name, x) in &a.types {
        let Some(y) = b.types.get(name) else { continue };
        if x.kind != y.kind {
            put(name.clone(), removed(x.kind), None);
            put(name.clone(), added(y.kind), None);
            continue;
        }
        for i in y.implements.difference(&x.implements) {
            put(format!("{name}.&{i}"), "AddInterfaceImplementation", None);
        }
        for i in x.implements.difference(&y.implements) {
            put(format!("{name}.&{i}"), "RemoveInterfaceImplementation", None);
        }
        for i in y.members.difference(&x.members) {
            put(format!("{name}.{i}"), "AddUnionMember", Some(i.clone()));
        }
        for i in x.members.difference(&y.members) {
            put(format!("{name}.{i}"), "RemoveUnionMember", None);
        }
        let (add, rm) = keys(&x.values, &y.values);
        for v in add {
            put(format!("{name}.{v}"), "AddEnumValue", Some(v.clone()));
        }
        for v in rm {
            put(format!("{name}.{v}"), "RemoveEnumValue", None);
        }
        let (add, rm) = keys(&x.inputs, &y.inputs);
        for v in add {
            put(format!("{name}.{v}"), "AddField", Some(y.inputs[v].to_string()));
        }
        for v in rm {
            put(format!("{name}.{v}"), "RemoveField", None);
        }
        for (f, p) in &x.inputs {
            if let Some(q) = y.inputs.get(f).filter(|q| q.ty != p.ty) {
                put(format!("{name}.{f}"), "ChangeFieldType", Some(q.ty.to_string()));
            }
        }
        let (add, rm) = keys(&x.fields, &y.fields);
        for v in add {
            put(format!("{name}.{v}"), "AddField", Some(y.fields[v].to_string()));
        }
        for v in rm {
            put(format!("{name}.{v}"), "RemoveField", None);
        }
        for (f, p) in &x.fields {
            let Some(q) = y.fields.get(f) else { continue };
            if p.ty != q.ty {
                put(format!("{name}.{f}"), "ChangeFieldType", Some(q.ty.to_string()));
            }
            for r in &q.args {
                let path = format!("{name}.{f}.{}", r.name);
                let Some(o) = p.arg(&r.name) else {
                    put(path, "AddFieldArgument", Some(r.to_string()));
                    continue;
                };
                if o.ty != r.ty {
                    put(path.clone(), "ChangeFieldArgumentType", Some(r.ty.to_string()));
                }
                match (&o.default, &r.default) {
                    (None, Some(d)) => put(path, "AddFieldArgumentDefault", Some(format!("= {d}"))),
                    (Some(_), None) => put(path, "RemoveFieldArgumentDefault", None),
                    (Some(p), Some(q)) if p != q => put(path, "ChangeFieldArgumentDefault", Some(format!("= {q}"))),
                    _ => {}
                }
            }
            for o in &p.args {
                if q.arg(&o.name).is_none() {
                    put(format!("{name}.{f}.{}", o.name), "RemoveFieldArgument", None);
                }
            }
        }
    }
    out
}

/// The text of a span, in the normal form of `Changes`. None: not something of that kind.
pub fn normal_text(kind: &str, text: &str) -> Option<String> {
    let one_field = |s: String| -> Option<Field> {
        let d = parse(&s).ok()?;
        let t = d.types().next()?;
        (t.fields.len() == 1 && d.defs.len() == 1).then(|| t.fields[0].clone())
    };
    match kind {
        "AddField" => {
            if let Some(f) = one_field(format!("type X {{ {text}\n }}")) {
                return Some(f.to_string());
            }
            let d = parse(&format!("input X {{ {text}\n }}")).ok()?;
            let t = d.types().next()?;
            (t.inputs.len() == 1).then(|| t.inputs[0].to_string())
        }
        "ChangeFieldType" | "ChangeFieldArgumentType" => Some(parse::parse_ty(text).ok()?.to_string()),
        "AddFieldArgument" => {
            let f = one_field(format!("type X {{ a({text}\n): Int }}"))?;
            (f.args.len() == 1).then(|| f.args[0].to_string())
        }
        "AddFieldArgumentDefault" | "ChangeFieldArgumentDefault" => {
            let f = one_field(format!("type X {{ a(x: Int {text}\n): Int }}"))?;
            Some(format!("= {}", f.args.first()?.default.as_ref()?))
        }
        "AddDirectiveDefinition" => {
            let d = parse(text).ok()?;
            let d = d.directives().next().filter(|_| d.defs.len() == 1)?;
            Some(directive_text(d))
        }
        "AddEnumValue" => {
            let d = parse(&format!("enum X {{ {text}\n }}")).ok()?;
            let t = d.types().next()?;
            (t.values.len() == 1).then(|| t.values[0].name.clone())
        }
        _ => Some(text.trim().to_owned()),
    }
}
