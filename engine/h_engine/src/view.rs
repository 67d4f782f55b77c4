//! Schemas as seen by the client (API) or by one subgraph, with the rules of the specification for
//! coercing values and validating operations.
use crate::gql::{self, Document, FieldSel, OpKind, Operation, Sel};
use serde_json::{Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use vgql::{Def, Dir, Kind, Ty, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Arg {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Value>,
    pub hidden: bool,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub args: Vec<Arg>,
    pub external: bool,
    /// Another subgraph took it over.
    pub overridden: bool,
    pub hidden: bool,
    pub provides: Vec<Sel>,
    pub requires: Vec<Sel>,
    pub override_from: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Key {
    pub sels: Vec<Sel>,
    pub resolvable: bool,
}

#[derive(Clone, Debug)]
pub struct Type {
    pub name: String,
    pub kind: Kind,
    pub fields: Vec<Field>,
    pub implements: Vec<String>,
    pub members: Vec<String>,
    pub values: Vec<String>,
    pub hidden_values: Vec<String>,
    pub inputs: Vec<Arg>,
    pub keys: Vec<Key>,
    pub hidden: bool,
    pub one_of: bool,
}

impl Type {
    pub fn field(&self, name: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.name == name)
    }
    pub fn composite(&self) -> bool {
        matches!(self.kind, Kind::Object | Kind::Interface | Kind::Union)
    }
}

#[derive(Clone, Debug)]
pub struct View {
    pub types: BTreeMap<String, Type>,
    pub roots: BTreeMap<u8, String>,
}

fn dir<'a>(d: &'a [Dir], n: &str) -> Option<&'a Dir> {
    d.iter().find(|d| d.name == n)
}

fn args(v: &[vgql::InputVal]) -> Vec<Arg> {
    v.iter()
        .map(|a| Arg { name: a.name.clone(), ty: a.ty.clone(), default: a.default.clone(), hidden: dir(&a.dirs, "inaccessible").is_some() })
        .collect()
}

fn set_of(d: Option<&Dir>) -> Vec<Sel> {
    d.and_then(|d| d.str_arg("fields")).map(|s| gql::field_set(&s).expect("a field set")).unwrap_or_default()
}

pub const BUILTIN: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];

impl View {
    /// A subgraph's schema.
    pub fn of_subgraph(sdl: &str) -> View {
        let doc = vgql::parse(sdl).unwrap_or_else(|e| panic!("{e}\n{sdl}"));
        let mut types = BTreeMap::new();
        for n in BUILTIN {
            types.insert(n.to_owned(), blank(n, Kind::Scalar));
        }
        let mut roots = BTreeMap::new();
        for d in &doc.defs {
            let Def::Type(t) = d else { continue };
            let x = types.entry(t.name.clone()).or_insert_with(|| blank(&t.name, t.kind));
            x.hidden |= dir(&t.dirs, "inaccessible").is_some();
            x.one_of |= dir(&t.dirs, "oneOf").is_some();
            let all_external = dir(&t.dirs, "external").is_some();
            x.implements.extend(t.implements.iter().cloned());
            x.members.extend(t.members.iter().cloned());
            x.values.extend(t.values.iter().map(|v| v.name.clone()));
            x.hidden_values.extend(t.values.iter().filter(|v| dir(&v.dirs, "inaccessible").is_some()).map(|v| v.name.clone()));
            x.inputs.extend(args(&t.inputs));
            for k in t.dirs.iter().filter(|d| d.name == "key") {
                x.keys.push(Key { sels: set_of(Some(k)), resolvable: k.arg("resolvable") != Some(&Value::Bool(false)) });
            }
            for f in &t.fields {
                x.fields.push(Field {
                    name: f.name.clone(),
                    ty: f.ty.clone(),
                    args: args(&f.args),
                    external: all_external || dir(&f.dirs, "external").is_some(),
                    overridden: false,
                    hidden: dir(&f.dirs, "inaccessible").is_some(),
                    provides: set_of(dir(&f.dirs, "provides")),
                    requires: set_of(dir(&f.dirs, "requires")),
                    override_from: dir(&f.dirs, "override").and_then(|d| d.str_arg("from")),
                });
            }
            for (k, n) in [(0, "Query"), (1, "Mutation"), (2, "Subscription")] {
                if t.name == n {
                    roots.insert(k, n.to_owned());
                }
            }
        }
        View { types, roots }
    }

    /// What a subgraph library adds for the gateway.
    pub fn add_entities(&mut self) {
        let members: Vec<String> = self
            .types
            .values()
            .filter(|t| t.kind == Kind::Object && t.keys.iter().any(|k| k.resolvable))
            .map(|t| t.name.clone())
            .collect();
        if members.is_empty() {
            return;
        }
        let mut u = blank("_Entity", Kind::Union);
        u.members = members;
        self.types.insert("_Entity".into(), u);
        self.types.insert("_Any".into(), blank("_Any", Kind::Scalar));
        let q = self.roots.entry(0).or_insert_with(|| "Query".into()).clone();
        let q = self.types.entry(q.clone()).or_insert_with(|| blank(&q, Kind::Object));
        q.fields.push(Field {
            name: "_entities".into(),
            ty: Ty::named("_Entity").list().non_null(),
            args: vec![Arg {
                name: "representations".into(),
                ty: Ty::named("_Any").non_null().list().non_null(),
                default: None,
                hidden: false,
            }],
            external: false,
            overridden: false,
            hidden: false,
            provides: vec![],
            requires: vec![],
            override_from: None,
        });
    }

    /// Every type and field some subgraph offers.
    pub fn union(subs: &[View]) -> View {
        let mut types: BTreeMap<String, Type> = BTreeMap::new();
        let mut roots = BTreeMap::new();
        for s in subs {
            roots.extend(s.roots.clone());
            for t in s.types.values() {
                let x = types.entry(t.name.clone()).or_insert_with(|| blank(&t.name, t.kind));
                fn add(to: &mut Vec<String>, from: &[String]) {
                    for n in from {
                        if !to.contains(n) {
                            to.push(n.clone());
                        }
                    }
                }
                x.hidden |= t.hidden;
                x.one_of |= t.one_of;
                add(&mut x.implements, &t.implements);
                add(&mut x.members, &t.members);
                add(&mut x.values, &t.values);
                add(&mut x.hidden_values, &t.hidden_values);
                x.keys.extend(t.keys.iter().cloned());
                for a in &t.inputs {
                    match x.inputs.iter_mut().find(|y| y.name == a.name) {
                        Some(y) => y.hidden |= a.hidden,
                        None => x.inputs.push(a.clone()),
                    }
                }
                for f in t.fields.iter().filter(|f| !f.external && !f.overridden) {
                    match x.fields.iter_mut().find(|y| y.name == f.name) {
                        Some(y) => {
                            y.hidden |= f.hidden;
                            if y.requires.is_empty() {
                                y.requires = f.requires.clone();
                            }
                            for (y, a) in y.args.iter_mut().zip(&f.args) {
                                y.hidden |= a.hidden;
                            }
                        }
                        None => x.fields.push(f.clone()),
                    }
                }
            }
        }
        View { types, roots }
    }

    /// Without what is inaccessible.
    pub fn api(mut self) -> View {
        self.types.retain(|_, t| !t.hidden);
        let names: BTreeSet<String> = self.types.keys().cloned().collect();
        for t in self.types.values_mut() {
            t.fields.retain(|f| !f.hidden);
            for f in &mut t.fields {
                f.args.retain(|a| !a.hidden);
            }
            t.inputs.retain(|a| !a.hidden);
            let hidden = std::mem::take(&mut t.hidden_values);
            t.values.retain(|v| !hidden.contains(v));
            t.members.retain(|m| names.contains(m));
            t.implements.retain(|m| names.contains(m));
        }
        self
    }

    pub fn get(&self, name: &str) -> Option<&Type> {
        self.types.get(name)
    }
    pub fn kind(&self, name: &str) -> Option<Kind> {
        self.types.get(name).map(|t| t.kind)
    }
    pub fn root(&self, kind: OpKind) -> Option<&str> {
        self.roots.get(&(kind as u8)).map(|s| s.as_str())
    }
    pub fn leaf(&self, name: &str) -> bool {
        matches!(self.kind(name), Some(Kind::Scalar | Kind::Enum))
    }
    pub fn composite(&self, name: &str) -> bool {
        self.get(name).is_some_and(|t| t.composite())
    }
    /// The object types a value of this type can have.
    pub fn possible(&self, name: &str) -> Vec<String> {
        match self.get(name) {
            Some(t) if t.kind == Kind::Object => vec![name.to_owned()],
            Some(t) if t.kind == Kind::Union => t.members.clone(),
            Some(t) if t.kind == Kind::Interface => self
                .types
                .values()
                .filter(|t| t.kind == Kind::Object && t.implements.iter().any(|i| i == name))
                .map(|t| t.name.clone())
                .collect(),
            _ => vec![],
        }
    }
    pub fn is_a(&self, object: &str, cond: &str) -> bool {
        object == cond
            || self.get(object).is_some_and(|t| t.implements.iter().any(|i| i == cond))
            || self.get(cond).is_some_and(|t| t.kind == Kind::Union && t.members.iter().any(|m| m == object))
    }
}

pub fn blank(name: &str, kind: Kind) -> Type {
    Type {
        name: name.into(),
        kind,
        fields: vec![],
        implements: vec![],
        members: vec![],
        values: vec![],
        hidden_values: vec![],
        inputs: vec![],
        keys: vec![],
        hidden: false,
        one_of: false,
    }
}

pub type Vars = Map<String, J>;
type R<T> = Result<T, String>;

fn number(s: &str) -> J {
    match s.parse::<i64>() {
        Ok(i) => J::from(i),
        Err(_) => serde_json::from_str(s).unwrap_or(J::Null),
    }
}

/// A JSON value given for an input of type `ty`.
pub fn coerce_json(view: &View, ty: &Ty, j: &J) -> R<J> {
    match ty {
        Ty::NonNull(t) => {
            if j.is_null() {
                return Err(format!("null for {}", gql::ty(ty)));
            }
            coerce_json(view, t, j)
        }
        _ if j.is_null() => Ok(J::Null),
        Ty::List(t) => match j {
            J::Array(a) => Ok(J::Array(a.iter().map(|x| coerce_json(view, t, x)).collect::<R<_>>()?)),
            other => Ok(J::Array(vec![coerce_json(view, t, other)?])),
        },
        Ty::Named(n) => {
            let t = view.get(n).ok_or_else(|| format!("no type {n}"))?;
            let bad = || Err(format!("{j} is no {n}"));
            match t.kind {
                Kind::Enum => match j {
                    J::String(s) if t.values.contains(s) => Ok(j.clone()),
                    _ => bad(),
                },
                Kind::Input => {
                    let J::Object(o) = j else { return bad() };
                    if let Some(k) = o.keys().find(|k| !t.inputs.iter().any(|a| a.name == **k)) {
                        return Err(format!("{n} has no field {k}"));
                    }
                    let mut out = Map::new();
                    for a in &t.inputs {
                        match o.get(&a.name) {
                            Some(v) => {
                                out.insert(a.name.clone(), coerce_json(view, &a.ty, v)?);
                            }
                            None => absent(view, a, &mut out)?,
                        }
                    }
                    one_of(t, &out)?;
                    Ok(J::Object(out))
                }
                Kind::Scalar => match (n.as_str(), j) {
                    ("Int", J::Number(x)) => match x.as_i64() {
                        Some(i) if i32::try_from(i).is_ok() => Ok(J::from(i)),
                        // A number without a fraction is an integer whatever its notation.
                        None if x.as_f64().is_some_and(|f| f.fract() == 0.0 && f.abs() < 2147483648.0) => {
                            Ok(J::from(x.as_f64().unwrap() as i64))
                        }
                        _ => bad(),
                    },
                    ("Float", J::Number(x)) => Ok(J::from(x.as_f64().unwrap())),
                    ("String", J::String(_)) | ("Boolean", J::Bool(_)) | ("ID", J::String(_)) => Ok(j.clone()),
                    ("ID", J::Number(x)) if x.is_i64() || x.is_u64() => Ok(J::String(x.to_string())),
                    ("Int" | "Float" | "String" | "Boolean" | "ID", _) => bad(),
                    _ => Ok(j.clone()),
                },
                _ => Err(format!("{n} is no input type")),
            }
        }
    }
}

fn one_of(t: &Type, out: &Map<String, J>) -> R<()> {
    if t.one_of && (out.len() != 1 || out.values().any(|v| v.is_null())) {
        return Err(format!("exactly one field of {} must be given", t.name));
    }
    Ok(())
}

fn absent(view: &View, a: &Arg, out: &mut Map<String, J>) -> R<()> {
    match &a.default {
        Some(d) => {
            out.insert(a.name.clone(), coerce_lit(view, &a.ty, d, &Vars::new())?.unwrap());
        }
        None if a.ty.is_non_null() => return Err(format!("{} is required", a.name)),
        None => {}
    }
    Ok(())
}

fn plain(v: &Value, vars: &Vars) -> J {
    match v {
        Value::Null => J::Null,
        Value::Int(s) | Value::Float(s) => number(s),
        Value::Str(s) | Value::Enum(s) => J::String(s.clone()),
        Value::Bool(b) => J::Bool(*b),
        Value::List(l) => J::Array(l.iter().map(|x| plain(x, vars)).collect()),
        Value::Obj(o) => J::Object(
            o.iter()
                .filter(|(_, v)| !matches!(v, Value::Var(n) if !vars.contains_key(n)))
                .map(|(n, v)| (n.clone(), plain(v, vars)))
                .collect(),
        ),
        Value::Var(n) => vars.get(n).cloned().unwrap_or(J::Null),
    }
}

/// A literal in a document; `None` where a variable has no value.
pub fn coerce_lit(view: &View, ty: &Ty, v: &Value, vars: &Vars) -> R<Option<J>> {
    if let Value::Var(n) = v {
        // Variables were coerced for their own type.
        let Some(j) = vars.get(n) else {
            return if ty.is_non_null() { Err(format!("${n} has no value")) } else { Ok(None) };
        };
        if j.is_null() && ty.is_non_null() {
            return Err(format!("${n} is null where {} is expected", gql::ty(ty)));
        }
        return coerce_json(view, ty, j).map(Some);
    }
    let bad = || Err(format!("{} is no {}", gql::value(v), gql::ty(ty)));
    match ty {
        Ty::NonNull(t) => {
            if *v == Value::Null {
                return bad();
            }
            coerce_lit(view, t, v, vars)
        }
        _ if *v == Value::Null => Ok(Some(J::Null)),
        Ty::List(t) => match v {
            Value::List(l) => {
                let mut out = vec![];
                for x in l {
                    out.push(coerce_lit(view, t, x, vars)?.unwrap_or(J::Null));
                }
                Ok(Some(J::Array(out)))
            }
            other => Ok(Some(J::Array(vec![coerce_lit(view, t, other, vars)?.unwrap_or(J::Null)]))),
        },
        Ty::Named(n) => {
            let t = view.get(n).ok_or_else(|| format!("no type {n}"))?;
            match t.kind {
                Kind::Enum => match v {
                    Value::Enum(s) if t.values.contains(s) => Ok(Some(J::String(s.clone()))),
                    _ => bad(),
                },
                Kind::Input => {
                    let Value::Obj(o) = v else { return bad() };
                    let mut seen = BTreeSet::new();
                    for (k, _) in o {
                        if !t.inputs.iter().any(|a| a.name == *k) {
                            return Err(format!("{n} has no field {k}"));
                        }
                        if !seen.insert(k) {
                            return Err(format!("{k} is given twice"));
                        }
                    }
                    if t.one_of && (o.len() != 1) {
                        return Err(format!("exactly one field of {n} must be given"));
                    }
                    let mut out = Map::new();
                    for a in &t.inputs {
                        let given = match o.iter().find(|(k, _)| *k == a.name) {
                            Some((_, Value::Var(x))) if !vars.contains_key(x) => None,
                            Some((_, v)) => coerce_lit(view, &a.ty, v, vars)?,
                            None => None,
                        };
                        match given {
                            Some(j) => {
                                out.insert(a.name.clone(), j);
                            }
                            None => absent(view, a, &mut out)?,
                        }
                    }
                    one_of(t, &out)?;
                    Ok(Some(J::Object(out)))
                }
                Kind::Scalar => match (n.as_str(), v) {
                    ("Int", Value::Int(s)) => match s.parse::<i32>() {
                        Ok(i) => Ok(Some(J::from(i))),
                        Err(_) => bad(),
                    },
                    ("Float", Value::Int(s) | Value::Float(s)) => match s.parse::<f64>() {
                        Ok(f) if f.is_finite() => Ok(Some(J::from(f))),
                        _ => bad(),
                    },
                    ("String" | "ID", Value::Str(s)) => Ok(Some(J::String(s.clone()))),
                    ("ID", Value::Int(s)) => Ok(Some(J::String(s.clone()))),
                    ("Boolean", Value::Bool(b)) => Ok(Some(J::Bool(*b))),
                    ("Int" | "Float" | "String" | "Boolean" | "ID", _) => bad(),
                    _ => Ok(Some(plain(v, vars))),
                },
                _ => Err(format!("{n} is no input type")),
            }
        }
    }
}

/// The arguments of a field after coercion, in the order of their definition.
pub fn arguments(view: &View, f: &Field, given: &[(String, Value)], vars: &Vars) -> R<Map<String, J>> {
    let mut out = Map::new();
    for a in &f.args {
        let v = match given.iter().find(|(n, _)| *n == a.name) {
            Some((_, Value::Var(x))) if !vars.contains_key(x) => None,
            Some((_, v)) => coerce_lit(view, &a.ty, v, vars).map_err(|e| format!("argument {} of {}: {e}", a.name, f.name))?,
            None => None,
        };
        match v {
            Some(j) => {
                out.insert(a.name.clone(), j);
            }
            None => absent(view, a, &mut out).map_err(|e| format!("argument {} of {}: {e}", a.name, f.name))?,
        }
    }
    Ok(out)
}

pub fn coerce_vars(view: &View, op: &Operation, given: &Map<String, J>) -> R<Vars> {
    let mut out = Vars::new();
    for v in &op.vars {
        match (given.get(&v.name), &v.default) {
            (Some(j), _) => {
                out.insert(v.name.clone(), coerce_json(view, &v.ty, j).map_err(|e| format!("${}: {e}", v.name))?);
            }
            (None, Some(d)) => {
                out.insert(v.name.clone(), coerce_lit(view, &v.ty, d, &Vars::new())?.unwrap());
            }
            (None, None) if v.ty.is_non_null() => return Err(format!("${} is missing", v.name)),
            _ => {}
        }
    }
    Ok(out)
}

/// Whether a selection is kept by `@skip` and `@include`.
pub fn kept(dirs: &[Dir], vars: &Vars) -> bool {
    for d in dirs {
        let on = match d.arg("if") {
            Some(Value::Bool(b)) => *b,
            Some(Value::Var(n)) => vars.get(n) == Some(&J::Bool(true)),
            _ => continue,
        };
        if (d.name == "skip" && on) || (d.name == "include" && !on) {
            return false;
        }
    }
    true
}

/// CollectFields of the specification for an object of type `object`.
pub fn collect<'d>(
    view: &View,
    doc: &'d Document,
    vars: &Vars,
    object: &str,
    sels: &[&'d [Sel]],
) -> Vec<(&'d str, Vec<&'d FieldSel>)> {
    fn go<'d>(
        view: &View,
        doc: &'d Document,
        vars: &Vars,
        object: &str,
        sels: &'d [Sel],
        seen: &mut BTreeSet<&'d str>,
        out: &mut Vec<(&'d str, Vec<&'d FieldSel>)>,
    ) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    if kept(&f.dirs, vars) {
                        match out.iter_mut().find(|(k, _)| *k == f.key()) {
                            Some((_, l)) => l.push(f),
                            None => out.push((f.key(), vec![f])),
                        }
                    }
                }
                Sel::Spread(n, d) => {
                    if kept(d, vars)
                        && let Some(frag) = doc.frag(n)
                        && seen.insert(n)
                        && view.is_a(object, &frag.on)
                    {
                        go(view, doc, vars, object, &frag.sels, seen, out);
                    }
                }
                Sel::Inline(on, d, inner) => {
                    if kept(d, vars) && on.as_ref().is_none_or(|on| view.is_a(object, on)) {
                        go(view, doc, vars, object, inner, seen, out);
                    }
                }
            }
        }
    }
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    for s in sels {
        go(view, doc, vars, object, s, &mut seen, &mut out);
    }
    out
}

// ---------------------------------------------------------------------------------- validation

struct V<'a> {
    view: &'a View,
    doc: &'a Document,
    op: &'a Operation,
    used: BTreeSet<String>,
    frags: BTreeSet<String>,
    errs: Vec<String>,
}

/// What makes an operation invalid for a schema (its first operation is meant to be executed).
pub fn validate(view: &View, doc: &Document) -> Vec<String> {
    let mut errs = vec![];
    let Some(op) = doc.ops.first() else { return vec!["no operation".into()] };
    if doc.ops.len() > 1 {
        errs.push("more than one operation".into());
    }
    let Some(root) = view.root(op.kind) else { return vec![format!("no {:?} root", op.kind)] };
    let mut names = BTreeSet::new();
    for v in &op.vars {
        if !names.insert(&v.name) {
            errs.push(format!("${} is defined twice", v.name));
        }
        match view.kind(v.ty.base()) {
            Some(k) if k.is_input() => {
                if let Some(d) = &v.default
                    && let Err(e) = coerce_lit(view, &v.ty, d, &Vars::new())
                {
                    errs.push(format!("default of ${}: {e}", v.name));
                }
            }
            _ => errs.push(format!("${} has type {}", v.name, gql::ty(&v.ty))),
        }
    }
    let mut names = BTreeSet::new();
    for f in &doc.frags {
        if !names.insert(&f.name) {
            errs.push(format!("fragment {} is defined twice", f.name));
        }
    }
    let mut v = V { view, doc, op, used: BTreeSet::new(), frags: BTreeSet::new(), errs };
    v.sels(root, &op.sels, &mut vec![]);
    for x in &op.vars {
        if !v.used.contains(&x.name) {
            v.errs.push(format!("${} is not used", x.name));
        }
    }
    for f in &doc.frags {
        if !v.frags.contains(&f.name) {
            v.errs.push(format!("fragment {} is not used", f.name));
        }
    }
    if v.errs.is_empty() {
        v.merge(&[(root.to_owned(), &op.sels)]);
    }
    v.errs
}

impl<'a> V<'a> {
    fn sels(&mut self, parent: &str, sels: &'a [Sel], path: &mut Vec<String>) {
        if sels.is_empty() {
            self.errs.push(format!("nothing selected on {parent}"));
        }
        for s in sels {
            match s {
                Sel::Field(f) => {
                    self.dirs(&f.dirs);
                    if f.name == "__typename" {
                        if !f.args.is_empty() || !f.sels.is_empty() {
                            self.errs.push("__typename takes nothing".into());
                        }
                        continue;
                    }
                    let Some(d) = self.view.get(parent).and_then(|t| t.field(&f.name)) else {
                        self.errs.push(format!("{parent} has no field {}", f.name));
                        continue;
                    };
                    let mut seen = BTreeSet::new();
                    for (n, v) in &f.args {
                        if !seen.insert(n) {
                            self.errs.push(format!("argument {n} twice"));
                        }
                        match d.args.iter().find(|a| a.name == *n) {
                            Some(a) => self.value(&a.ty, a.default.is_some(), v),
                            None => self.errs.push(format!("{parent}.{} has no argument {n}", f.name)),
                        }
                    }
                    for a in &d.args {
                        if a.ty.is_non_null() && a.default.is_none() && !f.args.iter().any(|(n, _)| *n == a.name) {
                            self.errs.push(format!("{parent}.{} requires {}", f.name, a.name));
                        }
                    }
                    let base = d.ty.base().to_owned();
                    if self.view.composite(&base) {
                        self.sels(&base, &f.sels, path);
                    } else if !f.sels.is_empty() {
                        self.errs.push(format!("{parent}.{} is a leaf", f.name));
                    }
                }
                Sel::Spread(n, d) => {
                    self.dirs(d);
                    self.frags.insert(n.clone());
                    let Some(frag) = self.doc.frag(n) else {
                        self.errs.push(format!("no fragment {n}"));
                        continue;
                    };
                    if path.contains(n) {
                        self.errs.push(format!("fragment {n} contains itself"));
                        continue;
                    }
                    self.cond(parent, &frag.on);
                    path.push(n.clone());
                    self.sels(&frag.on, &frag.sels, path);
                    path.pop();
                }
                Sel::Inline(on, d, inner) => {
                    self.dirs(d);
                    let on = on.as_deref().unwrap_or(parent);
                    self.cond(parent, on);
                    self.sels(on, inner, path);
                }
            }
        }
    }

    fn cond(&mut self, parent: &str, on: &str) {
        if !self.view.composite(on) {
            self.errs.push(format!("a fragment on {on}"));
            return;
        }
        let a = self.view.possible(parent);
        if !self.view.possible(on).iter().any(|x| a.contains(x)) {
            self.errs.push(format!("a fragment on {on} inside {parent} can never apply"));
        }
    }

    fn dirs(&mut self, dirs: &[Dir]) {
        let mut seen = BTreeSet::new();
        for d in dirs {
            if !seen.insert(&d.name) {
                self.errs.push(format!("@{} twice", d.name));
            }
            if d.name != "skip" && d.name != "include" {
                self.errs.push(format!("unknown @{}", d.name));
                continue;
            }
            match d.arg("if") {
                Some(v) if d.args.len() == 1 => self.value(&Ty::named("Boolean").non_null(), false, v),
                _ => self.errs.push(format!("arguments of @{}", d.name)),
            }
        }
    }

    fn value(&mut self, ty: &Ty, has_default: bool, v: &Value) {
        match v {
            Value::Var(n) => {
                self.used.insert(n.clone());
                let Some(def) = self.op.vars.iter().find(|x| x.name == *n) else {
                    self.errs.push(format!("${n} is not defined"));
                    return;
                };
                let nullable_ok = has_default || def.default.as_ref().is_some_and(|d| *d != Value::Null);
                let want = if ty.is_non_null() && !def.ty.is_non_null() && nullable_ok { ty.clone().nullable() } else { ty.clone() };
                if !fits(&def.ty, &want) {
                    self.errs.push(format!("${n} of type {} where {} is expected", gql::ty(&def.ty), gql::ty(ty)));
                }
            }
            Value::List(l) => match ty.clone().nullable() {
                Ty::List(t) => l.iter().for_each(|x| self.value(&t, false, x)),
                t if self.custom(t.base()) => self.vars_in(v),
                t => self.errs.push(format!("a list where {} is expected", gql::ty(&t))),
            },
            Value::Obj(o) => {
                let mut t = ty.clone().nullable();
                while let Ty::List(x) = t {
                    t = x.nullable();
                }
                match self.view.get(t.base()) {
                    Some(d) if d.kind == Kind::Input => {
                        let mut seen = BTreeSet::new();
                        for (n, v) in o {
                            if !seen.insert(n) {
                                self.errs.push(format!("{n} is given twice"));
                            }
                            match d.inputs.iter().find(|a| a.name == *n) {
                                Some(a) => {
                                    self.value(&a.ty, a.default.is_some(), v);
                                    if d.one_of && let Value::Var(n) = v {
                                        let def = self.op.vars.iter().find(|x| x.name == *n);
                                        if def.is_some_and(|d| !d.ty.is_non_null()) {
                                            self.errs.push(format!("nullable ${n} in a oneOf"));
                                        }
                                    }
                                }
                                None => self.errs.push(format!("{} has no field {n}", d.name)),
                            }
                        }
                        for a in &d.inputs {
                            if a.ty.is_non_null() && a.default.is_none() && !seen.contains(&a.name) {
                                self.errs.push(format!("{}.{} is required", d.name, a.name));
                            }
                        }
                        if d.one_of && (o.len() != 1 || o[0].1 == Value::Null) {
                            self.errs.push(format!("exactly one field of {} must be given", d.name));
                        }
                    }
                    _ if self.custom(t.base()) => self.vars_in(v),
                    _ => self.errs.push(format!("an object where {} is expected", gql::ty(&t))),
                }
            }
            v => {
                if let Err(e) = coerce_lit(self.view, ty, v, &Vars::new()) {
                    self.errs.push(e);
                }
            }
        }
    }

    fn custom(&self, n: &str) -> bool {
        self.view.kind(n) == Some(Kind::Scalar) && !BUILTIN.contains(&n)
    }

    fn vars_in(&mut self, v: &Value) {
        match v {
            Value::Var(n) => {
                self.used.insert(n.clone());
                if !self.op.vars.iter().any(|x| x.name == *n) {
                    self.errs.push(format!("${n} is not defined"));
                }
            }
            Value::List(l) => l.iter().for_each(|x| self.vars_in(x)),
            Value::Obj(o) => o.iter().for_each(|(_, x)| self.vars_in(x)),
            _ => {}
        }
    }

    /// FieldsInSetCanMerge (fragments cannot be cyclic here).
    fn merge(&mut self, sets: &[(String, &'a [Sel])]) {
        let mut groups: Vec<(&'a str, Vec<(String, &'a FieldSel)>)> = vec![];
        for (parent, sels) in sets {
            self.gather(parent, sels, &mut groups);
        }
        for (key, fields) in groups {
            for i in 0..fields.len() {
                for j in i + 1..fields.len() {
                    let ((p, a), (q, b)) = (&fields[i], &fields[j]);
                    let (ta, tb) = (self.field_ty(p, a), self.field_ty(q, b));
                    if !self.same_shape(&ta, &tb) {
                        self.errs.push(format!("{key}: {p}.{} and {q}.{} have different shapes", a.name, b.name));
                    }
                    let apart =
                        p != q && self.view.kind(p) == Some(Kind::Object) && self.view.kind(q) == Some(Kind::Object);
                    if !apart && (a.name != b.name || sorted(&a.args) != sorted(&b.args)) {
                        self.errs.push(format!("{key}: {p}.{} and {q}.{} differ", a.name, b.name));
                    }
                }
            }
            // Merged per pair of overlapping parents; merging all of them is stricter only for parents that exclude each
            // other, where the shapes alone have to agree.
            let overlapping: Vec<&(String, &FieldSel)> = fields.iter().collect();
            let mut by_parent: BTreeMap<String, Vec<(String, &'a [Sel])>> = BTreeMap::new();
            for (p, f) in &overlapping {
                let base = self.field_ty(p, f).base().to_owned();
                if self.view.composite(&base) {
                    for q in self.view.possible(p) {
                        by_parent.entry(q).or_default().push((base.clone(), &f.sels));
                    }
                }
            }
            let mut done = BTreeSet::new();
            for (_, sets) in by_parent {
                let id: Vec<usize> = sets.iter().map(|(_, s)| s.as_ptr() as usize).collect();
                if done.insert(id) {
                    self.merge(&sets);
                }
            }
            // Shapes across parents that exclude each other.
            let all: Vec<(String, &'a [Sel])> = overlapping
                .iter()
                .filter(|(p, f)| self.view.composite(self.field_ty(p, f).base()))
                .map(|(p, f)| (self.field_ty(p, f).base().to_owned(), &f.sels[..]))
                .collect();
            if all.len() > 1 {
                self.shapes(&all);
            }
        }
    }

    fn shapes(&mut self, sets: &[(String, &'a [Sel])]) {
        let mut groups: Vec<(&'a str, Vec<(String, &'a FieldSel)>)> = vec![];
        for (parent, sels) in sets {
            self.gather(parent, sels, &mut groups);
        }
        for (key, fields) in groups {
            let mut next = vec![];
            for (p, f) in &fields {
                let t = self.field_ty(p, f);
                if !self.same_shape(&self.field_ty(&fields[0].0, fields[0].1), &t) {
                    self.errs.push(format!("{key}: the shapes of {}.{} and {p}.{} differ", fields[0].0, fields[0].1.name, f.name));
                }
                if self.view.composite(t.base()) {
                    next.push((t.base().to_owned(), &f.sels[..]));
                }
            }
            if next.len() > 1 {
                self.shapes(&next);
            }
        }
    }

    fn gather(&self, parent: &str, sels: &'a [Sel], out: &mut Vec<(&'a str, Vec<(String, &'a FieldSel)>)>) {
        for s in sels {
            match s {
                Sel::Field(f) => match out.iter_mut().find(|(k, _)| *k == f.key()) {
                    Some((_, l)) => l.push((parent.to_owned(), f)),
                    None => out.push((f.key(), vec![(parent.to_owned(), f)])),
                },
                Sel::Spread(n, _) => {
                    if let Some(f) = self.doc.frag(n) {
                        self.gather(&f.on, &f.sels, out)
                    }
                }
                Sel::Inline(on, _, inner) => self.gather(on.as_deref().unwrap_or(parent), inner, out),
            }
        }
    }

    fn field_ty(&self, parent: &str, f: &FieldSel) -> Ty {
        if f.name == "__typename" {
            return Ty::named("String").non_null();
        }
        self.view.get(parent).and_then(|t| t.field(&f.name)).map(|f| f.ty.clone()).unwrap_or(Ty::named("String"))
    }

    fn same_shape(&self, a: &Ty, b: &Ty) -> bool {
        match (a, b) {
            (Ty::NonNull(a), Ty::NonNull(b)) | (Ty::List(a), Ty::List(b)) => self.same_shape(a, b),
            (Ty::Named(a), Ty::Named(b)) => a == b || (self.view.composite(a) && self.view.composite(b)),
            _ => false,
        }
    }
}

fn sorted(a: &[(String, Value)]) -> Vec<&(String, Value)> {
    let mut a: Vec<_> = a.iter().collect();
    a.sort();
    a
}

/// Whether a variable of type `a` may stand where `b` is expected.
fn fits(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::NonNull(a), Ty::NonNull(b)) => fits(a, b),
        (Ty::NonNull(a), b) => fits(a, b),
        (_, Ty::NonNull(_)) => false,
        (Ty::List(a), Ty::List(b)) => fits(a, b),
        (Ty::Named(a), Ty::Named(b)) => a == b,
        _ => false,
    }
}

/// Whether a field belongs to some key of the type.
pub fn in_key(view: &View, ty: &str, field: &str) -> bool {
    view.get(ty).is_some_and(|t| t.keys.iter().any(|k| k.sels.iter().any(|s| matches!(s, Sel::Field(f) if f.name == field))))
}

/// The sub-selection of a field within what is provided, if it is.
pub fn provided(view: &View, set: &[Sel], ty: &str, field: &str) -> Option<Vec<Sel>> {
    let mut found: Option<Vec<Sel>> = None;
    for s in set {
        match s {
            Sel::Field(f) if f.name == field => found.get_or_insert_default().extend(f.sels.clone()),
            Sel::Inline(on, _, inner) if on.as_ref().is_none_or(|on| view.is_a(ty, on)) => {
                if let Some(x) = provided(view, inner, ty, field) {
                    found.get_or_insert_default().extend(x);
                }
            }
            _ => {}
        }
    }
    found
}
