//! Random operations that are valid for a schema, what they use of it, and whether they are valid for another one.
use crate::model::{Schema, Type};
use crate::schemas;
use std::collections::{BTreeMap, BTreeSet};
use vcommon::Rng;
use vgql::*;

#[derive(Clone, Debug)]
pub enum Sel {
    Field { alias: Option<String>, name: String, args: Vec<(String, Value)>, sels: Vec<Sel> },
    Inline { on: Option<String>, sels: Vec<Sel> },
    Spread(String),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: &'static str,
    pub vars: Vec<(String, Ty, Option<Value>)>,
    pub sels: Vec<Sel>,
    /// name, type condition, contents; later ones may spread earlier ones
    pub fragments: Vec<(String, String, Vec<Sel>)>,
}

pub fn root(s: &Schema, kind: &str) -> String {
    s.roots.as_ref().and_then(|r| r.get(kind).cloned()).unwrap_or_else(|| match kind {
        "query" => "Query".into(),
        "mutation" => "Mutation".into(),
        _ => "Subscription".into(),
    })
}

/// The object types a value of composite type `name` may have.
pub fn possible(s: &Schema, name: &str) -> BTreeSet<String> {
    match s.types.get(name).map(|t| t.kind) {
        Some(Kind::Object) => BTreeSet::from([name.to_owned()]),
        Some(Kind::Union) => s.types[name].members.clone(),
        Some(Kind::Interface) => s
            .types
            .iter()
            .filter(|(_, t)| t.kind == Kind::Object && t.implements.contains(name))
            .map(|(n, _)| n.clone())
            .collect(),
        _ => BTreeSet::new(),
    }
}

pub fn composite(k: Kind) -> bool {
    matches!(k, Kind::Object | Kind::Interface | Kind::Union)
}

struct Gen<'a> {
    s: &'a Schema,
    doc: &'a Doc,
    vars: Option<Vec<(String, Ty, Option<Value>)>>,
    fragments: Vec<(String, String)>,
    aliases: usize,
}

/// A random operation. `doc` is the schema with extensions merged.
pub fn generate(rng: &mut Rng, s: &Schema, doc: &Doc) -> Option<Op> {
    let kinds: Vec<&'static str> = ["query", "query", "mutation", "subscription"]
        .into_iter()
        .filter(|k| s.types.get(&root(s, k)).is_some_and(|t| !t.fields.is_empty()))
        .collect();
    if kinds.is_empty() {
        return None;
    }
    let kind = *rng.pick(&kinds);
    let mut g = Gen { s, doc, vars: None, fragments: vec![], aliases: 0 };
    let mut fragments = vec![];
    let composites: Vec<&String> = s.types.iter().filter(|(_, t)| composite(t.kind)).map(|(n, _)| n).collect();
    for i in 0..[0, 0, 1, 2, 3][rng.below(5)] {
        let on = rng.pick(&composites).to_string();
        let sels = g.selection(rng, &on, 2);
        let name = rng.str(&["F", "Item", "Fragment", "A"]).to_owned() + &i.to_string();
        g.fragments.push((name.clone(), on.clone()));
        fragments.push((name, on, sels));
    }
    g.vars = Some(vec![]);
    let sels = g.selection(rng, &root(s, kind), 3);
    Some(Op { kind, vars: g.vars.unwrap(), sels, fragments })
}

impl Gen<'_> {
    fn selection(&mut self, rng: &mut Rng, parent: &str, depth: usize) -> Vec<Sel> {
        let t = &self.s.types[parent];
        let mut out = vec![];
        let fields: Vec<&Field> = t.fields.values().collect();
        for _ in 0..rng.range(1, 4) {
            if rng.pct(if depth == 0 { 5 } else if fields.is_empty() { 80 } else { 25 }) {
                let here = possible(self.s, parent);
                let overlap = |on: &String| possible(self.s, on).intersection(&here).next().is_some();
                if rng.pct(30) {
                    let usable: Vec<String> = self.fragments.iter().filter(|f| overlap(&f.1)).map(|f| f.0.clone()).collect();
                    if !usable.is_empty() {
                        out.push(Sel::Spread(rng.pick(&usable).clone()));
                        continue;
                    }
                }
                if rng.pct(10) {
                    let sels = self.selection(rng, parent, depth.saturating_sub(1));
                    out.push(Sel::Inline { on: None, sels });
                    continue;
                }
                let on: Vec<String> = self.s.types.keys().filter(|n| overlap(n)).cloned().collect();
                if !on.is_empty() {
                    let on = rng.pick(&on).clone();
                    let sels = self.selection(rng, &on, depth.saturating_sub(1));
                    out.push(Sel::Inline { on: Some(on), sels });
                }
            } else if !fields.is_empty() {
                let f = *rng.pick(&fields);
                if let Some(f) = self.field(rng, f, depth) {
                    out.push(f);
                }
            }
        }
        if out.is_empty() || rng.pct(10) {
            out.push(Sel::Field { alias: None, name: "__typename".into(), args: vec![], sels: vec![] });
        }
        out
    }

    fn field(&mut self, rng: &mut Rng, f: &Field, depth: usize) -> Option<Sel> {
        let mut args = vec![];
        for a in &f.args {
            let required = a.ty.is_non_null() && a.default.is_none();
            if !required && rng.bool() {
                continue;
            }
            match self.value(rng, a) {
                Some(v) => args.push((a.name.clone(), v)),
                None if required => return None,
                None => {}
            }
        }
        rng.shuffle(&mut args);
        let base = f.ty.base();
        let sels = match self.s.types.get(base) {
            Some(t) if composite(t.kind) => {
                if depth == 0 {
                    vec![Sel::Field { alias: None, name: "__typename".into(), args: vec![], sels: vec![] }]
                } else {
                    self.selection(rng, base, depth - 1)
                }
            }
            _ => vec![],
        };
        self.aliases += 1;
        let alias = (rng.bool() || !args.is_empty()).then(|| format!("a{}", self.aliases));
        Some(Sel::Field { alias, name: f.name.clone(), args, sels })
    }

    fn value(&mut self, rng: &mut Rng, a: &InputVal) -> Option<Value> {
        if self.vars.is_some() && rng.pct(35) {
            let ty = if rng.pct(20) { a.ty.clone().nullable().non_null() } else { a.ty.clone() };
            let default = if rng.pct(30) { schemas::constant(rng, self.doc, &ty, 0) } else { None };
            let vars = self.vars.as_mut().unwrap();
            let name = format!("v{}", vars.len());
            vars.push((name.clone(), ty, default));
            return Some(Value::Var(name));
        }
        schemas::constant(rng, self.doc, &a.ty, 0)
    }
}

fn show_sels(rng: &mut Rng, sels: &[Sel], out: &mut String) {
    out.push_str(" {");
    for s in sels {
        out.push_str(rng.str(&[" ", "\n  ", ", "]));
        match s {
            Sel::Field { alias, name, args, sels } => {
                if let Some(a) = alias {
                    *out += &format!("{a}: ");
                }
                *out += name;
                if !args.is_empty() {
                    let args: Vec<String> = args.iter().map(|(n, v)| format!("{n}: {v}")).collect();
                    *out += &format!("({})", args.join(rng.str(&[", ", " "])));
                }
                if rng.pct(5) {
                    out.push_str(rng.str(&[" @skip(if: false)", " @include(if: true)"]));
                }
                if !sels.is_empty() {
                    show_sels(rng, sels, out);
                }
            }
            Sel::Inline { on, sels } => {
                out.push_str("...");
                if let Some(on) = on {
                    *out += &format!(" on {on}");
                }
                if rng.pct(10) {
                    out.push_str(" @include(if: true)");
                }
                show_sels(rng, sels, out);
            }
            Sel::Spread(n) => *out += &format!("...{n}"),
        }
    }
    out.push_str(" }");
}

pub fn show(rng: &mut Rng, op: &Op) -> String {
    let mut main = String::new();
    if op.kind != "query" || !op.vars.is_empty() || rng.bool() {
        main.push_str(op.kind);
        if rng.bool() {
            main.push_str(" Named");
        }
        if !op.vars.is_empty() {
            let vars: Vec<String> = op
                .vars
                .iter()
                .map(|(n, t, d)| format!("${n}: {t}{}", d.as_ref().map(|d| format!(" = {d}")).unwrap_or_default()))
                .collect();
            main += &format!("({})", vars.join(", "));
        }
    }
    show_sels(rng, &op.sels, &mut main);
    let mut parts = vec![main];
    for (n, on, sels) in &op.fragments {
        let mut s = format!("fragment {n} on {on}");
        show_sels(rng, sels, &mut s);
        parts.push(s);
    }
    rng.shuffle(&mut parts);
    parts.join("\n")
}

/// What operations use, and how often.
#[derive(Clone, Debug, Default)]
pub struct Usage {
    pub fields: BTreeMap<(String, String), u64>,
    pub provided: BTreeMap<(String, String, String), u64>,
    pub left_out: BTreeMap<(String, String, String), u64>,
    /// (type selected on, type condition)
    pub conditions: BTreeMap<(String, String), u64>,
    pub values: BTreeMap<(String, String), u64>,
}

impl Usage {
    pub fn operation(&mut self, s: &Schema, op: &Op, weight: u64) {
        for (_, ty, default) in &op.vars {
            if let Some(d) = default {
                self.constants(s, ty.base(), d, weight);
            }
        }
        self.sels(s, op, &op.sels, &root(s, op.kind), weight);
    }

    fn sels(&mut self, s: &Schema, op: &Op, sels: &[Sel], parent: &str, weight: u64) {
        for sel in sels {
            match sel {
                Sel::Spread(n) => {
                    let f = op.fragments.iter().find(|f| f.0 == *n).unwrap();
                    *self.conditions.entry((parent.into(), f.1.clone())).or_default() += weight;
                    self.sels(s, op, &f.2, &f.1, weight);
                }
                Sel::Inline { on: None, sels } => self.sels(s, op, sels, parent, weight),
                Sel::Inline { on: Some(on), sels } => {
                    *self.conditions.entry((parent.into(), on.clone())).or_default() += weight;
                    self.sels(s, op, sels, on, weight);
                }
                Sel::Field { name, args, sels, .. } => {
                    let Some(f) = s.types[parent].fields.get(name) else { continue };
                    *self.fields.entry((parent.into(), name.clone())).or_default() += weight;
                    for a in &f.args {
                        let key = (parent.to_owned(), name.clone(), a.name.clone());
                        match args.iter().find(|x| x.0 == a.name) {
                            Some((_, v)) => {
                                *self.provided.entry(key).or_default() += weight;
                                self.constants(s, a.ty.base(), v, weight);
                            }
                            None => *self.left_out.entry(key).or_default() += weight,
                        }
                    }
                    self.sels(s, op, sels, f.ty.base(), weight);
                }
            }
        }
    }

    /// Enum values in a constant for type `base` (or lists of it).
    fn constants(&mut self, s: &Schema, base: &str, v: &Value, weight: u64) {
        match v {
            Value::Enum(e) => *self.values.entry((base.into(), e.clone())).or_default() += weight,
            Value::List(vs) => vs.iter().for_each(|v| self.constants(s, base, v, weight)),
            Value::Obj(o) => {
                for (n, v) in o {
                    if let Some(f) = s.types.get(base).and_then(|t| t.inputs.get(n)) {
                        self.constants(s, f.ty.base(), v, weight);
                    }
                }
            }
            _ => {}
        }
    }

    pub fn threshold(&mut self, min: u64) {
        self.fields.retain(|_, n| *n >= min);
        self.provided.retain(|_, n| *n >= min);
        self.left_out.retain(|_, n| *n >= min);
        self.conditions.retain(|_, n| *n >= min);
        self.values.retain(|_, n| *n >= min);
    }

    /// Everything is used in every way.
    pub fn everything(s: &Schema) -> Usage {
        let mut u = Usage::default();
        for (n, t) in &s.types {
            for (f, x) in &t.fields {
                u.fields.insert((n.clone(), f.clone()), 1);
                for a in &x.args {
                    u.provided.insert((n.clone(), f.clone(), a.name.clone()), 1);
                    u.left_out.insert((n.clone(), f.clone(), a.name.clone()), 1);
                }
            }
            for v in t.values.keys() {
                u.values.insert((n.clone(), v.clone()), 1);
            }
            for m in s.types.keys() {
                u.conditions.insert((n.clone(), m.clone()), 1);
            }
        }
        u
    }

    /// Input object types reachable from the arguments in use.
    pub fn inputs(&self, s: &Schema) -> BTreeSet<String> {
        let mut todo: Vec<String> = self
            .provided
            .keys()
            .filter_map(|(t, f, a)| s.types.get(t)?.fields.get(f)?.arg(a).map(|a| a.ty.base().to_owned()))
            .collect();
        let mut out = BTreeSet::new();
        while let Some(t) = todo.pop() {
            match s.types.get(&t) {
                Some(Type { kind: Kind::Input, inputs, .. }) if out.insert(t.clone()) => {
                    todo.extend(inputs.values().map(|f| f.ty.base().to_owned()))
                }
                _ => {}
            }
        }
        out
    }
}

/// How two types differ as wrappers of the same base.
#[derive(Debug, Default, Clone, Copy)]
pub struct Wrap {
    pub other: bool,
    pub added: bool,
    pub removed: bool,
    pub outer_added: bool,
}

pub fn compare(a: &Ty, b: &Ty) -> Wrap {
    fn go(a: &Ty, b: &Ty, outer: bool, w: &mut Wrap) {
        match (a, b) {
            (Ty::NonNull(a), Ty::NonNull(b)) => go(a, b, outer, w),
            (Ty::NonNull(a), b) => {
                w.removed = true;
                go(a, b, outer, w)
            }
            (a, Ty::NonNull(b)) => {
                w.added = true;
                w.outer_added |= outer;
                go(a, b, outer, w)
            }
            (Ty::List(a), Ty::List(b)) => go(a, b, false, w),
            (Ty::Named(a), Ty::Named(b)) => w.other |= a != b,
            _ => w.other = true,
        }
    }
    let mut w = Wrap::default();
    go(a, b, true, &mut w);
    w
}

/// The first reason why an operation that is valid for `s` breaks with `t`: it is not valid any more, or it gets other
/// types of results. `doc` is `t` as a document.
pub fn breaks(s: &Schema, t: &Schema, doc: &Doc, op: &Op) -> Option<String> {
    for (n, ty, d) in &op.vars {
        let ok = BUILTIN_SCALARS.contains(&ty.base()) || t.types.get(ty.base()).is_some_and(|t| t.kind.is_input());
        if !ok {
            return Some(format!("variable {n} has type {ty}"));
        }
        if d.as_ref().is_some_and(|d| !schemas::fits(doc, d, ty)) {
            return Some(format!("default of variable {n}"));
        }
    }
    let r = root(t, op.kind);
    if t.types.get(&r).is_none() {
        return Some(format!("no {}", op.kind));
    }
    breaks_in(s, t, doc, op, &op.sels, &root(s, op.kind), &r)
}

fn breaks_in(s: &Schema, t: &Schema, doc: &Doc, op: &Op, sels: &[Sel], old: &str, new: &str) -> Option<String> {
    for sel in sels {
        let (on, sels) = match sel {
            Sel::Spread(n) => {
                let f = op.fragments.iter().find(|f| f.0 == *n).unwrap();
                (Some(&f.1), &f.2)
            }
            Sel::Inline { on, sels } => (on.as_ref(), sels),
            Sel::Field { name, args, sels, .. } => {
                if name == "__typename" {
                    continue;
                }
                let place = format!("{new}.{name}");
                let (x, y) = (&s.types[old].fields[name], t.types.get(new).and_then(|t| t.fields.get(name)));
                let Some(y) = y else { return Some(format!("{place} is gone")) };
                let w = compare(&x.ty, &y.ty);
                if w.other || w.removed {
                    return Some(format!("{place} becomes {}", y.ty));
                }
                for (a, v) in args {
                    let Some(ya) = y.arg(a) else { return Some(format!("argument {a} of {place} is gone")) };
                    let ok = match v {
                        Value::Var(n) => {
                            let (_, ty, d) = op.vars.iter().find(|v| v.0 == *n).unwrap();
                            let relaxed = !ty.is_non_null()
                                && ya.ty.is_non_null()
                                && (ya.default.is_some() || d.as_ref().is_some_and(|d| *d != Value::Null));
                            let w = compare(ty, &if relaxed { ya.ty.clone().nullable() } else { ya.ty.clone() });
                            !w.other && !w.added
                        }
                        // Explicit nulls for an argument that has a default are not tracked.
                        Value::Null if ya.default.is_some() => true,
                        v => schemas::fits(doc, v, &ya.ty),
                    };
                    if !ok {
                        return Some(format!("value of argument {a} of {place}"));
                    }
                }
                for a in &y.args {
                    if a.ty.is_non_null() && a.default.is_none() && args.iter().all(|x| x.0 != a.name) {
                        return Some(format!("argument {} of {place} is required", a.name));
                    }
                }
                if !sels.is_empty() {
                    if let Some(e) = breaks_in(s, t, doc, op, sels, x.ty.base(), y.ty.base()) {
                        return Some(e);
                    }
                }
                continue;
            }
        };
        let (old, new) = match on {
            None => (old, new),
            Some(on) => {
                if t.types.get(on).is_none_or(|t| !composite(t.kind)) {
                    return Some(format!("condition on {on}"));
                }
                // Conditions that become impossible are reported only for the pair of types that are not related any more, by the
                // documented rules of the checks: not when a third type was what related them.
                let direct = |a: &str, b: &str| {
                    let x = &s.types[a];
                    x.implements.contains(b) || x.members.contains(b)
                };
                let related = |a: &str, b: &str| {
                    let x = &t.types[a];
                    x.implements.contains(b) || x.members.contains(b)
                };
                if direct(on, old) && !related(on, new) || direct(old, on) && !related(new, on) {
                    return Some(format!("condition on {on} in {new} is impossible"));
                }
                (on.as_str(), on.as_str())
            }
        };
        if let Some(e) = breaks_in(s, t, doc, op, sels, old, new) {
            return Some(e);
        }
    }
    None
}
