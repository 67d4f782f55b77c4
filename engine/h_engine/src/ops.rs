//! Generates valid operations for a schema.
use crate::{
    gql::{Document, FieldSel, Fragment, OpKind, Operation, Sel, VarDef},
    view::{self, Field, View},
};
use serde_json::{Map, Value as J};
use vcommon::Rng;
use vgql::{Dir, Kind, Ty, Value};

#[derive(Clone, Debug)]
pub struct Op {
    pub doc: Document,
    pub vars: Map<String, J>,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub depth: usize,
    pub width: usize,
    pub variables: bool,
    pub fragments: bool,
    pub conditions: bool,
    pub aliases: u32,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            depth: r.range(2, 5),
            width: r.range(1, 4),
            variables: r.pct(70),
            fragments: r.pct(70),
            conditions: r.pct(40),
            aliases: *r.pick(&[0, 10, 30]),
        }
    }
}

struct G<'a> {
    view: &'a View,
    r: &'a mut Rng,
    style: Style,
    vars: Vec<VarDef>,
    values: Map<String, J>,
    frags: Vec<Fragment>,
    counter: usize,
    budget: usize,
}

/// A valid operation, if one was found.
pub fn generate(view: &View, r: &mut Rng, kind: OpKind, style: Style) -> Option<Op> {
    let root = view.root(kind)?.to_owned();
    for attempt in 0..6 {
        let mut style = style;
        if attempt > 3 {
            style.aliases = 100;
        }
        if attempt > 4 {
            style.conditions = false;
        }
        let mut g = G { view, r, style, vars: vec![], values: Map::new(), frags: vec![], counter: 0, budget: 60 };
        let mut sels = g.set(&root, style.depth);
        if sels.is_empty() {
            sels.push(typename(None));
        }
        let name = if g.r.pct(30) { Some(format!("Op{}", g.r.below(3))) } else { None };
        let G { vars, values, frags, .. } = g;
        let doc = Document { ops: vec![Operation { kind, name, vars, sels }], frags };
        if style.conditions && mixed_conditions(&doc) {
            continue;
        }
        if view::validate(view, &doc).is_empty() && view::coerce_vars(view, &doc.ops[0], &values).is_ok() {
            return Some(Op { doc, vars: values });
        }
    }
    None
}

/// Whether a response key is selected several times in one place, under different @skip/@include. (The types that
/// fragments apply to are not looked at.)
pub fn mixed_conditions(doc: &Document) -> bool {
    type At<'a> = Vec<(&'a FieldSel, Vec<String>)>;
    fn flat<'a>(doc: &'a Document, sels: &'a [Sel], under: &[String], out: &mut At<'a>) {
        let with = |dirs: &[Dir]| {
            let mut all = under.to_vec();
            all.extend(dirs.iter().map(|d| format!("{d:?}")));
            all.sort();
            all.dedup();
            all
        };
        for s in sels {
            match s {
                Sel::Field(f) => out.push((f, with(&f.dirs))),
                Sel::Inline(_, dirs, sels) => flat(doc, sels, &with(dirs), out),
                Sel::Spread(name, dirs) => {
                    if let Some(f) = doc.frags.iter().find(|f| f.name == *name) {
                        flat(doc, &f.sels, &with(dirs), out)
                    }
                }
            }
        }
    }
    fn mixed(doc: &Document, sets: &[&[Sel]]) -> bool {
        let mut all = vec![];
        for s in sets {
            flat(doc, s, &[], &mut all);
        }
        let mut keys: std::collections::BTreeMap<&str, At> = Default::default();
        for (f, c) in all {
            keys.entry(f.alias.as_deref().unwrap_or(&f.name)).or_default().push((f, c));
        }
        keys.values().any(|group| {
            let below: Vec<&[Sel]> = group.iter().map(|(f, _)| &f.sels[..]).collect();
            group.iter().any(|(_, c)| *c != group[0].1) || mixed(doc, &below)
        })
    }
    doc.ops.iter().any(|o| mixed(doc, &[&o.sels]))
}

fn typename(alias: Option<String>) -> Sel {
    Sel::Field(FieldSel { alias, name: "__typename".into(), args: vec![], dirs: vec![], sels: vec![] })
}

impl G<'_> {
    fn set(&mut self, ty: &str, depth: usize) -> Vec<Sel> {
        let t = self.view.get(ty).unwrap().clone();
        let mut out: Vec<Sel> = vec![];
        let n = self.r.range(1, self.style.width + 1);
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            if self.r.pct(12) {
                let alias = if self.r.pct(20) { Some(self.fresh()) } else { None };
                out.push(typename(alias));
                continue;
            }
            let abs = t.kind != Kind::Object;
            if t.kind == Kind::Union || (self.style.fragments && depth > 0 && self.r.pct(if abs { 50 } else { 12 })) {
                out.extend(self.fragment(ty, depth));
                continue;
            }
            let usable: Vec<&Field> = t.fields.iter().filter(|f| depth > 0 || self.view.leaf(f.ty.base())).collect();
            if usable.is_empty() {
                continue;
            }
            let f = (*self.r.pick(&usable)).clone();
            if let Some(s) = self.field(&f, depth) {
                out.push(s);
            }
        }
        // Something has to be selected whatever the directives say.
        let plain = out.iter().any(|s| !matches!(s, Sel::Spread(..)));
        if out.is_empty() || (!plain && self.r.pct(50)) {
            out.push(typename(None));
        }
        if self.r.pct(10) && out.len() > 1 {
            let again = self.r.pick(&out).clone();
            out.push(again);
        }
        out
    }

    fn fresh(&mut self) -> String {
        self.counter += 1;
        format!("{}{}", self.r.str(&["a", "_x", "Name", "id"]), self.counter)
    }

    fn conditions(&mut self) -> Vec<Dir> {
        let mut out = vec![];
        if self.style.conditions {
            for n in ["skip", "include"] {
                if self.r.pct(10) {
                    let v = self.argument(&Ty::named("Boolean").non_null());
                    out.push(Dir { name: n.into(), args: vec![("if".into(), v)] });
                }
            }
        }
        out
    }

    fn fragment(&mut self, ty: &str, depth: usize) -> Option<Sel> {
        let possible = self.view.possible(ty);
        let mut conds: Vec<String> = self
            .view
            .types
            .values()
            .filter(|t| t.composite() && self.view.possible(&t.name).iter().any(|p| possible.contains(p)))
            .filter(|t| !self.view.roots.values().any(|r| *r == t.name))
            .map(|t| t.name.clone())
            .collect();
        conds.push(ty.to_owned());
        self.budget = self.budget.saturating_sub(1);
        if depth == 0 {
            // (Or unions would lead from one to the next without end.)
            conds.retain(|c| self.view.get(c).is_some_and(|t| t.kind == Kind::Object));
        }
        if conds.is_empty() {
            return None;
        }
        let on = self.r.pick(&conds).clone();
        let dirs = self.conditions();
        if self.r.pct(35) {
            // A named fragment, maybe one that is there already.
            let known: Vec<String> = self.frags.iter().filter(|f| conds.contains(&f.on) && !f.sels.is_empty()).map(|f| f.name.clone()).collect();
            if !known.is_empty() && self.r.pct(40) {
                return Some(Sel::Spread(self.r.pick(&known).clone(), dirs));
            }
            let name = format!("F{}", self.frags.len());
            // The place is taken while its selection is made, so that no fragment contains itself.
            self.frags.push(Fragment { name: name.clone(), on: on.clone(), sels: vec![] });
            let at = self.frags.len() - 1;
            let sels = self.set(&on, depth.saturating_sub(1));
            self.frags[at].sels = sels;
            return Some(Sel::Spread(name, dirs));
        }
        let cond = if on == ty && self.r.bool() { None } else { Some(on.clone()) };
        let sels = self.set(&on, depth.saturating_sub(1));
        Some(Sel::Inline(cond, dirs, sels))
    }

    fn field(&mut self, f: &Field, depth: usize) -> Option<Sel> {
        self.budget = self.budget.saturating_sub(1);
        let mut args = vec![];
        for a in &f.args {
            let must = a.ty.is_non_null() && a.default.is_none();
            if must || self.r.pct(60) {
                let v = self.argument(&a.ty);
                args.push((a.name.clone(), v));
            }
        }
        self.r.shuffle(&mut args);
        let dirs = self.conditions();
        let sels = if self.view.composite(f.ty.base()) { self.set(f.ty.base(), depth.saturating_sub(1)) } else { vec![] };
        let alias = if self.r.pct(self.style.aliases) { Some(self.fresh()) } else { None };
        Some(Sel::Field(FieldSel { alias, name: f.name.clone(), args, dirs, sels }))
    }

    fn argument(&mut self, ty: &Ty) -> Value {
        if self.style.variables && self.r.pct(40) {
            return self.variable(ty);
        }
        self.literal(ty, 0)
    }

    fn variable(&mut self, ty: &Ty) -> Value {
        // One that is there already.
        let same: Vec<String> = self.vars.iter().filter(|v| v.ty == *ty).map(|v| v.name.clone()).collect();
        if !same.is_empty() && self.r.pct(40) {
            return Value::Var(self.r.pick(&same).clone());
        }
        let name = format!("{}{}", self.r.str(&["v", "input", "_"]), self.vars.len());
        let mut vty = ty.clone();
        let mut default = None;
        if ty.is_non_null() && (self.r.pct(25)) {
            vty = ty.clone().nullable();
            // (A nullable variable without one may be used where the argument has one, but the gateway refuses it:
            // see E04.)
            {
                default = Some(loop {
                    let d = self.constant(&vty);
                    if d != Value::Null {
                        break d;
                    }
                });
            }
        } else if !ty.is_non_null() && self.r.pct(25) {
            vty = ty.clone().non_null();
        } else if self.r.pct(25) {
            default = Some(self.constant(&vty));
        }
        let needed = vty.is_non_null() && default.is_none();
        // null for a nullable variable in a non-null place is an error, and is not made here. (The gateway refuses null
        // for variables that have a default, wherever they are used: see E04.)
        let strict = ty.is_non_null() || default.is_some();
        if needed || self.r.pct(75) {
            let j = loop {
                let j = self.json(&vty);
                if !(strict && j.is_null()) {
                    break j;
                }
            };
            self.values.insert(name.clone(), j);
        }
        self.vars.push(VarDef { name: name.clone(), ty: vty, default });
        Value::Var(name)
    }

    fn literal(&mut self, ty: &Ty, depth: usize) -> Value {
        match ty {
            Ty::NonNull(t) => loop {
                let v = self.literal(t, depth);
                if v != Value::Null {
                    break v;
                }
            },
            _ if self.r.pct(8) => Value::Null,
            Ty::List(t) => {
                if self.r.pct(10) && !matches!(**t, Ty::List(_)) {
                    // A single value stands for a list of one.
                    return match self.literal(t, depth + 1) {
                        Value::List(_) | Value::Null => Value::List(vec![]),
                        v => v,
                    };
                }
                Value::List(
                    (0..self.r.below(3))
                        .map(|_| if self.style.variables && self.r.pct(10) { self.variable_present(t) } else { self.literal(t, depth + 1) })
                        // (The versions of the specification disagree on single values for lists inside of lists.)
                        .map(|v| match (&(**t).clone().nullable(), v) {
                            (Ty::List(_), v @ (Value::List(_) | Value::Null | Value::Var(_))) => v,
                            (Ty::List(_), v) => Value::List(vec![v]),
                            (_, v) => v,
                        })
                        .collect(),
                )
            }
            Ty::Named(n) => {
                let t = self.view.get(n).cloned().unwrap();
                if t.kind == Kind::Input {
                    let one = self.r.below(t.inputs.len().max(1));
                    let mut out = vec![];
                    for (k, a) in t.inputs.iter().enumerate() {
                        let must = a.ty.is_non_null() && a.default.is_none();
                        if if t.one_of { k == one } else { must || (depth < 3 && self.r.pct(60)) } {
                            let ty = if t.one_of { a.ty.clone().non_null() } else { a.ty.clone() };
                            let v = if self.style.variables && self.r.pct(15) {
                                self.variable(&ty)
                            } else {
                                self.literal(&ty, depth + 1)
                            };
                            out.push((a.name.clone(), v));
                        }
                    }
                    self.r.shuffle(&mut out);
                    return Value::Obj(out);
                }
                if t.kind == Kind::Scalar && !vgql::BUILTIN_SCALARS.contains(&n.as_str()) && depth < 3 && self.r.pct(30) {
                    // A custom scalar takes anything.
                    let parts: Vec<Value> = (0..self.r.below(3))
                        .map(|_| {
                            if self.style.variables && self.r.pct(30) {
                                let ty = Ty::named(*self.r.pick(&["Int", "String", "Boolean", n.as_str()]));
                                self.variable_present(&ty)
                            } else {
                                self.literal(&Ty::named(n.as_str()), depth + 1)
                            }
                        })
                        .collect();
                    return if self.r.bool() {
                        Value::List(parts)
                    } else {
                        Value::Obj(parts.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect())
                    };
                }
                let values = t.values.clone();
                crate::fed::constant(self.r, n, &mut |r| if values.is_empty() { None } else { Some(r.pick(&values).clone()) }, &mut |_| None)
            }
        }
    }

    /// A variable inside a list has a value.
    fn variable_present(&mut self, ty: &Ty) -> Value {
        let v = self.variable(ty);
        if let Value::Var(n) = &v
            && !self.values.contains_key(n)
        {
            let d = self.vars.iter().find(|v| v.name == *n).unwrap().clone();
            let j = loop {
                let j = self.json(&d.ty);
                if !((ty.is_non_null() || d.default.is_some()) && j.is_null()) {
                    break j;
                }
            };
            self.values.insert(n.clone(), j);
        }
        v
    }

    fn constant(&mut self, ty: &Ty) -> Value {
        let saved = self.style.variables;
        self.style.variables = false;
        let v = self.literal(ty, 1);
        self.style.variables = saved;
        v
    }

    fn json(&mut self, ty: &Ty) -> J {
        let v = self.constant(ty);
        to_json(&v)
    }
}

/// Other values for the variables of an operation. (Null stays where it is, and is put nowhere else.)
pub fn other_values(view: &View, r: &mut Rng, op: &Op) -> Map<String, J> {
    let style = Style { depth: 0, width: 0, variables: false, fragments: false, conditions: false, aliases: 0 };
    let mut g = G { view, r, style, vars: vec![], values: Map::new(), frags: vec![], counter: 0, budget: 0 };
    let mut out = op.vars.clone();
    for v in &op.doc.ops[0].vars {
        if let Some(old) = out.get_mut(&v.name)
            && !old.is_null()
            && g.r.pct(70)
        {
            for _ in 0..4 {
                let new = g.json(&v.ty);
                if !new.is_null() {
                    *old = new;
                    break;
                }
            }
        }
    }
    if view::coerce_vars(view, &op.doc.ops[0], &out).is_err() {
        return op.vars.clone();
    }
    out
}

/// A literal without variables as JSON.
pub fn to_json(v: &Value) -> J {
    match v {
        Value::Null => J::Null,
        Value::Int(s) | Value::Float(s) => serde_json::from_str(s).unwrap(),
        Value::Str(s) | Value::Enum(s) => J::String(s.clone()),
        Value::Bool(b) => J::Bool(*b),
        Value::List(l) => J::Array(l.iter().map(to_json).collect()),
        Value::Obj(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        Value::Var(_) => unreachable!(),
    }
}
