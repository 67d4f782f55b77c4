//! One world of data that every subgraph shows a part of, and an executor that answers operations over it.
use crate::{
    gql::{self, Document, FieldSel, Sel},
    view::{self, Vars, View, arguments, collect},
};
use serde_json::{Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{Rng, hash_of};
use vgql::{Kind, Ty};

#[derive(Clone, Debug, PartialEq)]
pub struct Inst {
    pub ty: String,
    pub id: u64,
    /// The representation through which a subgraph was handed this entity.
    pub rep: Option<Map<String, J>>,
}

#[derive(Clone, Debug)]
pub enum Val {
    Null,
    Leaf(J),
    Obj(Inst),
    List(Vec<Val>),
}

pub struct Fed {
    pub names: Vec<String>,
    pub sdl: Vec<String>,
    pub subs: Vec<View>,
    /// Everything, whether accessible or not.
    pub full: View,
    pub api: View,
    pub seed: u64,
    /// Instances of each entity.
    pub population: u64,
    owners: BTreeMap<(String, String), Vec<usize>>,
    injective: BTreeSet<(String, String)>,
}

impl Fed {
    pub fn new(subs: &[(String, String)], seed: u64) -> Fed {
        let mut views: Vec<View> = subs.iter().map(|(_, s)| View::of_subgraph(s)).collect();
        let mut overridden = vec![];
        for v in &views {
            for t in v.types.values() {
                for f in &t.fields {
                    if let Some(from) = &f.override_from
                        && let Some(i) = subs.iter().position(|(n, _)| n == from)
                    {
                        overridden.push((i, t.name.clone(), f.name.clone()));
                    }
                }
            }
        }
        for (i, t, f) in overridden {
            if let Some(f) = views[i].types.get_mut(&t).and_then(|t| t.fields.iter_mut().find(|x| x.name == f)) {
                f.overridden = true;
            }
        }
        let full = View::union(&views);
        let api = full.clone().api();
        let mut owners: BTreeMap<(String, String), Vec<usize>> = BTreeMap::new();
        let mut injective = BTreeSet::new();
        for (i, v) in views.iter().enumerate() {
            for t in v.types.values() {
                for f in t.fields.iter().filter(|f| !f.external && !f.overridden) {
                    owners.entry((t.name.clone(), f.name.clone())).or_default().push(i);
                }
                for k in &t.keys {
                    mark(&full, &t.name, &k.sels, &mut injective);
                }
            }
        }
        for v in &mut views {
            v.add_entities();
        }
        Fed {
            names: subs.iter().map(|s| s.0.clone()).collect(),
            sdl: subs.iter().map(|s| s.1.clone()).collect(),
            subs: views,
            full,
            api,
            seed,
            population: 4,
            owners,
            injective,
        }
    }

    pub fn owners(&self, ty: &str, field: &str) -> &[usize] {
        self.owners.get(&(ty.to_owned(), field.to_owned())).map(|v| &v[..]).unwrap_or_default()
    }

    pub fn is_entity(&self, ty: &str) -> bool {
        self.full.get(ty).is_some_and(|t| !t.keys.is_empty())
    }

    /// The types a field may return: those that each subgraph that answers it knows.
    fn candidates(&self, parent: &str, field: &str, base: &str) -> Vec<String> {
        let mut out = self.full.possible(base);
        for &o in self.owners(parent, field) {
            let p = self.subs[o].possible(base);
            out.retain(|x| p.contains(x));
        }
        out
    }

    /// What a field of an instance is.
    pub fn value(&self, inst: &Inst, field: &str, args: &Map<String, J>, required: &J) -> Val {
        let f = self.full.get(&inst.ty).and_then(|t| t.field(field));
        let Some(f) = f else { panic!("{}.{field} is nobody's", inst.ty) };
        if self.injective.contains(&(inst.ty.clone(), field.to_owned())) {
            let base = f.ty.base();
            let leaf = |n: u64| match base {
                "Int" => J::from((n % 1_000_000_000) as i64 + 1000),
                "ID" => J::String(format!("{}-{n}", inst.ty)),
                "String" => J::String(format!("{}{field}\"{n}é", inst.ty)),
                "Float" => J::from(n as f64 + 0.5),
                _ => panic!("a key of type {base}"),
            };
            return if self.full.leaf(base) {
                Val::Leaf(leaf(inst.id))
            } else {
                Val::Obj(Inst { ty: base.to_owned(), id: inst.id, rep: None })
            };
        }
        let h = hash_of(&(self.seed, &inst.ty, inst.id, field, canon(&J::Object(args.clone())), canon(required)));
        self.generate(&mut Rng::new(h), inst, field, &f.ty)
    }

    fn generate(&self, r: &mut Rng, inst: &Inst, field: &str, ty: &Ty) -> Val {
        match ty {
            Ty::NonNull(t) => self.present(r, inst, field, t),
            t if r.pct(12) => {
                let _ = t;
                Val::Null
            }
            t => self.present(r, inst, field, t),
        }
    }

    fn present(&self, r: &mut Rng, inst: &Inst, field: &str, ty: &Ty) -> Val {
        match ty {
            Ty::NonNull(t) => self.present(r, inst, field, t),
            Ty::List(t) => {
                let n = *r.pick(&[0, 1, 2, 2, 3, 3]);
                Val::List((0..n).map(|_| self.generate(r, inst, field, t)).collect())
            }
            Ty::Named(n) => {
                let t = self.full.get(n).unwrap_or_else(|| panic!("no type {n}"));
                match t.kind {
                    Kind::Enum => Val::Leaf(J::String(r.pick(&t.values).clone())),
                    Kind::Scalar => Val::Leaf(scalar(r, n)),
                    _ => {
                        let all = self.candidates(&inst.ty, field, n);
                        if all.is_empty() {
                            return Val::Null;
                        }
                        let ty = r.pick(&all).clone();
                        let id = if self.is_entity(&ty) { r.below(self.population as usize) as u64 } else { r.u64() >> 1 };
                        Val::Obj(Inst { ty, id, rep: None })
                    }
                }
            }
        }
    }

    /// Executes a field set in the world, giving what `@requires` is owed.
    pub fn required(&self, inst: &Inst, set: &[Sel]) -> J {
        let mut out = Map::new();
        for s in set {
            match s {
                Sel::Field(f) => {
                    let d = self.full.get(&inst.ty).and_then(|t| t.field(&f.name)).unwrap_or_else(|| panic!("required {}", f.name));
                    let args = arguments(&self.full, d, &f.args, &Vars::new()).unwrap();
                    let req = if d.requires.is_empty() { J::Null } else { self.required(inst, &d.requires) };
                    let v = self.value(inst, &f.name, &args, &req);
                    out.insert(f.key().to_owned(), self.required_value(&v, &f.sels));
                }
                Sel::Inline(on, _, inner) => {
                    if on.as_ref().is_none_or(|on| self.full.is_a(&inst.ty, on))
                        && let J::Object(o) = self.required(inst, inner)
                    {
                        out.extend(o);
                    }
                }
                Sel::Spread(..) => unreachable!(),
            }
        }
        J::Object(out)
    }

    fn required_value(&self, v: &Val, sels: &[Sel]) -> J {
        match v {
            Val::Null => J::Null,
            Val::Leaf(j) => j.clone(),
            Val::Obj(i) => self.required(i, sels),
            Val::List(l) => J::Array(l.iter().map(|v| self.required_value(v, sels)).collect()),
        }
    }

    pub fn key_of(&self, inst: &Inst, set: &[Sel]) -> J {
        self.required(inst, set)
    }
}

fn mark(full: &View, ty: &str, sels: &[Sel], out: &mut BTreeSet<(String, String)>) {
    for s in sels {
        let Sel::Field(f) = s else { panic!("a key with fragments") };
        out.insert((ty.to_owned(), f.name.clone()));
        if !f.sels.is_empty() {
            let base = full.get(ty).and_then(|t| t.field(&f.name)).unwrap_or_else(|| panic!("key {ty}.{}", f.name)).ty.base();
            mark(full, base, &f.sels, out);
        }
    }
}

/// Equal for values that mean the same.
pub fn canon(j: &J) -> String {
    match j {
        J::Number(n) => format!("{:?}", n.as_f64().unwrap()),
        J::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        J::Object(o) => {
            let mut v: Vec<_> = o.iter().map(|(k, v)| format!("{k:?}:{}", canon(v))).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        other => other.to_string(),
    }
}

/// Like `canon`, but the order of keys counts.
pub fn ordered(j: &J) -> String {
    match j {
        J::Number(n) => format!("{:?}", n.as_f64().unwrap()),
        J::Array(a) => format!("[{}]", a.iter().map(ordered).collect::<Vec<_>>().join(",")),
        J::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k:?}:{}", ordered(v))).collect::<Vec<_>>().join(",")),
        other => other.to_string(),
    }
}

pub const STRINGS: [&str; 10] =
    ["", "a", "hello world", "quote \" and \\ back", "tab\tnew\nline", "é ✓", "null", "{\"a\": 1}", "\u{1b}", "0"];

pub fn scalar(r: &mut Rng, name: &str) -> J {
    match name {
        "Int" => J::from(*r.pick(&[0i64, 1, -1, 7, 42, 2147483647, -2147483648, 1000])),
        "Float" => J::from(*r.pick(&[0.0, 1.5, -2.25, 0.1, 1e21, 3.0, 1e-7, 123456789.125])),
        "Boolean" => J::Bool(r.bool()),
        "String" => J::String(r.str(&STRINGS).to_owned()),
        "ID" => J::String(r.str(&["1", "x:y", "", "é", "00"]).to_owned()),
        _ => any(r, 2),
    }
}

/// A value of a custom scalar: never null.
pub fn any(r: &mut Rng, depth: usize) -> J {
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 => J::from(r.below(100)),
        1 => J::String(r.str(&STRINGS).to_owned()),
        2 => J::Bool(r.bool()),
        3 => J::from(*r.pick(&[0.5, -1.25, 1e10])),
        4 => J::Array((0..r.below(3)).map(|_| if r.pct(20) { J::Null } else { any(r, depth - 1) }).collect()),
        _ => {
            let mut o = Map::new();
            for _ in 0..r.below(3) {
                o.insert(r.str(&["a", "b", "__typename", "id"]).to_owned(), if r.pct(20) { J::Null } else { any(r, depth - 1) });
            }
            J::Object(o)
        }
    }
}

/// Answers operations over the world, as the whole (the API) or as one subgraph.
pub struct Exec<'a> {
    pub fed: &'a Fed,
    pub view: &'a View,
    pub doc: &'a Document,
    pub vars: Vars,
    /// The subgraph that answers.
    pub sub: Option<usize>,
    /// What happened before, for mutations: called for each root field.
    pub step: Option<&'a (dyn Fn(&str, &Map<String, J>) -> u64 + Sync)>,
    /// What the request should not have contained.
    pub problems: std::cell::RefCell<Vec<(String, String)>>,
    /// Adds what each object is under `NOTE`.
    pub notes: bool,
}

/// The key of notes: `{"type": …, "fields": {response key: field}}`.
pub const NOTE: &str = "\0note";

impl<'a> Exec<'a> {
    pub fn problem(&self, sig: &str, msg: String) {
        self.problems.borrow_mut().push((sig.to_owned(), msg));
    }

    pub fn run(&self) -> Map<String, J> {
        let op = &self.doc.ops[0];
        let root = self.view.root(op.kind).unwrap();
        let inst = Inst { ty: root.to_owned(), id: 0, rep: None };
        self.object(&inst, &[&op.sels], op.kind == gql::OpKind::Mutation)
    }

    pub fn object(&self, inst: &Inst, sels: &[&'a [Sel]], mutation: bool) -> Map<String, J> {
        let mut out = Map::new();
        let mut names = Map::new();
        for (key, fields) in collect(self.view, self.doc, &self.vars, &inst.ty, sels) {
            let f = fields[0];
            names.insert(key.to_owned(), J::String(f.name.clone()));
            if f.name == "__typename" {
                out.insert(key.to_owned(), J::String(inst.ty.clone()));
                continue;
            }
            let v = self.field(inst, f, mutation);
            let inner: Vec<&'a [Sel]> = fields.iter().map(|f| &f.sels[..]).collect();
            out.insert(key.to_owned(), self.complete(&v, &inner));
        }
        if self.notes {
            out.insert(NOTE.to_owned(), serde_json::json!({"type": inst.ty, "fields": names}));
        }
        out
    }

    fn field(&self, inst: &Inst, f: &FieldSel, mutation: bool) -> Val {
        let def = self.view.get(&inst.ty).and_then(|t| t.field(&f.name)).unwrap_or_else(|| panic!("no {}.{}", inst.ty, f.name));
        let args = match arguments(self.view, def, &f.args, &self.vars) {
            Ok(a) => a,
            Err(e) => {
                self.problem("argument-value", e);
                return Val::Null;
            }
        };
        if f.name == "_entities" && self.sub.is_some() {
            let J::Array(reps) = &args["representations"] else { unreachable!() };
            return Val::List(reps.iter().map(|r| self.entity(r)).collect());
        }
        let required = match (&def.requires[..], self.sub) {
            ([], _) => J::Null,
            (set, None) => self.fed.required(inst, set),
            (set, Some(_)) => match &inst.rep {
                None => {
                    self.problem(
                        "requires-without-representation",
                        format!("{}.{} is asked for where its required fields are unknown", inst.ty, f.name),
                    );
                    self.fed.required(inst, set)
                }
                Some(rep) => {
                    let want = self.fed.required(inst, set);
                    match project(self.view, rep, set, &inst.ty) {
                        Ok(got) if canon(&got) == canon(&want) => {}
                        Ok(got) => self.problem(
                            "required-value",
                            format!("{}.{} is given {got}, but its required fields are {want}", inst.ty, f.name),
                        ),
                        Err(e) => self.problem("required-missing", format!("{}.{}: {e} in {}", inst.ty, f.name, J::Object(rep.clone()))),
                    }
                    want
                }
            },
        };
        if mutation {
            let n = self.step.map(|s| s(&f.name, &args)).unwrap_or(0);
            let inst = Inst { id: n, ..inst.clone() };
            return self.fed.value(&inst, &f.name, &args, &required);
        }
        self.fed.value(inst, &f.name, &args, &required)
    }

    fn entity(&self, rep: &J) -> Val {
        let Some(r) = rep.as_object() else {
            self.problem("representation", format!("{rep} is no representation"));
            return Val::Null;
        };
        let name = r.get("__typename").and_then(|t| t.as_str()).unwrap_or("");
        let Some(t) = self.view.get(name).filter(|t| t.keys.iter().any(|k| k.resolvable)) else {
            self.problem("representation-type", format!("no entity {name:?}: {rep}"));
            return Val::Null;
        };
        for k in t.keys.iter().filter(|k| k.resolvable) {
            let Ok(given) = project(self.view, r, &k.sels, name) else { continue };
            for id in 0..self.fed.population {
                let i = Inst { ty: name.to_owned(), id, rep: Some(r.clone()) };
                if canon(&self.fed.key_of(&i, &k.sels)) == canon(&given) {
                    return Val::Obj(i);
                }
            }
            self.problem("representation-key", format!("nothing has the key {given}: {rep}"));
            return Val::Null;
        }
        self.problem("representation-key", format!("no key of {name} is complete: {rep}"));
        Val::Null
    }

    fn complete(&self, v: &Val, sels: &[&'a [Sel]]) -> J {
        match v {
            Val::Null => J::Null,
            Val::Leaf(j) => j.clone(),
            Val::Obj(i) => J::Object(self.object(i, sels, false)),
            Val::List(l) => J::Array(l.iter().map(|v| self.complete(v, sels)).collect()),
        }
    }
}

/// The part of a representation that a field set talks about.
fn project(view: &View, rep: &Map<String, J>, set: &[Sel], ty: &str) -> Result<J, String> {
    let mut out = Map::new();
    for s in set {
        match s {
            Sel::Field(f) => {
                let v = rep.get(f.key()).ok_or_else(|| format!("{} is missing", f.key()))?;
                let base = view.get(ty).and_then(|t| t.field(&f.name)).map(|f| f.ty.base().to_owned()).unwrap_or_default();
                out.insert(f.key().to_owned(), project_value(view, v, &f.sels, &base)?);
            }
            Sel::Inline(on, _, inner) => {
                let here = rep.get("__typename").and_then(|t| t.as_str()).unwrap_or(ty);
                if on.as_ref().is_none_or(|on| view.is_a(here, on))
                    && let J::Object(o) = project(view, rep, inner, on.as_deref().unwrap_or(ty))?
                {
                    out.extend(o);
                }
            }
            Sel::Spread(..) => unreachable!(),
        }
    }
    Ok(J::Object(out))
}

fn project_value(view: &View, v: &J, sels: &[Sel], base: &str) -> Result<J, String> {
    match v {
        _ if sels.is_empty() => Ok(v.clone()),
        J::Array(a) => Ok(J::Array(a.iter().map(|x| project_value(view, x, sels, base)).collect::<Result<_, _>>()?)),
        J::Object(o) => project(view, o, sels, base),
        J::Null => Ok(J::Null),
        other => Err(format!("{other} is no object")),
    }
}

/// What a valid operation asks of a subgraph although it must not.
pub fn trespasses(fed: &Fed, sub: usize, doc: &Document) -> Vec<(String, String)> {
    fn go(view: &View, doc: &Document, ty: &str, sels: &[Sel], provided: &[Sel], out: &mut Vec<(String, String)>) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    let Some(d) = view.get(ty).and_then(|t| t.field(&f.name)) else { continue };
                    let given = view::provided(view, provided, ty, &f.name);
                    if d.overridden {
                        out.push(("overridden-field".into(), format!("{ty}.{} is overridden by another subgraph", f.name)));
                    }
                    if d.external && given.is_none() && !view::in_key(view, ty, &f.name) {
                        out.push(("external-field".into(), format!("{ty}.{} is external", f.name)));
                    }
                    let mut next = d.provides.clone();
                    next.extend(given.unwrap_or_default());
                    go(view, doc, d.ty.base(), &f.sels, &next, out);
                }
                Sel::Spread(n, _) => {
                    if let Some(f) = doc.frag(n) {
                        go(view, doc, &f.on, &f.sels, provided, out);
                    }
                }
                Sel::Inline(on, _, inner) => go(view, doc, on.as_deref().unwrap_or(ty), inner, provided, out),
            }
        }
    }
    let mut out = vec![];
    let view = &fed.subs[sub];
    let op = &doc.ops[0];
    if let Some(root) = view.root(op.kind) {
        go(view, doc, root, &op.sels, &[], &mut out);
    }
    out
}
