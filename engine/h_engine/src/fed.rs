//! Generates federations in which every field can be reached from wherever its parent is returned.
use crate::gql;
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write,
};
use vcommon::Rng;
use vgql::{Ty, Value};

type Subs = BTreeSet<usize>;

#[derive(Clone, Debug)]
struct F {
    name: String,
    ty: Ty,
    args: Vec<(String, Ty, Option<Value>)>,
    subs: Subs,
    external: Subs,
    provides: BTreeMap<usize, String>,
    requires: Option<String>,
    overridden: Option<usize>,
    hidden: bool,
    key: bool,
    /// From an interface, so not to be tampered with.
    shared: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Root,
    Entity,
    Value,
    Interface,
    Union,
}

#[derive(Clone, Debug)]
struct T {
    name: String,
    kind: K,
    fields: Vec<F>,
    homes: Vec<usize>,
    keys: BTreeMap<usize, Vec<(String, bool)>>,
    present: Subs,
    /// For interfaces and unions: the types it has in each subgraph.
    members: BTreeMap<usize, BTreeSet<usize>>,
}

#[derive(Clone, Debug, Default)]
struct Leaf {
    name: String,
    values: Vec<String>,
}

#[derive(Clone, Debug)]
struct Input {
    name: String,
    fields: Vec<(String, Ty, Option<Value>)>,
    one_of: bool,
}

/// What a federation may contain.
#[derive(Clone, Copy, Debug)]
pub struct Features {
    pub max_subs: usize,
    pub abstracts: bool,
    /// Interfaces and unions may have different types in different subgraphs.
    pub partial: bool,
    pub requires: bool,
    pub provides: bool,
    pub overrides: bool,
    pub hidden: bool,
    pub mutations: bool,
    pub one_of: bool,
}

pub const ALL: Features = Features {
    max_subs: 4,
    abstracts: true,
    partial: false,
    requires: true,
    provides: true,
    overrides: true,
    hidden: true,
    mutations: true,
    one_of: false,
};

struct G<'r> {
    r: &'r mut Rng,
    n: usize,
    types: Vec<T>,
    enums: Vec<Leaf>,
    scalars: Vec<String>,
    inputs: Vec<Input>,
    feat: Features,
}

const NAMES: [&str; 12] = ["name", "kind", "owner", "items", "price", "score", "parent", "tags", "note", "best", "data", "size"];
const SUBS: [&str; 4] = ["accounts", "b", "c-3", "reviews-api"];

fn field(name: &str, ty: Ty) -> F {
    F {
        name: name.into(),
        ty,
        args: vec![],
        subs: Subs::new(),
        external: Subs::new(),
        provides: BTreeMap::new(),
        requires: None,
        overridden: None,
        hidden: false,
        key: false,
        shared: false,
    }
}

/// Names and schemas of the subgraphs.
pub fn generate(r: &mut Rng, feat: Features) -> Vec<(String, String)> {
    let n = r.range(1, feat.max_subs);
    let mut g = G { r, n, types: vec![], enums: vec![], scalars: vec![], inputs: vec![], feat };
    g.leaves();
    g.shapes();
    g.fields();
    g.close();
    if feat.requires {
        g.requires();
    }
    if feat.provides {
        g.provides();
    }
    if feat.overrides {
        g.overrides();
    }
    if feat.hidden {
        g.hide();
    }
    g.close();
    (0..g.n).map(|s| (SUBS[s].to_owned(), g.render(s))).filter(|(_, s)| s.contains("type ")).collect()
}

impl G<'_> {
    fn leaves(&mut self) {
        for i in 0..self.r.range(1, 2) {
            let k = self.r.range(1, 4);
            self.enums.push(Leaf { name: format!("Enum{i}"), values: (0..k).map(|v| format!("V{i}_{v}")).collect() });
        }
        for i in 0..self.r.below(2) {
            self.scalars.push(format!("Any{i}"));
        }
        for i in 0..self.r.range(1, 2) {
            let mut fields = vec![];
            for j in 0..self.r.range(1, 4) {
                let ty = self.input_ty(i);
                let d = self.default(&ty);
                fields.push((format!("{}{j}", self.r.str(&["x", "y", "z"])), ty, d));
            }
            let one_of = self.feat.one_of && self.r.pct(40);
            if one_of {
                for f in &mut fields {
                    f.1 = f.1.clone().nullable();
                    f.2 = None;
                }
            }
            self.inputs.push(Input { name: format!("In{i}"), fields, one_of });
        }
    }

    fn leaf(&mut self) -> String {
        match self.r.below(10) {
            0 => self.r.pick(&self.enums).name.clone(),
            1 if !self.scalars.is_empty() => self.r.pick(&self.scalars).clone(),
            2 | 3 => "Int".into(),
            4 => "Float".into(),
            5 => "Boolean".into(),
            6 => "ID".into(),
            _ => "String".into(),
        }
    }

    fn wrap(&mut self, base: &str, list_pct: u32) -> Ty {
        let mut t = Ty::named(base);
        if self.r.pct(35) {
            t = t.non_null();
        }
        if self.r.pct(list_pct) {
            t = t.list();
            if self.r.pct(10) {
                t = t.list();
            }
            if self.r.pct(35) {
                t = t.non_null();
            }
        }
        t
    }

    fn input_ty(&mut self, inputs: usize) -> Ty {
        let base = if inputs > 0 && self.r.pct(25) { format!("In{}", self.r.below(inputs)) } else { self.leaf() };
        self.wrap(&base, 20)
    }

    fn default(&mut self, ty: &Ty) -> Option<Value> {
        if !self.r.pct(30) {
            return None;
        }
        Some(self.constant(ty, 0))
    }

    fn constant(&mut self, ty: &Ty, depth: usize) -> Value {
        match ty {
            Ty::NonNull(t) => loop {
                let v = self.constant(t, depth);
                if v != Value::Null {
                    break v;
                }
            },
            _ if self.r.pct(10) => Value::Null,
            Ty::List(t) => Value::List((0..self.r.below(3)).map(|_| self.constant(t, depth)).collect()),
            Ty::Named(n) => {
                let enums = self.enums.clone();
                let inputs = self.inputs.clone();
                constant(self.r, n, &mut |r| enums.iter().find(|e| e.name == *n).map(|e| r.pick(&e.values).clone()), &mut |r| {
                    let i = inputs.iter().find(|i| i.name == *n)?;
                    let one = r.below(i.fields.len());
                    let mut out = vec![];
                    for (k, (name, ty, d)) in i.fields.iter().enumerate() {
                        let wanted = if i.one_of { k == one } else { (ty.is_non_null() && d.is_none()) || r.pct(50) };
                        if wanted {
                            let mut g = G {
                                r,
                                n: 0,
                                types: vec![],
                                enums: enums.clone(),
                                scalars: vec![],
                                inputs: inputs.clone(),
                                feat: ALL,
                            };
                            let ty = if i.one_of { ty.clone().non_null() } else { ty.clone() };
                            out.push((name.clone(), g.constant(&ty, depth + 1)));
                        }
                    }
                    Some(out)
                })
            }
        }
    }

    fn args(&mut self) -> Vec<(String, Ty, Option<Value>)> {
        let mut out = vec![];
        for i in 0..*self.r.pick(&[0, 0, 0, 1, 1, 2]) {
            let ty = self.input_ty(self.inputs.len());
            let d = self.default(&ty);
            out.push((format!("{}{i}", self.r.str(&["arg", "first", "by"])), ty, d));
        }
        out
    }

    fn shapes(&mut self) {
        let t = |name: String, kind: K| T {
            name,
            kind,
            fields: vec![],
            homes: vec![],
            keys: BTreeMap::new(),
            present: Subs::new(),
            members: BTreeMap::new(),
        };
        let mut types = vec![t("Query".into(), K::Root)];
        if self.feat.mutations && self.r.pct(50) {
            types.push(t("Mutation".into(), K::Root));
        }
        for i in 0..self.r.range(1, 4) {
            types.push(t(format!("Ent{i}"), K::Entity));
        }
        for i in 0..self.r.below(4) {
            types.push(t(format!("Val{i}"), K::Value));
        }
        let concrete: Vec<usize> = (0..types.len()).filter(|&i| types[i].kind != K::Root).collect();
        if self.feat.abstracts {
            for i in 0..self.r.below(3) {
                types.push(t(format!("Iface{i}"), K::Interface));
            }
            for i in 0..self.r.below(2) {
                types.push(t(format!("Union{i}"), K::Union));
            }
        }
        types.push(t("Ref".into(), K::Value));
        let n = types.len();
        types[n - 1].fields.push(F { shared: true, ..field("rid", Ty::named("String").non_null()) });
        for i in 0..n {
            match types[i].kind {
                K::Entity => {
                    let all: Vec<usize> = (0..self.n).collect();
                    let mut homes = self.r.subset(&all, 60);
                    if homes.is_empty() {
                        homes.push(self.r.below(self.n));
                    }
                    self.r.shuffle(&mut homes);
                    let mode = self.r.below(8);
                    let choices: Vec<&str> = match mode {
                        0 | 1 => vec!["id", "code"],
                        2 => vec!["id code"],
                        3 => vec!["ref { rid }"],
                        4 => vec!["id code", "id ref { rid }"],
                        5 => vec!["code", "ref { rid }"],
                        _ => vec!["id"],
                    };
                    for (k, &h) in homes.iter().enumerate() {
                        let mut mine: Vec<(String, bool)> = choices
                            .iter()
                            .filter(|_| k == 0 || self.r.pct(50))
                            .map(|c| (c.to_string(), true))
                            .collect();
                        if mine.is_empty() {
                            mine.push((self.r.pick(&choices).to_string(), true));
                        }
                        self.r.shuffle(&mut mine);
                        types[i].keys.insert(h, mine);
                    }
                    types[i].homes = homes;
                    for (name, ty) in [("id", "ID"), ("code", "Int"), ("ref", "Ref")] {
                        if choices.iter().any(|c| c.contains(name)) {
                            types[i].fields.push(F { key: true, shared: true, ..field(name, Ty::named(ty).non_null()) });
                        }
                    }
                }
                K::Interface | K::Union => {
                    let mut all = self.r.subset(&concrete, 50);
                    if all.is_empty() {
                        all.push(*self.r.pick(&concrete));
                    }
                    for s in 0..self.n {
                        let mut here: BTreeSet<usize> =
                            self.r.subset(&all, if self.feat.partial { 70 } else { 100 }).into_iter().collect();
                        if here.is_empty() {
                            here.insert(*self.r.pick(&all));
                        }
                        types[i].members.insert(s, here);
                    }
                }
                _ => {}
            }
        }
        self.types = types;
    }

    fn output(&mut self, composite_pct: u32) -> Ty {
        if self.r.pct(composite_pct) {
            let all: Vec<String> =
                self.types.iter().filter(|t| t.kind != K::Root && t.name != "Ref").map(|t| t.name.clone()).collect();
            let base = self.r.pick(&all).clone();
            self.wrap(&base, 35)
        } else {
            let base = self.leaf();
            self.wrap(&base, 15)
        }
    }

    fn fields(&mut self) {
        for i in 0..self.types.len() {
            let t = &self.types[i];
            if t.name == "Ref" || t.kind == K::Union {
                continue;
            }
            let kind = t.kind;
            let homes = if kind == K::Entity { t.homes.clone() } else { (0..self.n).collect() };
            let (name, count) = match kind {
                K::Root if t.name == "Query" => ("query", self.r.range(2, 5)),
                K::Root => ("mutate", self.r.range(1, 3)),
                K::Entity => ("", self.r.range(1, 5)),
                K::Value => ("", self.r.range(1, 3)),
                _ => ("if", self.r.range(1, 2)),
            };
            let mut pool: Vec<&str> = NAMES.to_vec();
            self.r.shuffle(&mut pool);
            for j in 0..count {
                let fname = match kind {
                    K::Root => format!("{name}{j}"),
                    K::Interface => format!("if{i}f{j}"),
                    _ => pool[j].to_owned(),
                };
                let ty = self.output(match kind {
                    K::Root => 90,
                    K::Value => 30,
                    K::Interface => 25,
                    _ => 45,
                });
                let mut f = field(&fname, ty);
                if kind != K::Interface || self.r.pct(30) {
                    f.args = self.args();
                }
                if matches!(kind, K::Root | K::Entity) {
                    f.subs.insert(*self.r.pick(&homes));
                    if name != "mutate" && self.r.pct(15) {
                        f.subs.insert(*self.r.pick(&homes));
                    }
                } else {
                    f.shared = true;
                }
                self.types[i].fields.push(f);
            }
        }
        // What the implementers owe.
        for i in 0..self.types.len() {
            if self.types[i].kind != K::Interface {
                continue;
            }
            let owed = self.types[i].fields.clone();
            let members: BTreeSet<usize> = self.types[i].members.values().flatten().copied().collect();
            for m in members {
                for f in &owed {
                    let ty = if self.r.pct(30) { f.ty.clone().non_null() } else { f.ty.clone() };
                    self.types[m].fields.push(F { ty, shared: true, subs: Subs::new(), ..f.clone() });
                }
            }
        }
        for t in &mut self.types {
            if t.kind == K::Entity {
                t.present.extend(t.homes.iter().copied());
            }
        }
    }

    fn by_name(&self, n: &str) -> Option<usize> {
        self.types.iter().position(|t| t.name == n)
    }

    /// Adds what the subgraphs need for the fields they have.
    fn close(&mut self) {
        loop {
            let mut changed = false;
            for s in 0..self.n {
                for i in 0..self.types.len() {
                    let mut wanted: Vec<usize> = vec![];
                    {
                        let t = &self.types[i];
                        if matches!(t.kind, K::Root) && t.fields.iter().any(|f| f.subs.contains(&s)) {
                            wanted.push(i);
                        }
                        for f in &t.fields {
                            if f.subs.contains(&s) || f.external.contains(&s) || f.overridden == Some(s) {
                                wanted.extend(self.by_name(f.ty.base()));
                            }
                        }
                        if t.present.contains(&s) && matches!(t.kind, K::Interface | K::Union) {
                            wanted.extend(&t.members[&s]);
                        }
                        if t.present.contains(&s) && t.kind == K::Interface {
                            wanted.extend(t.fields.iter().filter_map(|f| self.by_name(f.ty.base())));
                        }
                    }
                    for w in wanted {
                        changed |= self.types[w].present.insert(s);
                    }
                    let t = &mut self.types[i];
                    if !t.present.contains(&s) {
                        continue;
                    }
                    if t.kind == K::Value {
                        for f in t.fields.iter_mut().filter(|f| !f.name.starts_with("if")) {
                            changed |= f.subs.insert(s);
                        }
                    }
                    if t.kind == K::Entity {
                        if !t.keys.contains_key(&s) {
                            let first = t.keys[&t.homes[0]].clone();
                            let key = self.r.pick(&first).0.clone();
                            let resolvable = self.r.bool();
                            t.keys.insert(s, vec![(key, resolvable)]);
                            changed = true;
                        }
                        let keys = t.keys[&s].clone();
                        for f in t.fields.iter_mut().filter(|f| f.key) {
                            if keys.iter().any(|(k, _)| k.split(' ').any(|w| w == f.name)) {
                                changed |= f.subs.insert(s);
                            }
                        }
                    }
                }
                // Fields of interfaces.
                for i in 0..self.types.len() {
                    if self.types[i].kind == K::Interface && self.types[i].present.contains(&s) {
                        let names: Vec<String> = self.types[i].fields.iter().map(|f| f.name.clone()).collect();
                        for m in self.types[i].members[&s].clone() {
                            for f in self.types[m].fields.iter_mut().filter(|f| names.contains(&f.name)) {
                                changed |= f.subs.insert(s);
                            }
                            // They have to be reachable from elsewhere.
                            if let Some(keys) = self.types[m].keys.get_mut(&s) {
                                for (_, resolvable) in keys.iter_mut().filter(|(_, r)| !r) {
                                    *resolvable = true;
                                    changed = true;
                                }
                            }
                        }
                    }
                }
            }
            // A value type has the same fields wherever it is.
            for t in self.types.iter_mut().filter(|t| t.kind == K::Value) {
                let present = t.present.clone();
                for f in t.fields.iter_mut().filter(|f| !f.subs.is_empty()) {
                    for s in &present {
                        changed |= f.subs.insert(*s);
                    }
                }
            }
            if !changed {
                break;
            }
        }
    }

    /// A selection on a required field: what can be asked of anyone with the key.
    fn required_sel(&mut self, owner: &F, to: usize, depth: usize) -> Option<String> {
        let Some(i) = self.by_name(owner.ty.base()) else { return Some(owner.name.clone()) };
        if depth == 0 {
            return None;
        }
        match self.types[i].kind {
            K::Value => {
                let mut fs: Vec<F> = self.types[i].fields.clone();
                fs.retain(|f| f.args.is_empty() && !f.subs.is_empty());
                self.r.shuffle(&mut fs);
                let mut sels = vec![];
                for f in fs.iter().take(2) {
                    sels.extend(self.required_sel(f, to, depth - 1));
                }
                self.types[i].present.insert(to);
                if sels.is_empty() { None } else { Some(format!("{} {{ {} }}", owner.name, sels.join(" "))) }
            }
            K::Entity => {
                // The key it will have there.
                self.types[i].present.insert(to);
                self.close();
                let key = self.types[i].keys[&to][0].0.clone();
                let mut sels = vec![key];
                let mut others: Vec<usize> = (0..self.types[i].fields.len())
                    .filter(|&k| {
                        let f = &self.types[i].fields[k];
                        !f.shared && f.args.is_empty() && f.requires.is_none() && !f.subs.contains(&to) && f.overridden != Some(to)
                            && !f.provides.contains_key(&to) && self.by_name(f.ty.base()).is_none()
                    })
                    .collect();
                self.r.shuffle(&mut others);
                if self.r.pct(40)
                    && let Some(&k) = others.first()
                {
                    self.types[i].fields[k].external.insert(to);
                    sels.push(self.types[i].fields[k].name.clone());
                }
                Some(format!("{} {{ {} }}", owner.name, sels.join(" ")))
            }
            _ => None,
        }
    }

    fn requires(&mut self) {
        for i in 0..self.types.len() {
            if self.types[i].kind != K::Entity || self.types[i].homes.len() < 2 {
                continue;
            }
            for j in 0..self.r.below(3) {
                let to = *self.r.pick(&self.types[i].homes.clone());
                let mut owned: Vec<usize> = (0..self.types[i].fields.len())
                    .filter(|&k| {
                        let f = &self.types[i].fields[k];
                        !f.shared && f.args.is_empty() && !f.subs.contains(&to) && f.provides.is_empty()
                    })
                    .collect();
                self.r.shuffle(&mut owned);
                let mut sels = vec![];
                for k in owned.into_iter().take(self.r.range(1, 2)) {
                    let f = self.types[i].fields[k].clone();
                    if let Some(s) = self.required_sel(&f, to, 2) {
                        sels.push(s);
                        self.types[i].fields[k].external.insert(to);
                    }
                }
                if sels.is_empty() {
                    continue;
                }
                let ty = self.output(20);
                let mut f = field(&format!("req{j}"), ty);
                f.args = self.args();
                f.subs.insert(to);
                f.requires = Some(sels.join(" "));
                self.types[i].fields.push(f);
                self.close();
            }
        }
    }

    fn provides(&mut self) {
        for i in 0..self.types.len() {
            if matches!(self.types[i].kind, K::Interface | K::Union) {
                continue;
            }
            for k in 0..self.types[i].fields.len() {
                let f = &self.types[i].fields[k];
                let Some(e) = self.by_name(f.ty.base()) else { continue };
                if f.shared || f.subs.len() != 1 || self.types[e].kind != K::Entity || !self.r.pct(35) {
                    continue;
                }
                let s = *f.subs.first().unwrap();
                let mut xs: Vec<usize> = (0..self.types[e].fields.len())
                    .filter(|&x| {
                        let x = &self.types[e].fields[x];
                        !x.shared
                            && !x.subs.contains(&s)
                            && !x.external.contains(&s)
                            && x.requires.is_none()
                            && x.args.iter().all(|(_, ty, default)| !ty.is_non_null() || default.is_some())
                            && x.overridden != Some(s)
                            && self.by_name(x.ty.base()).is_none()
                    })
                    .collect();
                self.r.shuffle(&mut xs);
                xs.truncate(2);
                if xs.is_empty() {
                    continue;
                }
                let mut set = vec![];
                for x in xs {
                    let x = &mut self.types[e].fields[x];
                    set.push(x.name.clone());
                    // Several fields may provide the same one.
                    x.provides.insert(s, String::new());
                }
                self.types[i].fields[k].provides.insert(s, set.join(" "));
            }
        }
        // The provided fields are external in their provider.
        for t in &mut self.types {
            for f in &mut t.fields {
                let marks: Vec<usize> = f.provides.iter().filter(|(_, v)| v.is_empty()).map(|(s, _)| *s).collect();
                for s in marks {
                    f.provides.remove(&s);
                    f.external.insert(s);
                }
            }
        }
        // Marks may have replaced the provides of the field itself: nothing to do, external fields have no args.
    }

    fn overrides(&mut self) {
        for i in 0..self.types.len() {
            if self.types[i].kind != K::Entity {
                continue;
            }
            let homes = self.types[i].homes.clone();
            for f in &mut self.types[i].fields {
                if f.shared || f.subs.len() != 1 || !f.provides.is_empty() || f.requires.is_some() || !self.r.pct(15) {
                    continue;
                }
                let from = *self.r.pick(&homes);
                if !f.subs.contains(&from) && !f.external.contains(&from) {
                    f.overridden = Some(from);
                }
            }
        }
    }

    fn hide(&mut self) {
        for t in &mut self.types {
            if t.kind != K::Entity {
                continue;
            }
            let n = t.fields.len();
            for f in t.fields.iter_mut().skip(1) {
                if n > 2 && self.r.pct(8) && !f.name.starts_with("if") {
                    f.hidden = true;
                }
            }
            // A type that has nothing to show disappears from the API with all the fields that return it.
            if let Some(k) = (!t.fields.iter().any(|f| !f.hidden && !f.subs.is_empty())).then(|| t.fields.iter().position(|f| !f.subs.is_empty()).unwrap_or(0)) {
                t.fields[k].hidden = false;
            }
        }
    }

    fn args_text(args: &[(String, Ty, Option<Value>)]) -> String {
        if args.is_empty() {
            return String::new();
        }
        let v: Vec<String> = args
            .iter()
            .map(|(n, t, d)| format!("{n}: {}{}", gql::ty(t), d.as_ref().map(|d| format!(" = {}", gql::value(d))).unwrap_or_default()))
            .collect();
        format!("({})", v.join(", "))
    }

    fn render(&mut self, s: usize) -> String {
        let mut o = String::from(
            "extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@key\", \"@shareable\", \"@external\", \"@provides\", \"@requires\", \"@override\", \"@inaccessible\"])\n",
        );
        let mut inputs: BTreeSet<String> = BTreeSet::new();
        let mut leaves: BTreeSet<String> = BTreeSet::new();
        let types = self.types.clone();
        let mut order: Vec<&T> = types.iter().filter(|t| t.present.contains(&s)).collect();
        self.r.shuffle(&mut order);
        for t in order {
            if t.kind == K::Union {
                let m: Vec<_> = t.members[&s].iter().map(|&m| types[m].name.clone()).collect();
                writeln!(o, "union {} = {}", t.name, m.join(" | ")).unwrap();
                continue;
            }
            write!(o, "{} {}", if t.kind == K::Interface { "interface" } else { "type" }, t.name).unwrap();
            let index = self.by_name(&t.name).unwrap();
            let imp: Vec<&str> = types
                .iter()
                .filter(|i| i.kind == K::Interface && i.present.contains(&s) && i.members[&s].contains(&index))
                .map(|i| i.name.as_str())
                .collect();
            if !imp.is_empty() {
                write!(o, " implements {}", imp.join(" & ")).unwrap();
            }
            for (k, resolvable) in t.keys.get(&s).into_iter().flatten() {
                write!(o, " @key(fields: \"{k}\"{})", if *resolvable { "" } else { ", resolvable: false" }).unwrap();
            }
            o.push_str(" {\n");
            let mut fields: Vec<&F> = t
                .fields
                .iter()
                .filter(|f| t.kind == K::Interface || f.subs.contains(&s) || f.external.contains(&s) || f.overridden == Some(s))
                .collect();
            self.r.shuffle(&mut fields);
            for f in fields {
                write!(o, "  {}{}: {}", f.name, Self::args_text(&f.args), gql::ty(&f.ty)).unwrap();
                leaves.insert(f.ty.base().to_owned());
                for (_, ty, _) in &f.args {
                    inputs.insert(ty.base().to_owned());
                }
                if t.kind != K::Interface {
                    if f.subs.contains(&s) {
                        if f.subs.len() > 1 || t.kind == K::Value {
                            o.push_str(" @shareable");
                        }
                        if let Some(p) = f.provides.get(&s) {
                            write!(o, " @provides(fields: \"{p}\")").unwrap();
                        }
                        if let Some(r) = &f.requires {
                            write!(o, " @requires(fields: \"{r}\")").unwrap();
                        }
                        if let Some(from) = f.overridden {
                            write!(o, " @override(from: \"{}\")", SUBS[from]).unwrap();
                        }
                    } else if f.external.contains(&s) {
                        o.push_str(" @external");
                    }
                    if f.hidden {
                        o.push_str(" @inaccessible");
                    }
                }
                o.push('\n');
            }
            o.push_str("}\n");
        }
        for i in self.inputs.iter().rev() {
            if inputs.contains(&i.name) {
                for (_, ty, _) in &i.fields {
                    inputs.insert(ty.base().to_owned());
                }
                writeln!(o, "input {}{} {{", i.name, if i.one_of { " @oneOf" } else { "" }).unwrap();
                for (n, ty, d) in &i.fields {
                    writeln!(o, "  {n}: {}{}", gql::ty(ty), d.as_ref().map(|d| format!(" = {}", gql::value(d))).unwrap_or_default()).unwrap();
                }
                o.push_str("}\n");
            }
        }
        leaves.extend(inputs);
        for e in &self.enums {
            if leaves.contains(&e.name) {
                writeln!(o, "enum {} {{ {} }}", e.name, e.values.join(" ")).unwrap();
            }
        }
        for e in &self.scalars {
            if leaves.contains(e) {
                writeln!(o, "scalar {e}").unwrap();
            }
        }
        o
    }
}

/// A literal of a named input type that is not null.
pub fn constant(
    r: &mut Rng,
    name: &str,
    enums: &mut dyn FnMut(&mut Rng) -> Option<String>,
    inputs: &mut dyn FnMut(&mut Rng) -> Option<Vec<(String, Value)>>,
) -> Value {
    match name {
        "Int" => Value::Int(r.str(&["0", "1", "-5", "2147483647", "42", "-2147483648"]).into()),
        "Float" => {
            if r.pct(30) {
                Value::Int(r.str(&["0", "3", "-12"]).into())
            } else {
                Value::Float(r.str(&["0.5", "-1.25", "1e3", "6.02e23"]).into())
            }
        }
        "String" => Value::Str(r.str(&crate::world::STRINGS).into()),
        "Boolean" => Value::Bool(r.bool()),
        "ID" => {
            if r.pct(30) {
                Value::Int(r.str(&["0", "7"]).into())
            } else {
                Value::Str(r.str(&["a", "7", "x-1"]).into())
            }
        }
        _ => {
            if let Some(e) = enums(r) {
                return Value::Enum(e);
            }
            if let Some(o) = inputs(r) {
                return Value::Obj(o);
            }
            literal(&crate::world::any(r, 2))
        }
    }
}

/// JSON as a literal of a custom scalar.
pub fn literal(j: &serde_json::Value) -> Value {
    use serde_json::Value as J;
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::Number(n) if n.is_f64() => Value::Float(format!("{:?}", n.as_f64().unwrap())),
        J::Number(n) => Value::Int(n.to_string()),
        J::String(s) => Value::Str(s.clone()),
        J::Array(a) => Value::List(a.iter().map(literal).collect()),
        J::Object(o) => Value::Obj(o.iter().map(|(k, v)| (k.clone(), literal(v))).collect()),
    }
}
