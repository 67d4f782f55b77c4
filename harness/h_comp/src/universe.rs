use std::collections::{BTreeMap, BTreeSet};
use vcommon::Rng;
use vgql::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fed {
    V1,
    V2,
}

/// How the federation directives are written in the SDL of a subgraph.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Style {
    Import,
    Prefix,
    Namespace(String),
    Renamed,
    Bare,
}

/// One subgraph. In `doc`, federation directives and root types have their canonical names.
#[derive(Clone, Debug)]
pub struct Sub {
    pub name: String,
    pub url: String,
    pub fed: Fed,
    pub style: Style,
    pub rename_roots: bool,
    pub extend_objects: BTreeSet<String>,
    pub doc: Doc,
}

pub const FED_DIRECTIVES: [&str; 13] = [
    "key", "shareable", "external", "requires", "provides", "override", "inaccessible", "tag", "authenticated",
    "requiresScopes", "policy", "interfaceObject", "composeDirective",
];
pub const ROOTS: [(&str, &str); 3] = [("query", "Query"), ("mutation", "Mutation"), ("subscription", "Subscription")];

impl Sub {
    pub fn new(name: &str) -> Sub {
        Sub {
            name: name.into(),
            url: format!("http://{name}.example.com/graphql"),
            fed: Fed::V2,
            style: Style::Import,
            rename_roots: false,
            extend_objects: BTreeSet::new(),
            doc: Doc::default(),
        }
    }

    pub fn dir_name(&self, canonical: &str) -> String {
        if !FED_DIRECTIVES.contains(&canonical) {
            return canonical.into();
        }
        match &self.style {
            Style::Import | Style::Bare => canonical.into(),
            Style::Prefix => format!("federation__{canonical}"),
            Style::Namespace(ns) => format!("{ns}__{canonical}"),
            Style::Renamed => format!("my{}{}", canonical[..1].to_uppercase(), &canonical[1..]),
        }
    }

    pub fn sdl(&self) -> String {
        let mut doc = self.doc.clone();
        let fix_dirs = |d: &mut Vec<Dir>| {
            for d in d {
                d.name = self.dir_name(&d.name);
            }
        };
        let ren = |n: &mut String| {
            if self.rename_roots && ROOTS.iter().any(|r| r.1 == n) {
                *n = format!("My{n}Root");
            }
        };
        fn ren_ty(t: &mut Ty, ren: &dyn Fn(&mut String)) {
            match t {
                Ty::Named(n) => ren(n),
                Ty::List(t) | Ty::NonNull(t) => ren_ty(t, ren),
            }
        }
        let mut roots = vec![];
        for t in doc.types_mut() {
            if let Some(r) = ROOTS.iter().find(|r| r.1 == t.name) {
                roots.push(r.0.to_string());
            }
            ren(&mut t.name);
            t.ext |= self.extend_objects.contains(&t.name);
            fix_dirs(&mut t.dirs);
            for f in &mut t.fields {
                fix_dirs(&mut f.dirs);
                ren_ty(&mut f.ty, &ren);
                for a in &mut f.args {
                    fix_dirs(&mut a.dirs);
                }
            }
            for v in &mut t.inputs {
                fix_dirs(&mut v.dirs);
            }
            for v in &mut t.values {
                fix_dirs(&mut v.dirs);
            }
            t.members.iter_mut().for_each(&ren);
        }
        let mut head = String::new();
        let url = "https://specs.apollo.dev/federation/v2.6";
        match &self.style {
            Style::Bare => {}
            Style::Import => {
                let names: Vec<_> = FED_DIRECTIVES.iter().map(|d| format!("\"@{d}\"")).collect();
                head = format!("extend schema @link(url: \"{url}\", import: [{}])\n\n", names.join(", "));
            }
            Style::Prefix => head = format!("extend schema @link(url: \"{url}\")\n\n"),
            Style::Namespace(ns) => head = format!("extend schema @link(url: \"{url}\", as: \"{ns}\")\n\n"),
            Style::Renamed => {
                let names: Vec<_> = FED_DIRECTIVES
                    .iter()
                    .map(|d| format!("{{ name: \"@{d}\", as: \"@{}\" }}", self.dir_name(d)))
                    .collect();
                head = format!("extend schema @link(url: \"{url}\", import: [{}])\n\n", names.join(", "));
            }
        }
        if self.rename_roots {
            head.push_str("schema {\n");
            for (op, n) in ROOTS {
                if roots.iter().any(|r| r == op) {
                    head.push_str(&format!("  {op}: My{n}Root\n"));
                }
            }
            head.push_str("}\n\n");
        }
        format!("{head}{doc}")
    }
}

pub fn show(subs: &[Sub]) -> String {
    subs.iter().map(|s| format!("# --- subgraph {} ({})\n{}", s.name, s.url, s.sdl())).collect::<Vec<_>>().join("\n")
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Plan {
    In,
    Out,
    Both,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style2 {
    Entity,
    Value,
    Owned,
}

/// What the generator may use.
#[derive(Clone, Debug)]
pub struct Features {
    pub v1: bool,
    pub inaccessible: bool,
    pub hidden_types: bool,
    pub overrides: bool,
    pub externals: bool,
    pub interfaces: bool,
    pub auth: bool,
    pub max_subs: usize,
}

impl Default for Features {
    fn default() -> Self {
        Features {
            v1: true,
            inaccessible: true,
            hidden_types: true,
            overrides: true,
            externals: true,
            interfaces: true,
            auth: true,
            max_subs: 5,
        }
    }
}

type Set = BTreeSet<usize>;

struct G<'r> {
    r: &'r mut Rng,
    ft: Features,
    n: usize,
    v1: Vec<bool>,
    presence: BTreeMap<String, Set>,
    kinds: BTreeMap<String, Kind>,
    plans: BTreeMap<String, Plan>,
    /// Values present in every definition of the enum and never hidden.
    safe_values: BTreeMap<String, Vec<String>>,
    hidden: BTreeSet<String>,
    docs: Vec<BTreeMap<String, TypeDef>>,
    order: Vec<String>,
}

const NAMES: &[&str] = &[
    "accounts", "products", "reviews", "inventory", "b-side", "search2", "Zeta", "my-sub-graph", "a", "x1", "Orders",
    "pay-ments",
];
const TYPE_NAMES: &[&str] = &[
    "User", "Product", "Review", "Order", "Address", "Money", "Node", "Zone", "Account", "Cart", "Invoice", "Shop",
    "a_type", "B2", "ns__Widget", "Média", "_Hidden", "Tag", "Thing",
];

impl G<'_> {
    fn subset(&mut self, all: &Set, p: u32) -> Set {
        let v: Vec<usize> = all.iter().copied().collect();
        let mut s: Set = v.iter().copied().filter(|_| self.r.pct(p)).collect();
        if s.is_empty() {
            s.insert(*self.r.pick(&v));
        }
        s
    }

    fn type_name(&mut self, base: &str, k: usize) -> String {
        format!("{}{base}{k}", if self.r.pct(6) { "ns__" } else { "" })
    }

    fn presence(&mut self, p: u32) -> Set {
        let all = (0..self.n).collect();
        self.subset(&all, p)
    }

    fn declare(&mut self, name: &str, kind: Kind, s: Set) {
        for i in &s {
            self.docs[*i].insert(name.into(), TypeDef::new(kind, name));
        }
        self.presence.insert(name.into(), s);
        self.kinds.insert(name.into(), kind);
        self.order.push(name.into());
    }

    fn in_all(&self, t: &str, s: &Set) -> bool {
        s.is_subset(&self.presence[t])
    }

    /// The type of an argument, and a value for it.
    fn argument_value(&mut self) -> (Ty, Value) {
        let string = |r: &mut Rng| Value::Str(r.str(&["", "EUR", "two words", "qu\"ote", "back\\slash", "new\nline", "tab\t", "é ✓", "\u{1}", "{ } ( )"]).to_string());
        let (ty, v) = match self.r.below(8) {
            0 => ("Int", Value::Int(self.r.str(&["0", "-7", "2147483647"]).to_string())),
            1 => ("Float", Value::Float(self.r.str(&["1.5", "-0.25", "12.0"]).to_string())),
            2 => ("Boolean", Value::Bool(self.r.bool())),
            3 => {
                let n = self.r.below(3);
                let ty = Ty::named("String").list();
                let items = (0..n).map(|_| if self.r.pct(20) { Value::Null } else { string(&mut self.r) }).collect();
                return (if self.r.pct(30) { ty.list().non_null() } else { ty }, Value::List(items));
            }
            4 => (self.r.str(&["Float", "ID"]), Value::Int(self.r.str(&["0", "12"]).to_string())),
            5 => return (Ty::named("String"), Value::Null),
            _ => (if self.r.bool() { "String" } else { "ID" }, string(&mut self.r)),
        };
        let ty = Ty::named(ty);
        (if self.r.pct(30) { ty.non_null() } else { ty }, v)
    }

    fn builtin(&mut self) -> String {
        self.r.str(&["Int", "String", "Boolean", "ID", "Float", "String"]).to_string()
    }

    fn out_base(&mut self, s: &Set) -> String {
        if self.r.pct(45) {
            return self.builtin();
        }
        let c: Vec<String> = self
            .order
            .iter()
            .filter(|t| {
                let k = self.kinds[*t];
                k.is_output()
                    && !crate::universe::ROOTS.iter().any(|r| r.1 == **t)
                    && self.in_all(t, s)
                    && (k != Kind::Enum || self.plans[*t] != Plan::In)
            })
            .cloned()
            .collect();
        if c.is_empty() { self.builtin() } else { self.r.pick(&c).clone() }
    }

    fn in_base(&mut self, s: &Set) -> String {
        if self.r.pct(50) {
            return self.builtin();
        }
        let c: Vec<String> = self
            .order
            .iter()
            .filter(|t| {
                let k = self.kinds[*t];
                k.is_input() && self.in_all(t, s) && (k != Kind::Enum || self.plans[*t] != Plan::Out)
            })
            .cloned()
            .collect();
        if c.is_empty() { self.builtin() } else { self.r.pick(&c).clone() }
    }

    /// A type whose outermost position is nullable.
    fn shape(&mut self, base: &str) -> Ty {
        let mut t = Ty::named(base);
        for _ in 0..[0, 0, 0, 1, 1, 2][self.r.below(6)] {
            if self.r.pct(50) {
                t = t.non_null();
            }
            t = t.list();
        }
        t
    }

    fn desc(&mut self) -> Option<String> {
        if !self.r.pct(12) {
            return None;
        }
        Some(
            self.r
                .str(&[
                    "A thing.",
                    "second line\nfollows",
                    "with \"quotes\" inside",
                    "back\\slash",
                    "tab\tand é unicode ✓",
                    "  leading spaces",
                    "ends with a quote\"",
                    "# not a comment",
                    "three \"\"\" quotes",
                    "two\n\nparagraphs\n  indented",
                ])
                .to_string(),
        )
    }

    fn common_dirs(&mut self, v1: bool, deprecated: bool) -> Vec<Dir> {
        let mut d = vec![];
        if deprecated && self.r.pct(7) {
            d.push(if self.r.bool() {
                Dir::new("deprecated", &[("reason", Value::Str(self.r.str(&["old", "use \"x\"", "gone\nsoon"]).into()))])
            } else {
                Dir::new("deprecated", &[])
            });
        }
        if !v1 && self.r.pct(8) {
            for t in self.r.subset(&["public", "internal-x", "team:a"], 40) {
                d.push(Dir::new("tag", &[("name", Value::Str(t.to_string()))]));
            }
        }
        d
    }

    fn auth_dirs(&mut self, dirs: &mut Vec<Dir>) {
        if self.r.pct(4) {
            dirs.push(Dir::new("authenticated", &[]));
        }
        for (name, arg, pool) in [
            ("requiresScopes", "scopes", ["read:a", "write", "admin", "read:b c"]),
            ("policy", "policies", ["pol1", "pol\"2", "p3", "Z"]),
        ] {
            if self.r.pct(4) {
                let mut all = vec![];
                for _ in 0..1 + self.r.below(2) {
                    let mut inner = self.r.subset(&pool, 40);
                    if inner.is_empty() {
                        inner.push(pool[0]);
                    }
                    all.push(Value::List(inner.iter().map(|s| Value::Str(s.to_string())).collect()));
                }
                dirs.push(Dir::new(name, &[(arg, Value::List(all))]));
            }
        }
    }

    fn value(&mut self, ty: &Ty) -> Option<Value> {
        Some(match ty {
            Ty::NonNull(t) => self.value(t)?,
            Ty::List(t) => {
                let n = self.r.below(3);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.value(t)?);
                }
                Value::List(v)
            }
            Ty::Named(n) => match n.as_str() {
                "Int" => Value::Int(self.r.str(&["0", "-7", "42", "2147483647"]).into()),
                "Float" => Value::Float(self.r.str(&["0.5", "-1.25", "3.0"]).into()),
                "Boolean" => Value::Bool(self.r.bool()),
                "String" | "ID" => Value::Str(self.r.str(&["", "x", "a \"b\"", "line\nbreak", "é"]).into()),
                n => match self.safe_values.get(n) {
                    Some(v) if !v.is_empty() => {
                        let v = v.clone();
                        Value::Enum(self.r.pick(&v).clone())
                    }
                    _ => return None,
                },
            },
        })
    }

    /// Input values (arguments or input fields) shared by `s`: some in all of `s`, some only in a part.
    fn input_vals(&mut self, s: &Set, prefix: &str, common: usize, extra: usize) -> BTreeMap<usize, Vec<InputVal>> {
        let mut out: BTreeMap<usize, Vec<InputVal>> = s.iter().map(|i| (*i, vec![])).collect();
        for k in 0..common + extra {
            let partial = k >= common;
            let set = if partial { self.subset(s, 40) } else { s.clone() };
            let everywhere = set == *s;
            let mut base = self.in_base(&set);
            if k == 0 && self.hidden.contains(&base) {
                base = "Int".into();
            }
            let t = self.shape(&base);
            let default = if self.r.pct(20) { self.value(&t) } else { None };
            let hide = (self.ft.inaccessible && self.r.pct(5) && k > 0) || self.hidden.contains(&base);
            for i in &set {
                let mut ty = t.clone();
                if everywhere && default.is_none() && !hide && self.r.pct(30) {
                    ty = ty.non_null();
                }
                let mut dirs = if ty.is_non_null() { vec![] } else { self.common_dirs(self.v1[*i], true) };
                if hide && !self.v1[*i] {
                    dirs.push(Dir::new("inaccessible", &[]));
                }
                let desc = self.desc();
                let dflt = if self.r.pct(80) { default.clone() } else { None };
                out.get_mut(i).unwrap().push(InputVal { desc, name: format!("{prefix}{k}"), ty, default: dflt, dirs });
            }
        }
        for v in out.values_mut() {
            self.r.shuffle(v);
        }
        out
    }

    fn field(&mut self, owner: &str, name: &str, s: &Set, base: Option<&str>, plain: bool) {
        let base = match base {
            Some(b) => b.to_string(),
            None => self.out_base(s),
        };
        let t = self.shape(&base);
        let args = if plain || self.r.pct(60) {
            BTreeMap::new()
        } else {
            let (c, e) = (self.r.below(3), self.r.below(2));
            self.input_vals(s, "arg", c, e)
        };
        let hide_type = self.hidden.contains(&base);
        let hide = !plain && self.ft.inaccessible && self.r.pct(5);
        let hide_in = self.subset(s, 50);
        let shareable = s.len() > 1;
        let share_in = self.subset(s, 60);
        for i in s {
            let ty = if self.r.pct(35) { t.clone().non_null() } else { t.clone() };
            let mut dirs = self.common_dirs(self.v1[*i], true);
            if !self.v1[*i] {
                if hide_type || (hide && hide_in.contains(i)) {
                    dirs.push(Dir::new("inaccessible", &[]));
                }
                if shareable && (share_in.contains(i) || self.r.pct(30)) {
                    dirs.push(Dir::new("shareable", &[]));
                }
                if self.ft.auth {
                    self.auth_dirs(&mut dirs);
                }
            }
            if self.ft.auth && self.r.pct(3) {
                dirs.push(Dir::new("cost", &[("weight", Value::Int(self.r.range(0, 20).to_string()))]));
            }
            self.r.shuffle(&mut dirs);
            let desc = self.desc();
            let f = Field { desc, name: name.into(), args: args.get(i).cloned().unwrap_or_default(), ty, dirs };
            self.docs[*i].get_mut(owner).unwrap().fields.push(f);
        }
        // At least one v2 definition has to say that the field is shared.
        if shareable {
            let v2: Vec<usize> = s.iter().copied().filter(|i| !self.v1[*i]).collect();
            if v2.len() > 1 {
                let marked = v2.iter().any(|i| {
                    self.docs[*i][owner].field(name).unwrap().dirs.iter().any(|d| d.name == "shareable")
                });
                if !marked {
                    let i = *self.r.pick(&v2);
                    let t = self.docs[i].get_mut(owner).unwrap();
                    let f = t.fields.iter_mut().find(|f| f.name == name).unwrap();
                    f.dirs.push(Dir::new("shareable", &[]));
                }
            }
        }
    }

    fn ty(&mut self, i: usize, t: &str) -> &mut TypeDef {
        self.docs[i].get_mut(t).unwrap()
    }
}

pub fn generate(r: &mut Rng, ft: Features) -> Vec<Sub> {
    let n = 1 + r.below(ft.max_subs);
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let v1: Vec<bool> = (0..n).map(|_| ft.v1 && r.pct(12)).collect();
    let all: Set = (0..n).collect();
    let mut g = G {
        r,
        ft,
        n,
        v1,
        presence: BTreeMap::new(),
        kinds: BTreeMap::new(),
        plans: BTreeMap::new(),
        safe_values: BTreeMap::new(),
        hidden: BTreeSet::new(),
        docs: vec![BTreeMap::new(); n],
        order: vec![],
    };
    let mut pool: Vec<&str> = TYPE_NAMES.iter().copied().filter(|n| n.is_ascii()).collect();
    g.r.shuffle(&mut pool);
    let any_v1 = g.v1.iter().any(|b| *b);

    // Declarations first, so that references can point anywhere.
    for k in 0..g.r.below(3) {
        let s = g.presence(50);
        let name = g.type_name("Scalar", k);
        g.declare(&name, Kind::Scalar, s);
    }
    let mut enums = vec![];
    for k in 0..g.r.below(3) {
        let s = g.presence(60);
        let name = g.type_name("Enum", k);
        g.declare(&name, Kind::Enum, s);
        let plan = *g.r.pick(&[Plan::In, Plan::Out, Plan::Both]);
        g.plans.insert(name.clone(), plan);
        enums.push((name, plan));
    }
    let mut inputs = vec![];
    for k in 0..g.r.below(3) {
        let s = g.presence(60);
        let name = g.type_name("Input", k);
        g.declare(&name, Kind::Input, s);
        inputs.push(name);
    }
    let mut ifaces = vec![];
    if g.ft.interfaces {
        for k in 0..g.r.below(3) {
            let s = g.presence(60);
            let name = g.type_name("Iface", k);
            g.declare(&name, Kind::Interface, s);
            ifaces.push(name);
        }
    }
    let mut objects = vec![];
    for _ in 0..2 + g.r.below(5) {
        let name = pool.pop().unwrap().to_string();
        let style = *g.r.pick(&[Style2::Entity, Style2::Entity, Style2::Value, Style2::Owned]);
        let s = match style {
            Style2::Owned => [g.r.below(g.n)].into(),
            _ => g.presence(55),
        };
        g.declare(&name, Kind::Object, s);
        objects.push((name, style));
    }
    let mut unions = vec![];
    for k in 0..g.r.below(3) {
        let s: Set = g
            .presence(60)
            .into_iter()
            .filter(|i| objects.iter().any(|(o, _)| g.presence[o].contains(i)))
            .collect();
        if !s.is_empty() {
            let name = g.type_name("Union", k);
            g.declare(&name, Kind::Union, s);
            unions.push(name);
        }
    }

    // Types that no consumer of the API may see.
    if g.ft.hidden_types && !any_v1 && g.r.pct(40) {
        let cands: Vec<String> = g
            .order
            .iter()
            .filter(|t| g.kinds[*t] != Kind::Interface && g.kinds[*t] != Kind::Object || g.r.bool())
            .filter(|t| g.kinds[*t] != Kind::Interface)
            .cloned()
            .collect();
        if !cands.is_empty() {
            let h = g.r.pick(&cands).clone();
            // Each definition of a union keeps a visible member.
            let ok = unions.iter().all(|u| {
                g.presence[u].iter().all(|i| objects.iter().any(|(o, _)| *o != h && g.presence[o].contains(i)))
            });
            if ok {
                g.hidden.insert(h);
            }
        }
    }

    // Enum values.
    for (name, plan) in &enums {
        let s = g.presence[name].clone();
        let np = g.r.range(2, 5);
        let pool: Vec<String> = ["RED", "green", "BLUE_2", "_X", "Zulu", "alpha"][..np].iter().map(|s| s.to_string()).collect();
        let safe = pool[0].clone();
        let mut lists: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        let mut shared = pool.clone();
        g.r.shuffle(&mut shared);
        for i in &s {
            let l = match plan {
                Plan::Both => shared.clone(),
                _ => {
                    let mut l: Vec<String> = pool.iter().filter(|v| **v == safe || g.r.pct(60)).cloned().collect();
                    if *plan == Plan::Out && s.len() > 1 && l.len() > 1 && g.r.pct(30) {
                        l.remove(0);
                    }
                    g.r.shuffle(&mut l);
                    l
                }
            };
            lists.insert(*i, l);
        }
        let hide = g.ft.inaccessible && g.r.pct(15);
        let mut in_all: Vec<String> = pool.clone();
        for (i, l) in &lists {
            in_all.retain(|v| l.contains(v));
            for (k, v) in l.iter().enumerate() {
                let mut dirs = g.common_dirs(g.v1[*i], true);
                if hide && k == 1 && *v != safe && !g.v1[*i] {
                    dirs.push(Dir::new("inaccessible", &[]));
                    in_all.retain(|x| x != v);
                }
                let desc = g.desc();
                g.ty(*i, name).values.push(EnumVal { desc, name: v.clone(), dirs });
            }
        }
        // Only values that no definition hides may appear as default values.
        let hidden_values: BTreeSet<String> = lists
            .keys()
            .flat_map(|i| g.docs[*i][name].values.clone())
            .filter(|v| v.dirs.iter().any(|d| d.name == "inaccessible"))
            .map(|v| v.name)
            .collect();
        in_all.retain(|v| !hidden_values.contains(v));
        // Something visible has to be left in each definition of an output enum.
        if *plan == Plan::Out && lists.values().all(|l| l.iter().all(|v| hidden_values.contains(v))) {
            for i in lists.keys() {
                for v in &mut g.docs[*i].get_mut(name).unwrap().values {
                    v.dirs.retain(|d| d.name != "inaccessible");
                }
            }
        }
        g.safe_values.insert(name.clone(), in_all);
    }

    // Input objects.
    for name in &inputs {
        let s = g.presence[name].clone();
        let (c, e) = (1 + g.r.below(3), g.r.below(3));
        // A required reference to an input object could make a cycle: only nullable ones point backwards.
        let mut v = g.input_vals(&s, "in", c, e);
        for l in v.values_mut() {
            for f in l.iter_mut() {
                if inputs.iter().any(|n| n == f.ty.base()) {
                    f.ty = f.ty.clone().nullable();
                }
            }
        }
        let one_of = g.r.pct(10) && !v.values().flatten().any(|f| f.ty.is_non_null() || f.default.is_some());
        for (i, l) in v {
            let desc = g.desc();
            let t = g.ty(i, name);
            t.inputs = l;
            t.desc = desc;
            if one_of {
                t.dirs.push(Dir::new("oneOf", &[]));
            }
        }
    }

    // Interfaces: same field types everywhere, some fields only in a part of the definitions.
    for name in &ifaces {
        let s = g.presence[name].clone();
        let nf = 1 + g.r.below(3);
        for k in 0..nf {
            let set = if k == 0 { s.clone() } else { g.subset(&s, 60) };
            let base = {
                let c: Vec<String> = g
                    .order
                    .iter()
                    .filter(|t| {
                        g.kinds[*t].is_output()
                            && g.in_all(t, &all)
                            && !g.hidden.contains(*t)
                            && (g.kinds[*t] != Kind::Enum || g.plans[*t] != Plan::In)
                    })
                    .cloned()
                    .collect();
                if c.is_empty() || g.r.pct(50) { g.builtin() } else { g.r.pick(&c).clone() }
            };
            let mut ty = g.shape(&base);
            if g.r.pct(30) {
                ty = ty.non_null();
            }
            let args = if g.r.pct(25) {
                vec![InputVal { desc: None, name: "first".into(), ty: Ty::named("Int"), default: None, dirs: vec![] }]
            } else {
                vec![]
            };
            for i in &set {
                let dirs = g.common_dirs(g.v1[*i], true);
                let desc = g.desc();
                let f = Field { desc, name: format!("{}F{k}", name.to_lowercase()), args: args.clone(), ty: ty.clone(), dirs };
                g.ty(*i, name).fields.push(f);
            }
        }
    }
    // An interface implementing another one, wherever both are defined.
    if ifaces.len() == 2 && g.r.pct(50) {
        implement(&mut g, &ifaces[1], &ifaces[0]);
    }

    // Objects: keys and own fields.
    for (name, style) in objects.clone() {
        let s = g.presence[&name].clone();
        match style {
            Style2::Entity => {
                for i in &s {
                    let f = Field { desc: None, name: "id".into(), args: vec![], ty: Ty::named("ID").non_null(), dirs: vec![] };
                    g.ty(*i, &name).fields.push(f);
                    let resolvable = !g.r.pct(12);
                    let mut d = Dir::new("key", &[("fields", Value::Str("id".into()))]);
                    if !resolvable {
                        d.args.push(("resolvable".into(), Value::Bool(false)));
                    }
                    g.ty(*i, &name).dirs.push(d);
                }
                if g.r.pct(35) {
                    let set = g.subset(&s, 60);
                    for i in &set {
                        let f = Field { desc: None, name: "sku".into(), args: vec![], ty: Ty::named("String").non_null(), dirs: vec![] };
                        g.ty(*i, &name).fields.push(f);
                        let fields = g.r.str(&["sku", "id sku", "sku id"]);
                        g.ty(*i, &name).dirs.push(Dir::new("key", &[("fields", Value::Str(fields.into()))]));
                    }
                }
                // A key that goes through another entity.
                let others: Vec<String> = objects
                    .iter()
                    .filter(|(o, st)| *o != name && *st == Style2::Entity && !g.hidden.contains(o))
                    .map(|(o, _)| o.clone())
                    .collect();
                if !others.is_empty() && g.r.pct(25) {
                    let o = g.r.pick(&others).clone();
                    let both: Set = s.intersection(&g.presence[&o]).copied().collect();
                    if !both.is_empty() {
                        let set = g.subset(&both, 70);
                        for i in &set {
                            let f = Field { desc: None, name: "org".into(), args: vec![], ty: Ty::named(&o).non_null(), dirs: vec![] };
                            g.ty(*i, &name).fields.push(f);
                            let fields = g.r.str(&["org { id }", "id org { id }", "org{id} id"]);
                            g.ty(*i, &name).dirs.push(Dir::new("key", &[("fields", Value::Str(fields.into()))]));
                        }
                    }
                }
                let nf = g.r.below(4);
                for k in 0..nf {
                    let set = if g.r.pct(65) {
                        [*g.r.pick(&s.iter().copied().collect::<Vec<_>>())].into()
                    } else {
                        g.subset(&s, 50)
                    };
                    g.field(&name, &format!("f{k}"), &set, None, false);
                }
            }
            Style2::Value => {
                let whole = g.r.bool();
                let nf = 1 + g.r.below(4);
                for k in 0..nf {
                    let set = if whole || k == 0 { s.clone() } else { g.subset(&s, 60) };
                    g.field(&name, &format!("v{k}"), &set, None, k == 0);
                    if whole {
                        for i in &s {
                            let t = g.ty(*i, &name);
                            for f in &mut t.fields {
                                f.dirs.retain(|d| d.name != "shareable");
                            }
                        }
                    }
                }
                if whole {
                    let v2: Set = s.iter().copied().filter(|i| !g.v1[*i]).collect();
                    if !v2.is_empty() {
                        for i in g.subset(&v2, 70) {
                            g.ty(i, &name).dirs.push(Dir::new("shareable", &[]));
                        }
                    }
                }
            }
            Style2::Owned => {
                let nf = 1 + g.r.below(4);
                for k in 0..nf {
                    g.field(&name, &format!("o{k}"), &s, None, k == 0);
                }
            }
        }
    }

    // The visible anchor of every object must not be of a hidden type.
    for (name, _) in &objects {
        if g.hidden.contains(name) {
            continue;
        }
        let s = g.presence[name].clone();
        let visible = s.iter().any(|i| {
            g.docs[*i][name].fields.iter().any(|f| {
                !s.iter().any(|j| {
                    g.docs[*j][name].field(&f.name).is_some_and(|f| f.dirs.iter().any(|d| d.name == "inaccessible"))
                })
            })
        });
        if !visible {
            g.field(name, "visible", &s, Some("Int"), true);
        }
    }

    // Implementations. Objects with type-level @shareable need the same fields everywhere, so they are left out.
    for iface in &ifaces {
        for (o, _) in objects.clone() {
            let s = g.presence[&o].clone();
            let whole = s.iter().any(|i| g.docs[*i][&o].dirs.iter().any(|d| d.name == "shareable"));
            if whole || g.hidden.contains(&o) || s.intersection(&g.presence[iface]).next().is_none() || !g.r.pct(40) {
                continue;
            }
            implement(&mut g, &o, iface);
        }
    }

    // Unions.
    for name in &unions {
        for i in g.presence[name].clone() {
            let c: Vec<String> = objects
                .iter()
                .map(|o| o.0.clone())
                .filter(|o| g.presence[o].contains(&i) && !g.hidden.contains(o))
                .collect();
            let mut m: Vec<String> = c.iter().filter(|_| g.r.pct(60)).cloned().collect();
            if m.is_empty() {
                m.push(g.r.pick(&c).clone());
            }
            for (o, _) in &objects {
                if g.hidden.contains(o) && g.presence[o].contains(&i) && g.r.bool() {
                    m.push(o.clone());
                }
            }
            g.r.shuffle(&mut m);
            g.ty(i, name).members = m;
        }
    }

    // Roots.
    let qs = g.presence(70);
    g.declare("Query", Kind::Object, qs.clone());
    for i in &qs {
        for k in 0..1 + g.r.below(3) {
            g.field("Query", &format!("q{i}_{k}"), &[*i].into(), None, k == 0 && false);
        }
    }
    if qs.len() > 1 && g.r.pct(40) {
        let set = g.subset(&qs, 60);
        g.field("Query", "shared", &set, None, false);
    }
    for (root, p) in [("Mutation", 35), ("Subscription", 25)] {
        if g.r.pct(p) {
            let s = g.presence(40);
            g.declare(root, Kind::Object, s.clone());
            for i in &s {
                for k in 0..1 + g.r.below(2) {
                    g.field(root, &format!("{}{i}_{k}", root[..1].to_lowercase()), &[*i].into(), None, false);
                }
            }
        }
    }
    for root in ["Query", "Mutation", "Subscription"] {
        let Some(s) = g.presence.get(root).cloned() else { continue };
        for i in s {
            let t = g.ty(i, root);
            if t.fields.iter().all(|f| f.dirs.iter().any(|d| d.name == "inaccessible")) {
                g.field(root, &format!("{}Visible{i}", root.to_lowercase()), &[i].into(), Some("Int"), true);
            }
        }
    }

    // Moving fields between subgraphs, and fields that are resolved elsewhere.
    let entities: Vec<String> = objects.iter().filter(|o| o.1 == Style2::Entity).map(|o| o.0.clone()).collect();
    for e in &entities {
        let s = g.presence[e].clone();
        if s.len() < 2 {
            continue;
        }
        if g.ft.overrides && g.r.pct(35) {
            let v: Vec<usize> = s.iter().copied().collect();
            let to = *g.r.pick(&v);
            if !g.v1[to] {
                let mut missing = false;
                let from = if g.r.pct(20) {
                    missing = true;
                    None
                } else {
                    let o: Vec<usize> = v.iter().copied().filter(|i| *i != to).collect();
                    Some(*g.r.pick(&o))
                };
                let base = g.builtin();
                let ty = g.shape(&base);
                let mut set: Vec<usize> = vec![to];
                set.extend(from);
                for i in &set {
                    let f = Field { desc: None, name: "moved".into(), args: vec![], ty: ty.clone(), dirs: vec![] };
                    g.ty(*i, e).fields.push(f);
                }
                let from_name = if missing { "legacy".to_string() } else { names[from.unwrap()].to_string() };
                let mut d = Dir::new("override", &[("from", Value::Str(from_name))]);
                if g.r.pct(40) {
                    let p = *g.r.pick(&[0, 1, 10, 50, 99, 100]);
                    d.args.push(("label".into(), Value::Str(format!("percent({p})"))));
                }
                let t = g.ty(to, e);
                t.fields.iter_mut().find(|f| f.name == "moved").unwrap().dirs.push(d);
            }
        }
        if g.ft.externals && g.r.pct(45) {
            let v: Vec<usize> = s.iter().copied().collect();
            let owner = *g.r.pick(&v);
            let o: Vec<usize> = v.iter().copied().filter(|i| *i != owner).collect();
            let user = *g.r.pick(&o);
            let nb = g.r.range(1, 2);
            let mut names = vec![];
            for k in 0..nb {
                let base = g.builtin();
                let mut ty = g.shape(&base);
                if g.r.bool() {
                    ty = ty.non_null();
                }
                let name = format!("ext{k}");
                let (mut args, mut values) = (vec![], vec![]);
                if g.r.pct(35) {
                    for a in 0..g.r.range(1, 2) {
                        let (ty, v) = g.argument_value();
                        let name = format!("a{a}");
                        if ty.to_string().ends_with('!') || g.r.pct(80) {
                            values.push(format!("{name}: {v}"));
                        }
                        args.push(InputVal { desc: None, name, ty, default: None, dirs: vec![] });
                    }
                }
                let f = Field { desc: None, name: name.clone(), args, ty, dirs: vec![] };
                g.ty(owner, e).fields.push(f.clone());
                let mut f = f;
                f.dirs.push(Dir::new("external", &[]));
                g.ty(user, e).fields.push(f);
                names.push(if values.is_empty() { name } else { format!("{name}({})", values.join(", ")) });
            }
            let sel = names.join(" ");
            if g.r.pct(70) {
                let base = g.builtin();
                let f = Field {
                    desc: None,
                    name: "derived".into(),
                    args: vec![],
                    ty: g.shape(&base),
                    dirs: vec![Dir::new("requires", &[("fields", Value::Str(sel.clone()))])],
                };
                g.ty(user, e).fields.push(f);
            }
            // Fields of this subgraph that return the entity may provide the external ones.
            let keys: Vec<String> = g.docs[user].keys().cloned().collect();
            for t in keys {
                let provide: Vec<bool> = {
                    let fs: Vec<bool> = g.docs[user][&t]
                        .fields
                        .iter()
                        .map(|f| f.ty.base() == e && !f.dirs.iter().any(|d| d.name == "external"))
                        .collect();
                    fs.into_iter().map(|b| b && g.docs[user][&t].kind == Kind::Object && g.r.pct(50)).collect()
                };
                for (k, p) in provide.into_iter().enumerate() {
                    if p {
                        let n = g.r.pick(&names).clone();
                        g.ty(user, &t).fields[k].dirs.push(Dir::new("provides", &[("fields", Value::Str(n))]));
                    }
                }
            }
        }
    }

    // Type-level directives and descriptions.
    for t in g.order.clone() {
        let presence = g.presence[&t].clone();
        let hidden_in = if g.hidden.contains(&t) { g.subset(&presence, 60) } else { Set::new() };
        let root = ROOTS.iter().any(|r| r.1 == t);
        for i in g.presence[&t].clone() {
            if !root {
                let d = g.common_dirs(g.v1[i], false);
                let desc = g.desc();
                let auth = g.ft.auth && !g.v1[i] && matches!(g.kinds[&t], Kind::Object | Kind::Enum | Kind::Scalar) && g.r.pct(30);
                let hidden = hidden_in.contains(&i);
                let mut auth_dirs = vec![];
                if auth {
                    g.auth_dirs(&mut auth_dirs);
                }
                let td = g.ty(i, &t);
                td.dirs.extend(d);
                if td.desc.is_none() {
                    td.desc = desc;
                }
                td.dirs.extend(auth_dirs);
                if hidden {
                    td.dirs.push(Dir::new("inaccessible", &[]));
                }
            }
        }
    }

    // Assemble.
    let mut out = vec![];
    for i in 0..n {
        let mut s = Sub::new(names[i]);
        s.fed = if g.v1[i] { Fed::V1 } else { Fed::V2 };
        s.style = if g.v1[i] {
            Style::Bare
        } else {
            match g.r.below(10) {
                0..=5 => Style::Import,
                6 | 7 => Style::Prefix,
                8 => Style::Namespace("fed".into()),
                _ => Style::Renamed,
            }
        };
        s.rename_roots = g.r.pct(12) && ROOTS.iter().any(|r| g.docs[i].contains_key(r.1));
        let mut defs: Vec<TypeDef> = g.docs[i].values().cloned().collect();
        g.r.shuffle(&mut defs);
        for d in &mut defs {
            g.r.shuffle(&mut d.fields);
            if d.kind == Kind::Object && d.desc.is_none() && g.r.pct(6) && !(s.rename_roots && ROOTS.iter().any(|r| r.1 == d.name)) {
                s.extend_objects.insert(d.name.clone());
            }
        }
        if defs.is_empty() {
            // An empty document is not a subgraph: give it a root field of its own.
            let mut q = TypeDef::new(Kind::Object, "Query");
            q.fields.push(Field { desc: None, name: format!("only{i}"), args: vec![], ty: Ty::named("Int"), dirs: vec![] });
            defs.push(q);
        }
        s.doc.defs = defs.into_iter().map(Def::Type).collect();
        out.push(s);
    }
    out
}

/// Makes `o` implement `iface` wherever both are defined, and have its fields.
fn implement(g: &mut G<'_>, o: &str, iface: &str) {
    let so = g.presence[o].clone();
    let si = g.presence[iface].clone();
    let is_iface = g.kinds[o] == Kind::Interface;
    let fields: BTreeMap<String, Field> =
        si.iter().flat_map(|i| g.docs[*i][iface].fields.clone()).map(|f| (f.name.clone(), f)).collect();
    let both: Set = so.intersection(&si).copied().collect();
    if both.is_empty() {
        return;
    }
    // Interfaces that `iface` itself implements come along.
    let parents: BTreeSet<String> = si.iter().flat_map(|i| g.docs[*i][iface].implements.clone()).collect();
    for p in &parents {
        implement(g, o, p);
        if !so.iter().any(|i| g.docs[*i][o].implements.contains(p)) {
            return;
        }
    }
    for i in &both {
        let t = g.docs[*i].get_mut(o).unwrap();
        if !t.implements.contains(&iface.to_string()) {
            t.implements.push(iface.into());
        }
    }
    for (name, f) in fields {
        let mut set: Set = both.iter().copied().filter(|i| g.docs[*i][iface].field(&name).is_some()).collect();
        set.retain(|i| g.docs[*i][o].field(&name).is_none());
        if set.is_empty() && !so.iter().any(|i| g.docs[*i][o].field(&name).is_some()) {
            let v: Vec<usize> = so.iter().copied().collect();
            set.insert(*g.r.pick(&v));
        }
        let total = so.iter().filter(|i| g.docs[**i][o].field(&name).is_some() || set.contains(i)).count();
        for i in &set {
            let mut f = f.clone();
            f.dirs.clear();
            f.desc = None;
            if g.r.pct(30) && !is_iface {
                f.ty = f.ty.non_null();
            }
            if !is_iface && !g.v1[*i] && total > 1 {
                f.dirs.push(Dir::new("shareable", &[]));
            }
            g.docs[*i].get_mut(o).unwrap().fields.push(f);
        }
    }
}
