//! Random schemas, valid GraphQL unless edited, and random ways to write them down.
use vcommon::Rng;
use vgql::*;

const TYPES: [&str; 14] =
    ["A", "B", "Item", "Item2", "Ite", "ItemConnection", "Node", "User", "Us", "Z_", "_Aa", "auth", "key", "Extra"];
const FIELDS: [&str; 14] = ["a", "b", "id", "name", "nam", "name2", "items", "x", "first", "after", "_z", "type", "on", "Item"];
const ARGS: [&str; 8] = ["a", "first", "after", "filter", "x", "id", "on", "input"];
const VALUES: [&str; 9] = ["RED", "GREEN", "BLUE", "a", "A", "REDDISH", "on", "_V", "Item"];
const DIRECTIVES: [&str; 6] = ["auth", "key", "tag", "cost", "Item", "a"];

fn pick_some(rng: &mut Rng, from: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let mut v: Vec<String> = from.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut v);
    v.truncate(rng.range(lo, hi));
    v
}

pub fn description(rng: &mut Rng) -> Option<String> {
    rng.pct(20).then(|| {
        rng.str(&["text", "two\nlines", "with \"quotes\"", "# not a comment", "{ brackets }", "ünï", "a: Int", "\\ back"]).to_owned()
    })
}

/// A wrapped type over `base`.
pub fn wrapped(rng: &mut Rng, base: &str) -> Ty {
    let mut t = Ty::named(base);
    for _ in 0..[0, 0, 0, 1, 1, 2][rng.below(6)] {
        if rng.bool() {
            t = t.non_null();
        }
        t = t.list();
    }
    if rng.pct(40) { t.non_null() } else { t }
}

pub fn names_of(doc: &Doc, f: impl Fn(Kind) -> bool) -> Vec<String> {
    doc.types().filter(|t| !t.ext && f(t.kind)).map(|t| t.name.clone()).collect()
}

pub fn input_ty(rng: &mut Rng, doc: &Doc) -> Ty {
    let mut names = names_of(doc, Kind::is_input);
    names.extend(BUILTIN_SCALARS.map(String::from));
    let base = rng.pick(&names).clone();
    wrapped(rng, &base)
}

pub fn output_ty(rng: &mut Rng, doc: &Doc) -> Ty {
    let mut names = names_of(doc, Kind::is_output);
    names.extend(BUILTIN_SCALARS.map(String::from));
    let base = rng.pick(&names).clone();
    wrapped(rng, &base)
}

/// A constant of type `ty`. None if there is none worth generating (recursive inputs).
pub fn constant(rng: &mut Rng, doc: &Doc, ty: &Ty, depth: u32) -> Option<Value> {
    match ty {
        Ty::NonNull(t) => match constant(rng, doc, t, depth)? {
            Value::Null => plain(rng, doc, t, depth),
            v => Some(v),
        },
        t if rng.pct(8) => {
            let _ = t;
            Some(Value::Null)
        }
        t => plain(rng, doc, t, depth),
    }
}

fn plain(rng: &mut Rng, doc: &Doc, ty: &Ty, depth: u32) -> Option<Value> {
    Some(match ty {
        Ty::NonNull(t) => return plain(rng, doc, t, depth),
        Ty::List(t) => {
            let n = if depth > 3 { 0 } else { rng.below(3) };
            Value::List((0..n).map(|_| constant(rng, doc, t, depth + 1)).collect::<Option<_>>()?)
        }
        Ty::Named(n) => match n.as_str() {
            "Int" => Value::Int(rng.str(&["0", "1", "-7", "100"]).into()),
            "Float" => Value::Float(rng.str(&["0.5", "1.0", "-2.25"]).into()),
            "Boolean" => Value::Bool(rng.bool()),
            "String" | "ID" => Value::Str(rng.str(&["", "x", "a b", "q\"q", "(y: 1)", "= 3", "# c", "{"]).into()),
            n => {
                let t = doc.ty(n)?;
                match t.kind {
                    Kind::Enum => Value::Enum(rng.pick(&t.values).name.clone()),
                    Kind::Input => {
                        if depth > 2 {
                            return None;
                        }
                        let mut out = vec![];
                        for f in &t.inputs {
                            if (f.ty.is_non_null() && f.default.is_none()) || rng.pct(30) {
                                out.push((f.name.clone(), constant(rng, doc, &f.ty, depth + 1)?));
                            }
                        }
                        Value::Obj(out)
                    }
                    _ => Value::Str(rng.str(&["", "s", "x y"]).into()),
                }
            }
        },
    })
}

pub fn input_val(rng: &mut Rng, doc: &Doc, name: &str) -> InputVal {
    let ty = input_ty(rng, doc);
    let default = if rng.pct(30) { constant(rng, doc, &ty, 0) } else { None };
    InputVal { desc: description(rng), name: name.into(), ty, default, dirs: some_dirs(rng, doc, "ARGUMENT_DEFINITION") }
}

/// Input field: a recursive required one would make the type unusable; those get nullable.
pub fn input_field(rng: &mut Rng, doc: &Doc, name: &str) -> InputVal {
    let mut f = input_val(rng, doc, name);
    if doc.ty(f.ty.base()).is_some_and(|t| t.kind == Kind::Input) {
        f.ty = f.ty.nullable();
        f.default = None;
    }
    f.dirs = some_dirs(rng, doc, "INPUT_FIELD_DEFINITION");
    f
}

pub fn some_dirs(rng: &mut Rng, doc: &Doc, place: &str) -> Vec<Dir> {
    let mut out = vec![];
    if !rng.pct(12) {
        return out;
    }
    for d in doc.directives() {
        if d.locations.iter().any(|l| l == place) && rng.bool() {
            let mut args = vec![];
            for a in &d.args {
                if (a.ty.is_non_null() && a.default.is_none()) || rng.bool() {
                    match constant(rng, doc, &a.ty, 0) {
                        Some(v) => args.push((a.name.clone(), v)),
                        None => return out,
                    }
                }
            }
            out.push(Dir { name: d.name.clone(), args });
        }
    }
    out
}

pub fn field(rng: &mut Rng, doc: &Doc, name: &str) -> Field {
    let args = if rng.pct(35) {
        pick_some(rng, &ARGS, 1, 4).iter().map(|a| input_val(rng, doc, a)).collect()
    } else {
        vec![]
    };
    Field { desc: description(rng), name: name.into(), args, ty: output_ty(rng, doc), dirs: some_dirs(rng, doc, "FIELD_DEFINITION") }
}

pub const LOCATIONS: [&str; 12] = [
    "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE",
    "INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "FIELD",
];

fn location(k: Kind) -> &'static str {
    match k {
        Kind::Scalar => "SCALAR",
        Kind::Object => "OBJECT",
        Kind::Interface => "INTERFACE",
        Kind::Union => "UNION",
        Kind::Enum => "ENUM",
        Kind::Input => "INPUT_OBJECT",
    }
}

pub fn directive_def(rng: &mut Rng, doc: &Doc, name: &str) -> DirDef {
    let mut locations = pick_some(rng, &LOCATIONS, 1, 12);
    locations.sort();
    let args: Vec<InputVal> = pick_some(rng, &ARGS, 0, 3)
        .iter()
        .map(|a| {
            let base = *rng.pick(&BUILTIN_SCALARS);
            let ty = wrapped(rng, base);
            let default = if rng.pct(30) { constant(rng, doc, &ty, 0) } else { None };
            InputVal { desc: description(rng), name: a.clone(), ty, default, dirs: vec![] }
        })
        .collect();
    DirDef { desc: description(rng), name: name.into(), args, repeatable: rng.pct(30), locations }
}

/// Fills a declared type with contents.
pub fn fill(rng: &mut Rng, doc: &Doc, kind: Kind, name: &str) -> TypeDef {
    let mut t = TypeDef::new(kind, name);
    t.desc = description(rng);
    t.dirs = some_dirs(rng, doc, location(kind));
    match kind {
        Kind::Scalar => {}
        Kind::Object | Kind::Interface => t.fields = pick_some(rng, &FIELDS, 1, 5).iter().map(|f| field(rng, doc, f)).collect(),
        Kind::Input => t.inputs = pick_some(rng, &FIELDS, 1, 5).iter().map(|f| input_field(rng, doc, f)).collect(),
        Kind::Enum => {
            t.values = pick_some(rng, &VALUES, 1, 6)
                .into_iter()
                .map(|name| EnumVal { desc: description(rng), name, dirs: some_dirs(rng, doc, "ENUM_VALUE") })
                .collect()
        }
        Kind::Union => {
            let mut objects = names_of(doc, |k| k == Kind::Object);
            rng.shuffle(&mut objects);
            objects.truncate(rng.range(1, 4));
            t.members = objects;
        }
    }
    t
}

pub fn some_kind(rng: &mut Rng) -> Kind {
    *rng.pick(&[Kind::Object, Kind::Object, Kind::Object, Kind::Interface, Kind::Interface, Kind::Input, Kind::Input, Kind::Enum, Kind::Union, Kind::Scalar])
}

/// A valid schema (no extensions).
pub fn generate(rng: &mut Rng) -> Doc {
    let mut doc = Doc::default();
    for d in pick_some(rng, &DIRECTIVES, 0, 3) {
        let d = directive_def(rng, &doc, &d);
        doc.defs.push(Def::Directive(d));
    }
    let mut names = pick_some(rng, &TYPES, 2, 9);
    let roots: Vec<(String, String)> = {
        let renamed = rng.pct(25);
        let mut r = vec![("query".to_owned(), if renamed { "RootQ" } else { "Query" }.to_owned())];
        if rng.pct(40) {
            r.push(("mutation".into(), if renamed { "RootM" } else { "Mutation" }.into()));
        }
        if rng.pct(20) {
            r.push(("subscription".into(), if renamed { "RootS" } else { "Subscription" }.into()));
        }
        r
    };
    let renamed = roots[0].1 == "RootQ";
    names.retain(|n| roots.iter().all(|r| r.1 != *n));
    for (_, r) in &roots {
        doc.push(TypeDef::new(Kind::Object, r));
    }
    for n in names {
        let k = some_kind(rng);
        doc.push(TypeDef::new(k, &n));
    }
    // Contents need the kinds of all the types; enums first, because defaults need their values, then inputs.
    let declared: Vec<(String, Kind)> = doc.types().map(|t| (t.name.clone(), t.kind)).collect();
    for k in [Kind::Enum, Kind::Input, Kind::Scalar, Kind::Interface, Kind::Object, Kind::Union] {
        for (n, kind) in declared.iter().filter(|(_, x)| *x == k) {
            let t = fill(rng, &doc, *kind, n);
            *doc.ty_mut(n).unwrap() = t;
        }
    }
    // Defaults of inputs that were generated before all the inputs were filled may lack required fields: drop those.
    let snapshot = doc.clone();
    for t in doc.types_mut() {
        for v in t.inputs.iter_mut().chain(t.fields.iter_mut().flat_map(|f| f.args.iter_mut())) {
            if v.default.as_ref().is_some_and(|d| !fits(&snapshot, d, &v.ty)) {
                v.default = None;
            }
        }
    }
    interfaces(rng, &mut doc);
    if renamed || rng.pct(25) {
        let dirs = some_dirs(rng, &doc, "SCHEMA");
        doc.defs.push(Def::Schema(SchemaDef { ext: false, desc: description(rng), dirs, roots }));
    }
    let mut defs = std::mem::take(&mut doc.defs);
    if rng.bool() {
        rng.shuffle(&mut defs);
    }
    doc.defs = defs;
    doc
}

/// Whether a constant is valid for a type (used to keep generated documents valid).
pub fn fits(doc: &Doc, v: &Value, ty: &Ty) -> bool {
    match (ty, v) {
        (_, Value::Var(_)) => true,
        (Ty::NonNull(_), Value::Null) => false,
        (Ty::NonNull(t), v) => fits(doc, v, t),
        (_, Value::Null) => true,
        (Ty::List(t), Value::List(vs)) => vs.iter().all(|v| fits(doc, v, t)),
        (Ty::List(t), v) => fits(doc, v, t),
        (Ty::Named(n), v) => match n.as_str() {
            "Int" => matches!(v, Value::Int(_)),
            "Float" => matches!(v, Value::Int(_) | Value::Float(_)),
            "String" => matches!(v, Value::Str(_)),
            "ID" => matches!(v, Value::Int(_) | Value::Str(_)),
            "Boolean" => matches!(v, Value::Bool(_)),
            n => match doc.ty(n) {
                None => false,
                Some(t) => match (t.kind, v) {
                    (Kind::Enum, Value::Enum(e)) => t.value(e).is_some(),
                    (Kind::Input, Value::Obj(o)) => {
                        o.iter().all(|(n, v)| t.input(n).is_some_and(|f| fits(doc, v, &f.ty)))
                            && t.inputs.iter().all(|f| {
                                !f.ty.is_non_null() || f.default.is_some() || o.iter().any(|(n, _)| *n == f.name)
                            })
                    }
                    (Kind::Scalar, v) => !matches!(v, Value::Enum(_)),
                    _ => false,
                },
            },
        },
    }
}

/// Makes some types implement some interfaces: they get the fields they lack.
pub fn interfaces(rng: &mut Rng, doc: &mut Doc) {
    let ifaces = names_of(doc, |k| k == Kind::Interface);
    let mut order = ifaces.clone();
    rng.shuffle(&mut order);
    for (i, n) in order.iter().enumerate() {
        if rng.pct(30) && i > 0 {
            let parent = order[rng.below(i)].clone();
            implement(doc, n, &parent);
        }
    }
    for o in names_of(doc, |k| k == Kind::Object) {
        for i in &ifaces {
            if rng.pct(30) {
                implement(doc, &o, i);
            }
        }
    }
}

/// `name` implements `iface` (and what it implements), with the same fields.
pub fn implement(doc: &mut Doc, name: &str, iface: &str) {
    let Some(i) = doc.ty(iface).cloned() else { return };
    for p in i.implements.iter().chain([&i.name]) {
        if p == name {
            continue;
        }
        let Some(pt) = doc.ty(p).cloned() else { continue };
        let t = doc.ty_mut(name).unwrap();
        if !t.implements.contains(p) {
            t.implements.push(p.clone());
        }
        for f in &pt.fields {
            match t.fields.iter_mut().find(|x| x.name == f.name) {
                Some(x) => {
                    x.ty = f.ty.clone();
                    x.args = f.args.clone();
                }
                None => t.fields.push(f.clone()),
            }
        }
    }
}

/// One random edit of a schema. The result may be invalid.
pub fn edit(rng: &mut Rng, doc: &mut Doc) {
    let n = doc.defs.len();
    if n == 0 {
        let k = some_kind(rng);
        let t = fill(rng, doc, k, "A");
        doc.push(t);
        return;
    }
    let snapshot = doc.clone();
    match rng.below(100) {
        0..8 => {
            let i = rng.below(n);
            doc.defs.remove(i);
        }
        8..16 => {
            let free: Vec<&&str> = TYPES.iter().filter(|t| doc.ty(t).is_none()).collect();
            if free.is_empty() {
                return;
            }
            let name = **rng.pick(&free);
            let k = some_kind(rng);
            let t = fill(rng, &snapshot, k, name);
            let at = rng.range(0, n);
            doc.defs.insert(at, Def::Type(t));
        }
        16..19 => {
            let free: Vec<&&str> = DIRECTIVES.iter().filter(|t| doc.directives().all(|d| d.name != ***t)).collect();
            if free.is_empty() {
                return;
            }
            let name = **rng.pick(&free);
            let d = directive_def(rng, &snapshot, name);
            doc.defs.push(Def::Directive(d));
        }
        19..23 => {
            // The same name becomes another kind.
            let k = some_kind(rng);
            let i = rng.below(n);
            if let Def::Type(t) = &mut doc.defs[i] {
                let name = t.name.clone();
                *t = fill(rng, &snapshot, k, &name);
            }
        }
        23..28 => {
            // Root types.
            let objects = names_of(&snapshot, |k| k == Kind::Object);
            if objects.is_empty() {
                return;
            }
            match doc.defs.iter_mut().find_map(|d| match d { Def::Schema(s) if !s.ext => Some(s), _ => None }) {
                Some(s) => {
                    let op = *rng.pick(&["query", "mutation", "subscription"]);
                    let at = s.roots.iter().position(|r| r.0 == op);
                    match at {
                        Some(i) if rng.bool() && s.roots.len() > 1 => {
                            s.roots.remove(i);
                        }
                        Some(i) => s.roots[i].1 = rng.pick(&objects).clone(),
                        None => s.roots.push((op.into(), rng.pick(&objects).clone())),
                    }
                }
                None => doc.defs.push(Def::Schema(SchemaDef {
                    ext: false,
                    desc: description(rng),
                    dirs: vec![],
                    roots: vec![("query".into(), rng.pick(&objects).clone())],
                })),
            }
        }
        _ => {
            let ts: Vec<usize> = (0..n).filter(|i| matches!(&doc.defs[*i], Def::Type(_))).collect();
            if ts.is_empty() {
                return;
            }
            let i = *rng.pick(&ts);
            let Def::Type(t) = &mut doc.defs[i] else { unreachable!() };
            edit_type(rng, &snapshot, t);
        }
    }
}

fn free_name(rng: &mut Rng, pool: &[&str], used: &[String]) -> Option<String> {
    let free: Vec<&&str> = pool.iter().filter(|p| !used.iter().any(|u| u == **p)).collect();
    if free.is_empty() { None } else { Some(rng.pick(&free).to_string()) }
}

pub fn edit_type(rng: &mut Rng, doc: &Doc, t: &mut TypeDef) {
    match t.kind {
        Kind::Scalar => {}
        Kind::Union => {
            if rng.bool() && t.members.len() > 1 {
                let i = rng.below(t.members.len());
                t.members.remove(i);
            } else {
                let objects = names_of(doc, |k| k == Kind::Object);
                let free: Vec<&String> = objects.iter().filter(|o| !t.members.contains(o)).collect();
                if !free.is_empty() {
                    let at = rng.range(0, t.members.len());
                    t.members.insert(at, rng.pick(&free).to_string());
                }
            }
        }
        Kind::Enum => {
            if rng.bool() && t.values.len() > 1 {
                let i = rng.below(t.values.len());
                t.values.remove(i);
            } else if let Some(n) = free_name(rng, &VALUES, &t.values.iter().map(|v| v.name.clone()).collect::<Vec<_>>()) {
                let at = rng.range(0, t.values.len());
                let v = EnumVal { desc: description(rng), name: n, dirs: some_dirs(rng, doc, "ENUM_VALUE") };
                t.values.insert(at, v);
            }
        }
        Kind::Input => match rng.below(4) {
            0 if t.inputs.len() > 1 => {
                let i = rng.below(t.inputs.len());
                t.inputs.remove(i);
            }
            1 => {
                if let Some(n) = free_name(rng, &FIELDS, &t.inputs.iter().map(|v| v.name.clone()).collect::<Vec<_>>()) {
                    let f = input_field(rng, doc, &n);
                    let at = rng.range(0, t.inputs.len());
                    t.inputs.insert(at, f);
                }
            }
            _ => {
                let i = rng.below(t.inputs.len());
                let ty = rewrap(rng, doc, &t.inputs[i].ty, true);
                t.inputs[i].ty = ty;
            }
        },
        Kind::Object | Kind::Interface => match rng.below(10) {
            0 if t.fields.len() > 1 => {
                let i = rng.below(t.fields.len());
                t.fields.remove(i);
            }
            1 => {
                if let Some(n) = free_name(rng, &FIELDS, &t.fields.iter().map(|v| v.name.clone()).collect::<Vec<_>>()) {
                    let f = field(rng, doc, &n);
                    let at = rng.range(0, t.fields.len());
                    t.fields.insert(at, f);
                }
            }
            2 => {
                if rng.bool() && !t.implements.is_empty() {
                    let i = rng.below(t.implements.len());
                    t.implements.remove(i);
                } else {
                    let ifaces = names_of(doc, |k| k == Kind::Interface);
                    let free: Vec<&String> = ifaces.iter().filter(|o| !t.implements.contains(o) && **o != t.name).collect();
                    if !free.is_empty() {
                        t.implements.push(rng.pick(&free).to_string());
                    }
                }
            }
            3 | 4 => {
                let i = rng.below(t.fields.len());
                let ty = rewrap(rng, doc, &t.fields[i].ty, false);
                t.fields[i].ty = ty;
            }
            _ => {
                let i = if rng.bool() {
                    t.fields.iter().position(|f| !f.args.is_empty()).unwrap_or(0)
                } else {
                    rng.below(t.fields.len())
                };
                edit_args(rng, doc, &mut t.fields[i]);
            }
        },
    }
}

fn rewrap(rng: &mut Rng, doc: &Doc, ty: &Ty, input: bool) -> Ty {
    match rng.below(4) {
        0 => ty.clone().non_null(),
        1 => ty.clone().nullable(),
        2 => wrapped(rng, ty.base()),
        _ if input => input_ty(rng, doc),
        _ => output_ty(rng, doc),
    }
}

fn edit_args(rng: &mut Rng, doc: &Doc, f: &mut Field) {
    match rng.below(5) {
        0 if !f.args.is_empty() => {
            let i = rng.below(f.args.len());
            f.args.remove(i);
        }
        0 | 1 => {
            if let Some(n) = free_name(rng, &ARGS, &f.args.iter().map(|v| v.name.clone()).collect::<Vec<_>>()) {
                let a = input_val(rng, doc, &n);
                let at = rng.range(0, f.args.len());
                f.args.insert(at, a);
            }
        }
        k if !f.args.is_empty() => {
            let i = rng.below(f.args.len());
            if k == 2 {
                f.args[i].ty = rewrap(rng, doc, &f.args[i].ty, true);
                f.args[i].default = f.args[i].default.take().filter(|d| fits(doc, d, &f.args[i].ty));
            } else {
                f.args[i].default = match &f.args[i].default {
                    Some(_) if rng.bool() => None,
                    _ => constant(rng, doc, &f.args[i].ty, 0),
                };
            }
        }
        _ => {}
    }
}

/// Moves parts of definitions into extensions.
pub fn split(rng: &mut Rng, doc: &Doc) -> Doc {
    let mut out = Doc::default();
    for d in &doc.defs {
        let Def::Type(t) = d else {
            out.defs.push(d.clone());
            continue;
        };
        let mut t = t.clone();
        let mut e = TypeDef::new(t.kind, &t.name);
        e.ext = true;
        if rng.pct(50) {
            fn part<T>(rng: &mut Rng, v: &mut Vec<T>, keep: usize) -> Vec<T> {
                if v.len() > keep {
                    let at = rng.range(keep, v.len());
                    v.split_off(at)
                } else {
                    vec![]
                }
            }
            e.implements = part(rng, &mut t.implements, 0);
            e.fields = part(rng, &mut t.fields, 1);
            e.inputs = part(rng, &mut t.inputs, 1);
            e.values = part(rng, &mut t.values, 1);
            e.members = part(rng, &mut t.members, 1);
        }
        let empty = e.implements.is_empty() && e.fields.is_empty() && e.inputs.is_empty() && e.values.is_empty() && e.members.is_empty();
        let first = rng.pct(20);
        if !empty && first {
            out.push(e.clone());
        }
        out.push(t);
        if !empty && !first {
            out.push(e);
        }
    }
    if rng.pct(30) {
        let mut defs = std::mem::take(&mut out.defs);
        rng.shuffle(&mut defs);
        out.defs = defs;
    }
    out
}

/// The text of a schema with other white space, commas and comments between its tokens.
pub fn show(rng: &mut Rng, doc: &Doc) -> String {
    let mut out = String::new();
    // A document of comments only is not GraphQL.
    let noisy = rng.pct(40) && !doc.defs.is_empty();
    if noisy && rng.bool() {
        out.push_str("# a comment, ünï\n");
    }
    for d in &doc.defs {
        let text = d.to_string();
        out.push_str(text.trim());
        out.push_str(if noisy { rng.str(&["\n\n", "\n", " ", "\n# comment } { \"\n", " , "]) } else { "\n\n" });
    }
    if noisy { noise(rng, &out) } else { out }
}

/// Widens white space outside of strings and comments.
fn noise(rng: &mut Rng, s: &str) -> String {
    let mut out = String::new();
    let (mut in_string, mut in_comment, mut escaped) = (false, false, false);
    for c in s.chars() {
        if in_comment {
            out.push(c);
            in_comment = c != '\n';
            continue;
        }
        if in_string {
            out.push(c);
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                in_string = false;
            }
            continue;
        }
        match c {
            '"' => {
                in_string = true;
                out.push(c);
            }
            '#' => {
                in_comment = true;
                out.push(c);
            }
            ' ' | '\n' if rng.pct(15) => {
                out.push(c);
                out.push_str(rng.str(&[" ", "\n", "\t", ",", " # c\n", "\r\n", "\n#)\n"]));
            }
            ':' | '(' | '[' | '=' if rng.pct(8) => {
                out.push(c);
                out.push_str(rng.str(&[" ", "\n", " # c\n", ","]));
            }
            c => out.push(c),
        }
    }
    out
}
