//! Validity of schema documents with extensions, and ways to make a valid one invalid.
use crate::schemas::*;
use std::collections::{BTreeMap, BTreeSet};
use vcommon::Rng;
use vgql::*;

pub type Problem = (&'static str, String);

pub fn location(k: Kind) -> &'static str {
    match k {
        Kind::Scalar => "SCALAR",
        Kind::Object => "OBJECT",
        Kind::Interface => "INTERFACE",
        Kind::Union => "UNION",
        Kind::Enum => "ENUM",
        Kind::Input => "INPUT_OBJECT",
    }
}

/// One definition per type, with what its extensions add.
fn merged(doc: &Doc) -> Doc {
    let mut out = Doc::default();
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    let types = || doc.types().filter(|t| !t.ext).chain(doc.types().filter(|t| t.ext));
    for t in types() {
        match at.get(&t.name).filter(|_| t.ext) {
            None => {
                at.entry(t.name.clone()).or_insert(out.defs.len());
                out.push(TypeDef { ext: false, ..t.clone() });
            }
            Some(i) => {
                let Def::Type(d) = &mut out.defs[*i] else { unreachable!() };
                if d.kind == t.kind {
                    d.implements.extend(t.implements.iter().cloned());
                    d.fields.extend(t.fields.iter().cloned());
                    d.inputs.extend(t.inputs.iter().cloned());
                    d.values.extend(t.values.iter().cloned());
                    d.members.extend(t.members.iter().cloned());
                }
            }
        }
    }
    out
}

/// The rules a document breaks. `forbid`: extensions need a definition. `draft`: rules of the specification's draft.
pub fn problems(doc: &Doc, forbid: bool, draft: bool) -> Vec<Problem> {
    let mut out: Vec<Problem> = vec![];
    for e in doc.types().filter(|t| t.ext) {
        match doc.ty(&e.name) {
            Some(t) if t.kind != e.kind => out.push(("extension-of-other-kind", e.name.clone())),
            None if forbid && !(e.kind == Kind::Scalar && BUILTIN_SCALARS.contains(&e.name.as_str())) => {
                out.push(("extension-of-unknown", e.name.clone()))
            }
            None if doc.types().any(|t| t.name == e.name && t.kind != e.kind) => {
                out.push(("extension-of-other-kind", e.name.clone()))
            }
            _ => {}
        }
    }
    let flat = merged(doc);
    // A type with extensions only may have anything else in its definition elsewhere.
    let partial = |n: &str| doc.ty(n).is_none();
    out.extend(vgql::check::problems(&flat).into_iter().map(|(rule, place)| {
        let all_here = match rule {
            "empty-type" | "empty-input" | "empty-enum" | "empty-union" | "missing-interface-field" | "interface-field-type"
            | "missing-transitive-implements" | "implements-non-interface" | "implements-itself" | "missing-interface-argument"
            | "interface-argument-type" | "extra-required-argument" | "duplicate-implements" => {
                !doc.types().any(|t| partial(&t.name)) || forbid
            }
            _ => true,
        };
        (if all_here { rule } else { "undecided" }, place)
    }));
    let kinds: BTreeMap<&str, Kind> = flat.types().map(|t| (t.name.as_str(), t.kind)).collect();
    let mut seen = BTreeSet::new();
    for d in doc.directives() {
        if d.name.starts_with("__") {
            out.push(("reserved-directive", d.name.clone()));
        }
        if !seen.insert(&d.name) {
            out.push(("duplicate-directive", d.name.clone()));
        }
        let mut args = BTreeSet::new();
        for a in &d.args {
            let place = format!("@{}({}:)", d.name, a.name);
            if a.name.starts_with("__") {
                out.push(("reserved-directive-argument", place.clone()));
            }
            if !args.insert(&a.name) {
                out.push(("duplicate-directive-argument", place.clone()));
            }
            match kinds.get(a.ty.base()).copied().or(BUILTIN_SCALARS.contains(&a.ty.base()).then_some(Kind::Scalar)) {
                None => out.push(("unknown-type", place.clone())),
                Some(k) if !k.is_input() => out.push(("output-type-as-input", place.clone())),
                _ => {}
            }
            required_deprecated(a, place, draft, &mut out);
            uses(doc, &a.dirs, "ARGUMENT_DEFINITION", &mut out);
        }
    }
    for t in doc.types() {
        if t.kind != Kind::Scalar && BUILTIN_SCALARS.contains(&t.name.as_str()) {
            out.push(("reserved-scalar", t.name.clone()));
        }
        uses(doc, &t.dirs, location(t.kind), &mut out);
        for f in &t.fields {
            if f.name.starts_with("__") {
                out.push(("reserved-field", format!("{}.{}", t.name, f.name)));
            }
            uses(doc, &f.dirs, "FIELD_DEFINITION", &mut out);
            for a in &f.args {
                let place = format!("{}.{}({}:)", t.name, f.name, a.name);
                if a.name.starts_with("__") {
                    out.push(("reserved-argument", place.clone()));
                }
                required_deprecated(a, place, draft, &mut out);
                uses(doc, &a.dirs, "ARGUMENT_DEFINITION", &mut out);
            }
        }
        for f in &t.inputs {
            let place = format!("{}.{}", t.name, f.name);
            if f.name.starts_with("__") {
                out.push(("reserved-input-field", place.clone()));
            }
            required_deprecated(f, place, draft, &mut out);
            uses(doc, &f.dirs, "INPUT_FIELD_DEFINITION", &mut out);
        }
        for v in &t.values {
            if v.name.starts_with("__") {
                out.push(("reserved-value", format!("{}.{}", t.name, v.name)));
            }
            uses(doc, &v.dirs, "ENUM_VALUE", &mut out);
        }
    }
    let schemas: Vec<&SchemaDef> = doc.defs.iter().filter_map(|d| if let Def::Schema(s) = d { Some(s) } else { None }).collect();
    if schemas.iter().filter(|s| !s.ext).count() > 1 {
        out.push(("duplicate-schema", String::new()));
    }
    let (mut operations, mut named) = (BTreeSet::new(), BTreeSet::new());
    for s in &schemas {
        uses(doc, &s.dirs, "SCHEMA", &mut out);
        for (operation, name) in &s.roots {
            if !operations.insert(operation) {
                out.push(("duplicate-operation", operation.clone()));
            }
            if !named.insert(name) {
                out.push(("repeated-root", name.clone()));
            }
            if kinds.get(name.as_str()) != Some(&Kind::Object) {
                out.push((if kinds.contains_key(name.as_str()) { "root-not-object" } else { "unknown-root" }, name.clone()));
            }
        }
    }
    if schemas.iter().all(|s| s.ext && s.roots.is_empty()) {
        for name in ["Query", "Mutation", "Subscription"] {
            if kinds.get(name).is_some_and(|k| *k != Kind::Object) {
                out.push(("root-not-object", name.into()));
            }
        }
    }
    out
}

fn required_deprecated(v: &InputVal, place: String, draft: bool, out: &mut Vec<Problem>) {
    if draft && v.ty.is_non_null() && v.default.is_none() && v.dirs.iter().any(|d| d.name == "deprecated") {
        out.push(("required-deprecated", place));
    }
}

/// Directives the document defines, used where or as often as they may not be.
fn uses(doc: &Doc, dirs: &[Dir], place: &str, out: &mut Vec<Problem>) {
    let mut seen = BTreeSet::new();
    for d in dirs {
        let Some(def) = doc.directives().find(|x| x.name == d.name) else { continue };
        if !def.locations.iter().any(|l| l == place) {
            out.push(("directive-location", d.name.clone()));
        }
        if !seen.insert(&d.name) && !def.repeatable {
            out.push(("undecided", d.name.clone()));
        }
    }
}

/// A valid schema (no extensions) that uses what is allowed: covariant fields, additional arguments, directives everywhere.
pub fn valid(rng: &mut Rng) -> Option<Doc> {
    let mut doc = generate(rng);
    for t in doc.defs.iter_mut() {
        if let Def::Schema(s) = t {
            s.desc = None; // not read by the parser of the crate
        }
    }
    if doc.schema().is_none() && rng.pct(25) {
        let mut dirs = some_dirs(rng, &doc, "SCHEMA");
        dirs.push(Dir::new("link", &[("url", Value::Str("https://example.com/a".into()))]));
        doc.defs.push(Def::Schema(SchemaDef { ext: true, desc: None, dirs, roots: vec![] }));
    }
    for _ in 0..rng.below(4) {
        refine(rng, &mut doc);
    }
    if rng.pct(40) {
        decorate(rng, &mut doc);
    }
    problems(&doc, true, true).is_empty().then_some(doc)
}

/// Puts directives (defined or not) on things.
fn decorate(rng: &mut Rng, doc: &mut Doc) {
    let known = doc.clone();
    let dirs = |rng: &mut Rng, v: &mut Vec<Dir>, place: &str, required: bool| {
        for _ in 0..2 {
            v.extend(some_dirs(rng, &known, place));
        }
        if rng.pct(8) {
            v.push(Dir::new("unknown", &[("a", Value::Int("1".into()))]));
        }
        if rng.pct(8) && !required && ["FIELD_DEFINITION", "ENUM_VALUE", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION"].contains(&place) {
            v.push(Dir::new("deprecated", &[]));
        }
        let mut seen = BTreeSet::new();
        v.retain(|d| seen.insert(d.name.clone()) || known.directives().find(|x| x.name == d.name).is_none_or(|x| x.repeatable));
    };
    for t in doc.types_mut() {
        dirs(rng, &mut t.dirs, location(t.kind), true);
        for f in &mut t.fields {
            dirs(rng, &mut f.dirs, "FIELD_DEFINITION", false);
            for a in &mut f.args {
                dirs(rng, &mut a.dirs, "ARGUMENT_DEFINITION", a.ty.is_non_null());
            }
        }
        for f in &mut t.inputs {
            dirs(rng, &mut f.dirs, "INPUT_FIELD_DEFINITION", f.ty.is_non_null());
        }
        for v in &mut t.values {
            dirs(rng, &mut v.dirs, "ENUM_VALUE", false);
        }
    }
}

/// Makes a field of an implementer more specific than the interface asks for.
fn refine(rng: &mut Rng, doc: &mut Doc) {
    let known = doc.clone();
    let of: Vec<String> = known.types().filter(|t| !t.implements.is_empty()).map(|t| t.name.clone()).collect();
    if of.is_empty() {
        return;
    }
    let name = rng.pick(&of).clone();
    let t = doc.ty_mut(&name).unwrap();
    if t.fields.is_empty() {
        return;
    }
    let i = rng.below(t.fields.len());
    let f = &mut t.fields[i];
    match rng.below(5) {
        0 => f.ty = f.ty.clone().non_null(),
        1 => {
            // The wrapped type non-null too.
            fn inner(t: Ty) -> Ty {
                match t {
                    Ty::NonNull(t) => inner(*t).non_null(),
                    Ty::List(t) => t.non_null().list(),
                    t => t,
                }
            }
            f.ty = inner(f.ty.clone());
        }
        2 => {
            let ty = if rng.bool() { "Int" } else { "[String!]" };
            let ty = if ty == "Int" { Ty::named("Int") } else { Ty::named("String").non_null().list() };
            f.args.push(InputVal { desc: None, name: "more".into(), ty, default: None, dirs: vec![] });
        }
        3 => f.args.push(InputVal {
            desc: None,
            name: "more".into(),
            ty: Ty::named("Int").non_null(),
            default: Some(Value::Int("3".into())),
            dirs: vec![],
        }),
        _ => {
            let base = f.ty.base();
            let subs: Vec<String> = match known.ty(base) {
                Some(b) if b.kind == Kind::Union => b.members.clone(),
                Some(b) if b.kind == Kind::Interface => {
                    known.types().filter(|t| t.implements.contains(&b.name)).map(|t| t.name.clone()).collect()
                }
                _ => vec![],
            };
            if !subs.is_empty() {
                f.ty = f.ty.with_base(rng.pick(&subs).as_str());
            }
        }
    }
}

/// Writes a document with extensions: contents move to one or two of them; without `keep_definitions` some types have only extensions.
pub fn extended(rng: &mut Rng, doc: &Doc, keep_definitions: bool) -> Doc {
    fn part<T>(rng: &mut Rng, v: &mut Vec<T>) -> Vec<T> {
        match rng.below(4) {
            0 => vec![],
            1 => std::mem::take(v),
            _ => {
                let at = rng.range(0, v.len());
                v.split_off(at)
            }
        }
    }
    let mut out = Doc::default();
    for d in &doc.defs {
        let t = match d {
            Def::Type(t) => t,
            Def::Schema(s) if !s.ext && rng.pct(30) => {
                let mut s = s.clone();
                let rest = s.roots.split_off(1);
                let mut e = SchemaDef { ext: true, desc: None, dirs: vec![], roots: rest };
                if rng.bool() {
                    e.dirs = std::mem::take(&mut s.dirs);
                }
                out.defs.push(Def::Schema(s));
                if !e.roots.is_empty() || !e.dirs.is_empty() {
                    out.defs.push(Def::Schema(e));
                }
                continue;
            }
            d => {
                out.defs.push(d.clone());
                continue;
            }
        };
        let mut t = t.clone();
        let mut exts = vec![];
        for _ in 0..[0, 1, 1, 2][rng.below(4)] {
            let mut e = TypeDef::new(t.kind, &t.name);
            e.ext = true;
            e.implements = part(rng, &mut t.implements);
            e.fields = part(rng, &mut t.fields);
            e.inputs = part(rng, &mut t.inputs);
            e.values = part(rng, &mut t.values);
            e.members = part(rng, &mut t.members);
            if rng.pct(30) {
                e.dirs = std::mem::take(&mut t.dirs);
            }
            if !(e.implements.is_empty()
                && e.fields.is_empty()
                && e.inputs.is_empty()
                && e.values.is_empty()
                && e.members.is_empty()
                && e.dirs.is_empty())
            {
                exts.push(e);
            }
        }
        if !keep_definitions && rng.pct(15) && !(t.kind == Kind::Scalar && t.dirs.is_empty()) {
            t.ext = true;
            t.desc = None;
        }
        let empty = t.ext
            && t.implements.is_empty()
            && t.fields.is_empty()
            && t.inputs.is_empty()
            && t.values.is_empty()
            && t.members.is_empty()
            && t.dirs.is_empty();
        let first = rng.pct(20);
        if first {
            exts.into_iter().for_each(|e| out.push(e));
            out.push(t);
        } else {
            if !empty || exts.is_empty() {
                out.push(t);
            }
            exts.into_iter().for_each(|e| out.push(e));
        }
    }
    if rng.pct(40) {
        rng.shuffle(&mut out.defs);
    }
    out
}

pub const CLASSES: [&str; 45] = [
    "duplicate-type", "reserved-name", "reserved-scalar", "reserved-field", "reserved-argument", "reserved-input-field",
    "reserved-value", "reserved-directive", "reserved-directive-argument", "empty-type", "empty-input", "empty-enum", "empty-union",
    "duplicate-field", "duplicate-argument", "duplicate-input-field", "duplicate-value", "duplicate-member", "duplicate-implements",
    "duplicate-directive", "duplicate-directive-argument", "duplicate-schema", "duplicate-operation", "unknown-type",
    "output-type-as-input", "input-type-as-output", "union-member-kind", "implements-non-interface", "root-not-object",
    "unknown-root", "repeated-root", "implements-itself", "missing-transitive-implements", "missing-interface-field",
    "interface-field-type", "missing-interface-argument", "interface-argument-type", "extra-required-argument",
    "required-input-cycle", "directive-location", "extension-of-unknown", "extension-of-other-kind",
    "required-deprecated", "unknown-union-member", "unknown-interface",
];

fn int() -> Ty {
    Ty::named("Int")
}
fn val(name: &str, ty: Ty) -> InputVal {
    InputVal { desc: None, name: name.into(), ty, default: None, dirs: vec![] }
}
fn fld(name: &str, ty: Ty) -> Field {
    Field { desc: None, name: name.into(), args: vec![], ty, dirs: vec![] }
}

/// A type of one of the kinds, to change.
fn some_type<'a>(rng: &mut Rng, doc: &'a mut Doc, f: impl Fn(&TypeDef) -> bool) -> Option<&'a mut TypeDef> {
    let names: Vec<String> = doc.types().filter(|t| !t.ext && f(t)).map(|t| t.name.clone()).collect();
    if names.is_empty() {
        return None;
    }
    let n = rng.pick(&names).clone();
    doc.ty_mut(&n)
}

fn composite(t: &TypeDef) -> bool {
    matches!(t.kind, Kind::Object | Kind::Interface)
}

fn some_name(rng: &mut Rng, doc: &Doc, f: impl Fn(&TypeDef) -> bool) -> Option<String> {
    let v: Vec<String> = doc.types().filter(|t| !t.ext && f(t)).map(|t| t.name.clone()).collect();
    (!v.is_empty()).then(|| rng.pick(&v).clone())
}

fn insert<T>(rng: &mut Rng, v: &mut Vec<T>, x: T) {
    let at = rng.range(0, v.len());
    v.insert(at, x);
}

/// Breaks a rule of `class`. Names that an error about it has to mention.
pub fn break_rule(rng: &mut Rng, doc: &mut Doc, class: &str) -> Option<Vec<String>> {
    let known = doc.clone();
    let own = |s: &str| s.to_owned();
    Some(match class {
        "duplicate-type" => {
            let n = rng.pick(&names_of(doc, |_| true)).clone();
            let k = some_kind(rng);
            let mut t = fill(rng, &known, k, &n);
            if rng.bool() {
                t = known.ty(&n)?.clone();
            }
            insert(rng, &mut doc.defs, Def::Type(t));
            vec![n]
        }
        "reserved-name" | "reserved-scalar" => {
            let n = if class == "reserved-name" { rng.str(&["__X", "__", "__Type"]) } else { rng.str(&BUILTIN_SCALARS) };
            let k = some_kind(rng);
            let t = fill(rng, &known, k, n);
            insert(rng, &mut doc.defs, Def::Type(t));
            vec![own(n)]
        }
        "reserved-field" => {
            let t = some_type(rng, doc, composite)?;
            insert(rng, &mut t.fields, fld("__f", int()));
            vec![t.name.clone(), own("__f")]
        }
        "reserved-argument" => {
            let t = some_type(rng, doc, |t| !t.fields.is_empty())?;
            let i = rng.below(t.fields.len());
            insert(rng, &mut t.fields[i].args, val("__a", int()));
            vec![]
        }
        "reserved-input-field" => {
            let t = some_type(rng, doc, |t| t.kind == Kind::Input)?;
            insert(rng, &mut t.inputs, val("__i", int()));
            vec![t.name.clone(), own("__i")]
        }
        "reserved-value" => {
            let t = some_type(rng, doc, |t| t.kind == Kind::Enum)?;
            insert(rng, &mut t.values, EnumVal { desc: None, name: own("__V"), dirs: vec![] });
            vec![own("__V")]
        }
        "reserved-directive" => {
            let d = directive_def(rng, &known, "__d");
            insert(rng, &mut doc.defs, Def::Directive(d));
            vec![]
        }
        "reserved-directive-argument" | "duplicate-directive-argument" => {
            let mut ds: Vec<&mut DirDef> =
                doc.defs.iter_mut().filter_map(|d| if let Def::Directive(d) = d { Some(d) } else { None }).collect();
            if ds.is_empty() {
                return None;
            }
            let i = rng.below(ds.len());
            let d = &mut ds[i];
            if class == "reserved-directive-argument" {
                insert(rng, &mut d.args, val("__a", int()));
            } else {
                let a = val(&d.args.first()?.name.clone(), int());
                insert(rng, &mut d.args, a);
            }
            vec![d.name.clone()]
        }
        "empty-type" => {
            let k = if rng.bool() { Kind::Object } else { Kind::Interface };
            let mut t = TypeDef::new(k, "Empty");
            t.dirs.push(Dir::new("unknown", &[]));
            insert(rng, &mut doc.defs, Def::Type(t));
            vec![own("Empty")]
        }
        "empty-input" | "empty-enum" | "empty-union" => {
            let k = match class {
                "empty-input" => Kind::Input,
                "empty-enum" => Kind::Enum,
                _ => Kind::Union,
            };
            let mut t = TypeDef::new(k, "Empty");
            t.dirs.push(Dir::new("unknown", &[]));
            insert(rng, &mut doc.defs, Def::Type(t));
            vec![own("Empty")]
        }
        "duplicate-field" => {
            let t = some_type(rng, doc, |t| !t.fields.is_empty())?;
            let mut f = rng.pick(&t.fields).clone();
            if rng.bool() {
                f.desc = None;
                f.args.push(val("more2", int()));
            }
            let says = vec![t.name.clone(), f.name.clone()];
            insert(rng, &mut t.fields, f);
            says
        }
        "duplicate-argument" => {
            let t = some_type(rng, doc, |t| t.fields.iter().any(|f| !f.args.is_empty()))?;
            let n = t.name.clone();
            let mut fs: Vec<&mut Field> = t.fields.iter_mut().filter(|f| !f.args.is_empty()).collect();
            let i = rng.below(fs.len());
            let f = &mut fs[i];
            let a = rng.pick(&f.args).clone();
            let says = vec![n, f.name.clone(), a.name.clone()];
            insert(rng, &mut f.args, a);
            says
        }
        "duplicate-input-field" => {
            let t = some_type(rng, doc, |t| !t.inputs.is_empty())?;
            let f = rng.pick(&t.inputs).clone();
            let says = vec![t.name.clone(), f.name.clone()];
            insert(rng, &mut t.inputs, f);
            says
        }
        "duplicate-value" => {
            let t = some_type(rng, doc, |t| !t.values.is_empty())?;
            let f = rng.pick(&t.values).clone();
            let says = vec![t.name.clone(), f.name.clone()];
            insert(rng, &mut t.values, f);
            says
        }
        "duplicate-member" => {
            let t = some_type(rng, doc, |t| !t.members.is_empty())?;
            let f = rng.pick(&t.members).clone();
            let says = vec![t.name.clone(), f.clone()];
            insert(rng, &mut t.members, f);
            says
        }
        "duplicate-implements" => {
            let t = some_type(rng, doc, |t| !t.implements.is_empty())?;
            let f = rng.pick(&t.implements).clone();
            let says = vec![t.name.clone(), f.clone()];
            insert(rng, &mut t.implements, f);
            says
        }
        "duplicate-directive" => {
            let ds: Vec<String> = doc.directives().map(|d| d.name.clone()).collect();
            if ds.is_empty() {
                return None;
            }
            let n = rng.pick(&ds).clone();
            let d = if rng.bool() { known.directives().find(|d| d.name == n)?.clone() } else { directive_def(rng, &known, &n) };
            insert(rng, &mut doc.defs, Def::Directive(d));
            vec![n]
        }
        "duplicate-schema" => {
            let s = known.schema().filter(|s| !s.ext)?.clone();
            insert(rng, &mut doc.defs, Def::Schema(s));
            vec![]
        }
        "duplicate-operation" | "repeated-root" | "root-not-object" | "unknown-root" => {
            let n = match class {
                "root-not-object" => some_name(rng, &known, |t| t.kind != Kind::Object)?,
                "unknown-root" => own("Nope"),
                "repeated-root" => known.schema()?.roots.first()?.1.clone(),
                _ => {
                    let used: Vec<String> = known.schema()?.roots.iter().map(|r| r.1.clone()).collect();
                    some_name(rng, &known, |t| t.kind == Kind::Object && !used.contains(&t.name))?
                }
            };
            // Also by the default name of a root.
            if class == "root-not-object" && known.schema().is_none_or(|s| s.roots.is_empty()) {
                let free = ["Query", "Mutation", "Subscription"].into_iter().find(|n| known.ty(n).is_none())?;
                let k = *rng.pick(&[Kind::Enum, Kind::Input, Kind::Interface, Kind::Scalar]);
                let t = fill(rng, &known, k, free);
                insert(rng, &mut doc.defs, Def::Type(t));
                return Some(vec![own(free)]);
            }
            let s = doc.defs.iter_mut().find_map(|d| if let Def::Schema(s) = d { Some(s) } else { None })?;
            if s.roots.is_empty() {
                return None;
            }
            let all = ["query", "mutation", "subscription"];
            match class {
                "duplicate-operation" => {
                    let o = s.roots[0].0.clone();
                    doc.defs.push(Def::Schema(SchemaDef { ext: true, desc: None, dirs: vec![], roots: vec![(o, n)] }));
                    return Some(vec![]);
                }
                "repeated-root" => {
                    let o = all.into_iter().find(|o| s.roots.iter().all(|r| r.0 != *o))?;
                    if rng.bool() {
                        s.roots.push((own(o), n.clone()));
                    } else {
                        doc.defs.push(Def::Schema(SchemaDef { ext: true, desc: None, dirs: vec![], roots: vec![(own(o), n.clone())] }));
                    }
                }
                _ => match all.into_iter().find(|o| s.roots.iter().all(|r| r.0 != *o)) {
                    Some(o) => s.roots.push((own(o), n.clone())),
                    None => s.roots[0].1 = n.clone(),
                },
            }
            vec![n]
        }
        "unknown-type" | "output-type-as-input" | "input-type-as-output" => {
            let base = match class {
                "unknown-type" => own("Nope"),
                "output-type-as-input" => some_name(rng, &known, |t| !t.kind.is_input())?,
                _ => some_name(rng, &known, |t| t.kind == Kind::Input)?,
            };
            let ty = wrapped(rng, &base);
            let place = if class == "input-type-as-output" { 0 } else { rng.range(if class == "unknown-type" { 0 } else { 1 }, 3) };
            match place {
                0 => {
                    let t = some_type(rng, doc, composite)?;
                    insert(rng, &mut t.fields, fld("bad", ty));
                    vec![t.name.clone(), own("bad"), base]
                }
                1 => {
                    let t = some_type(rng, doc, |t| !t.fields.is_empty())?;
                    let n = t.name.clone();
                    let i = rng.below(t.fields.len());
                    insert(rng, &mut t.fields[i].args, val("bad", ty));
                    vec![n, t.fields[i].name.clone(), own("bad"), base]
                }
                2 => {
                    let t = some_type(rng, doc, |t| t.kind == Kind::Input)?;
                    insert(rng, &mut t.inputs, val("bad", ty));
                    vec![t.name.clone(), own("bad"), base]
                }
                _ => {
                    let mut ds: Vec<&mut DirDef> =
                        doc.defs.iter_mut().filter_map(|d| if let Def::Directive(d) = d { Some(d) } else { None }).collect();
                    if ds.is_empty() {
                        return None;
                    }
                    let i = rng.below(ds.len());
                    insert(rng, &mut ds[i].args, val("bad", ty));
                    vec![ds[i].name.clone(), own("bad"), base]
                }
            }
        }
        "union-member-kind" | "unknown-union-member" => {
            let n = if class == "union-member-kind" { some_name(rng, &known, |t| t.kind != Kind::Object)? } else { own("Nope") };
            let t = some_type(rng, doc, |t| t.kind == Kind::Union)?;
            insert(rng, &mut t.members, n.clone());
            vec![t.name.clone(), n]
        }
        "implements-non-interface" | "unknown-interface" => {
            let n = if class == "unknown-interface" { own("Nope") } else { some_name(rng, &known, |t| t.kind != Kind::Interface)? };
            let t = some_type(rng, doc, composite)?;
            insert(rng, &mut t.implements, n.clone());
            vec![t.name.clone(), n]
        }
        "implements-itself" => {
            let t = some_type(rng, doc, |t| t.kind == Kind::Interface)?;
            let n = t.name.clone();
            insert(rng, &mut t.implements, n.clone());
            vec![n]
        }
        "missing-transitive-implements" => {
            let known2 = known.clone();
            let t = some_type(rng, doc, |t| t.implements.iter().any(|i| known2.ty(i).is_some_and(|i| !i.implements.is_empty())))?;
            let direct = t.implements.iter().find(|i| known.ty(i).is_some_and(|i| !i.implements.is_empty()))?.clone();
            let gone = rng.pick(&known.ty(&direct)?.implements).clone();
            t.implements.retain(|i| *i != gone);
            vec![t.name.clone(), direct, gone]
        }
        "missing-interface-field" | "interface-field-type" | "missing-interface-argument" | "interface-argument-type"
        | "extra-required-argument" => {
            let t = some_type(rng, doc, |t| !t.implements.is_empty())?;
            let i = known.ty(rng.pick(&t.implements).as_str())?;
            let name = t.name.clone();
            if i.fields.is_empty() {
                return None;
            }
            let of = rng.pick(&i.fields);
            let at = t.fields.iter().position(|f| f.name == of.name)?;
            let f = &mut t.fields[at];
            let mut says = vec![name, i.name.clone(), of.name.clone()];
            match class {
                "missing-interface-field" => {
                    t.fields.remove(at);
                }
                "interface-field-type" => match rng.below(4) {
                    0 => f.ty = f.ty.clone().nullable(),
                    1 => f.ty = f.ty.clone().list(),
                    2 => {
                        f.ty = match f.ty.clone() {
                            Ty::NonNull(t) => match *t {
                                Ty::List(t) => t.nullable().list().non_null(),
                                t => t,
                            },
                            Ty::List(t) => t.nullable().list(),
                            t => t.list(),
                        }
                    }
                    _ => f.ty = f.ty.with_base(&rng.pick(&names_of(&known, Kind::is_output)).clone()),
                },
                "missing-interface-argument" => {
                    let a = rng.below(of.args.len().max(1));
                    let gone = of.args.get(a)?.name.clone();
                    f.args.retain(|x| x.name != gone);
                    says.push(gone);
                }
                "interface-argument-type" => {
                    let a = rng.below(of.args.len().max(1));
                    let n = of.args.get(a)?.name.clone();
                    let a = f.args.iter_mut().find(|x| x.name == n)?;
                    a.default = None;
                    a.ty = match rng.below(3) {
                        0 if a.ty.is_non_null() => a.ty.clone().nullable(),
                        0 => a.ty.clone().non_null(),
                        1 => a.ty.clone().list(),
                        _ => a.ty.with_base(rng.str(&BUILTIN_SCALARS)),
                    };
                    says.push(n);
                }
                _ => {
                    insert(rng, &mut f.args, val("needed", int().non_null()));
                    says.push(own("needed"));
                }
            }
            says
        }
        "required-input-cycle" => {
            let mut inputs = names_of(doc, |k| k == Kind::Input);
            if inputs.is_empty() {
                return None;
            }
            rng.shuffle(&mut inputs);
            inputs.truncate(rng.range(1, 3));
            for (i, n) in inputs.iter().enumerate() {
                let next = Ty::named(&inputs[(i + 1) % inputs.len()]).non_null();
                let t = doc.ty_mut(n)?;
                insert(rng, &mut t.inputs, val("cycle", next));
            }
            // Types on the cycle that are reached in several ways, or from which the search comes back.
            for i in 0..inputs.len() {
                let t = doc.ty_mut(&inputs[i])?;
                for next in &inputs[i + 1..] {
                    if rng.pct(30) {
                        insert(rng, &mut t.inputs, val(&format!("chord{next}"), Ty::named(next).non_null()));
                    }
                }
                for n in 0..rng.below(3) {
                    insert(rng, &mut t.inputs, val(&format!("dead{n}"), Ty::named("DeadEnd").non_null()));
                }
            }
            let mut end = fill(rng, &known, Kind::Input, "DeadEnd");
            end.inputs = vec![val("end", int())];
            doc.defs.push(Def::Type(end));
            vec![own("cycle")]
        }
        "directive-location" | "directive-repeated" => {
            let ds: Vec<String> = doc.directives().map(|d| d.name.clone()).collect();
            if ds.is_empty() {
                return None;
            }
            let n = rng.pick(&ds).clone();
            let mut places: Vec<(&str, &mut Vec<Dir>)> = vec![];
            for d in doc.defs.iter_mut() {
                match d {
                    Def::Schema(s) => places.push(("SCHEMA", &mut s.dirs)),
                    Def::Type(t) => {
                        places.push((location(t.kind), &mut t.dirs));
                        for f in &mut t.fields {
                            places.push(("FIELD_DEFINITION", &mut f.dirs));
                            f.args.iter_mut().for_each(|a| places.push(("ARGUMENT_DEFINITION", &mut a.dirs)));
                        }
                        t.inputs.iter_mut().for_each(|a| places.push(("INPUT_FIELD_DEFINITION", &mut a.dirs)));
                        t.values.iter_mut().for_each(|a| places.push(("ENUM_VALUE", &mut a.dirs)));
                    }
                    Def::Directive(d) => d.args.iter_mut().for_each(|a| places.push(("ARGUMENT_DEFINITION", &mut a.dirs))),
                }
            }
            // All kinds of places as often.
            let mut kinds: Vec<&str> = places.iter().map(|p| p.0).collect();
            kinds.sort();
            kinds.dedup();
            let kind = *rng.pick(&kinds);
            places.retain(|p| p.0 == kind);
            let i = rng.below(places.len());
            let v = &mut places[i].1;
            let times = if class == "directive-location" { 1 } else { 2 };
            for _ in 0..times {
                insert(rng, v, Dir::new(&n, &[]));
            }
            vec![n]
        }
        "extension-of-unknown" | "extension-of-other-kind" => {
            let k = some_kind(rng);
            let n = if class == "extension-of-unknown" {
                own("Nope")
            } else {
                some_name(rng, &known, |t| t.kind != k)?
            };
            let mut t = fill(rng, &known, k, &n);
            t.ext = true;
            t.desc = None;
            for f in &mut t.fields {
                f.name.push_str("_new");
            }
            if t.kind == Kind::Scalar {
                t.dirs = vec![Dir::new("unknown", &[])];
            }
            insert(rng, &mut doc.defs, Def::Type(t));
            vec![n]
        }
        "required-deprecated" => {
            let place = rng.below(3);
            let mut v = val("old", int().non_null());
            v.dirs.push(Dir::new("deprecated", &[]));
            match place {
                0 => {
                    let t = some_type(rng, doc, |t| t.implements.is_empty() && !t.fields.is_empty())?;
                    let n = t.name.clone();
                    let i = rng.below(t.fields.len());
                    insert(rng, &mut t.fields[i].args, v);
                    vec![n, t.fields[i].name.clone(), own("old")]
                }
                1 => {
                    let t = some_type(rng, doc, |t| t.kind == Kind::Input)?;
                    insert(rng, &mut t.inputs, v);
                    vec![t.name.clone(), own("old")]
                }
                _ => {
                    let mut ds: Vec<&mut DirDef> =
                        doc.defs.iter_mut().filter_map(|d| if let Def::Directive(d) = d { Some(d) } else { None }).collect();
                    if ds.is_empty() {
                        return None;
                    }
                    let i = rng.below(ds.len());
                    insert(rng, &mut ds[i].args, v);
                    vec![ds[i].name.clone(), own("old")]
                }
            }
        }
        _ => unreachable!("{class}"),
    })
}

/// The rule a class breaks, as `problems` calls it.
pub fn rule(class: &str) -> &str {
    match class {
        "unknown-union-member" => "unknown-type",
        "unknown-interface" => "implements-non-interface",
        c => c,
    }
}

pub struct Checked {
    pub messages: Vec<String>,
    pub syntax: bool,
}

/// Runs the validator.
pub fn validate(text: &str, forbid: bool, draft: bool) -> Result<Checked, vcommon::Viol> {
    use graphql_schema_validation::*;
    let mut options = Options::empty();
    if forbid {
        options |= Options::FORBID_EXTENDING_UNKNOWN_TYPES;
    }
    if draft {
        options |= Options::DRAFT_VALIDATIONS;
    }
    let d = vcommon::guard("validate", || {
        let d = if forbid || draft { validate_with_options(text, options) } else { graphql_schema_validation::validate(text) };
        let messages: Vec<String> = d.iter().map(|r| r.to_string()).collect();
        // Rendering a report resolves its positions.
        let shown: Vec<String> = d.iter().map(|r| format!("{r:?}")).collect();
        (d.has_errors(), messages, shown)
    })?;
    let (has, messages, shown) = d;
    vcommon::ensure!(has == !messages.is_empty(), "has-errors", "has_errors() is {has}, but there are {}", messages.len());
    vcommon::ensure!(shown.iter().all(|s| !s.contains("Failed to read contents")), "label", "a position is not in the document: {shown:#?}");
    Ok(Checked { messages, syntax: async_graphql_parser::parse_schema(text).is_err() })
}

/// The text of a document: mostly one way of writing that every parser reads, sometimes with other white space.
pub fn written(rng: &mut Rng, doc: &Doc) -> String {
    if rng.pct(20) {
        let text = show(rng, doc);
        if async_graphql_parser::parse_schema(&text).is_ok() {
            return text;
        }
    }
    let defs: Vec<String> = doc.defs.iter().map(|d| d.to_string().trim().to_owned()).collect();
    defs.join("\n\n") + "\n"
}

/// Replaces names, lines and characters of a document at random.
pub fn scrambled(rng: &mut Rng, text: &str) -> String {
    let words = |text: &str| -> Vec<(usize, usize)> {
        let mut out = vec![];
        let mut from = None;
        for (i, c) in text.char_indices().chain([(text.len(), ' ')]) {
            match (c.is_ascii_alphanumeric() || c == '_', from) {
                (true, None) => from = Some(i),
                (false, Some(f)) => {
                    out.push((f, i));
                    from = None;
                }
                _ => {}
            }
        }
        out
    };
    let mut text = text.to_owned();
    for _ in 0..rng.range(1, 3) {
        match rng.below(8) {
            0..=4 => {
                let spots = words(&text);
                if spots.is_empty() {
                    break;
                }
                let ((a, b), (c, d)) = (*rng.pick(&spots), *rng.pick(&spots));
                let new = if rng.pct(10) { rng.str(&["__x", "Nope", "Int", "type", "repeatable"]).to_owned() } else { text[c..d].to_owned() };
                text.replace_range(a..b, &new);
            }
            5 | 6 => {
                let mut lines: Vec<&str> = text.lines().collect();
                if lines.is_empty() {
                    break;
                }
                let l = lines.remove(rng.below(lines.len()));
                for _ in 0..rng.below(3) {
                    let at = rng.range(0, lines.len());
                    lines.insert(at, l);
                }
                text = lines.join("\n");
            }
            _ => {
                let spots: Vec<usize> = text.char_indices().filter(|(_, c)| "!:[]{}()@=|&".contains(*c)).map(|(i, _)| i).collect();
                if spots.is_empty() {
                    break;
                }
                let at = *rng.pick(&spots);
                text.replace_range(at..at + 1, rng.str(&["", "!", "[", "]", "{", "}", "(", ")", "@", "|", "&", " "]));
            }
        }
    }
    text
}
