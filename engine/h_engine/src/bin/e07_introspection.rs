use h_engine::{
    fed,
    gql::{self, OpKind},
    lab::*,
    rt::Options,
    view::{self, Arg, BUILTIN, Field, Type, View},
    world::Fed,
};
use serde_json::{Value as J, json};
use std::collections::BTreeSet;
use vcommon::{Check, Rng, Viol, ensure, guard, hash_of, viol};
use vgql::{Dir, InputVal, Kind, Ty, Value};

/// Descriptions, deprecations and hidden parts, the same in every subgraph.
#[derive(Clone, Copy)]
struct Deco(Option<u64>);

impl Deco {
    fn r(self, what: &str, path: &str) -> Option<Rng> {
        self.0.map(|seed| Rng::new(hash_of(&(seed, what, path))))
    }

    fn about(self, path: &str) -> Option<String> {
        let mut r = self.r("about", path)?;
        r.pct(40).then(|| format!("{} of {path}", r.pick(&["The best", "A \"part\"", "Some \\ thing", "Über {{ text }}", "# one\n\ntwo"])))
    }

    fn deprecated(self, path: &str) -> Option<String> {
        let mut r = self.r("deprecated", path)?;
        r.pct(15).then(|| format!("{} {path}", r.pick(&["no", "see \"other\"", "not \\ now"])))
    }

    fn hidden(self, path: &str, pct: u32) -> bool {
        self.r("hidden", path).is_some_and(|mut r| r.pct(pct))
    }

    fn decorate(self, desc: &mut Option<String>, dirs: &mut Vec<Dir>, path: &str, hide: bool, deprecate: bool) {
        *desc = self.about(path);
        if deprecate && let Some(reason) = self.deprecated(path) {
            dirs.push(Dir::new("deprecated", &[("reason", Value::Str(reason))]));
        }
        if hide && !dirs.iter().any(|d| d.name == "inaccessible") {
            dirs.push(Dir::new("inaccessible", &[]));
        }
    }

    fn inputs(self, inputs: &mut [InputVal], of: &str, hidden: &dyn Fn(&Ty) -> bool) {
        for a in inputs {
            let path = format!("{of}({})", a.name);
            let optional = !a.ty.is_non_null() || a.default.is_some();
            let hide = !a.ty.is_non_null() && (hidden(&a.ty) || self.hidden(&path, 12));
            self.decorate(&mut a.desc, &mut a.dirs, &path, hide, optional);
        }
    }

    fn subgraph(self, sdl: &str) -> String {
        let mut doc = vgql::parse(sdl).unwrap_or_else(|e| vcommon::harness_bug!("{e}"));
        let root = |n: &str| ["Query", "Mutation"].contains(&n);
        let gone = |n: &str| !root(n) && !BUILTIN.contains(&n) && self.hidden(n, 4);
        let hidden = |ty: &Ty| gone(ty.base());
        for t in doc.types_mut() {
            let n = t.name.clone();
            if !root(&n) {
                self.decorate(&mut t.desc, &mut t.dirs, &n, gone(&n), false);
            }
            let object = t.kind == Kind::Object;
            for f in &mut t.fields {
                let path = format!("{n}.{}", f.name);
                let needs = f.args.iter().any(|a| hidden(&a.ty) && a.ty.is_non_null());
                let hide = hidden(&f.ty) || needs || object && !root(&n) && self.hidden(&path, 5);
                self.decorate(&mut f.desc, &mut f.dirs, &path, hide, true);
                self.inputs(&mut f.args, &path, &hidden);
            }
            self.inputs(&mut t.inputs, &n, &hidden);
            for (k, v) in t.values.iter_mut().enumerate() {
                let path = format!("{n}.{}", v.name);
                self.decorate(&mut v.desc, &mut v.dirs, &path, k > 0 && self.hidden(&path, 10), true);
            }
        }
        doc.to_string()
    }

    /// What is said of an element.
    fn matches(self, j: &J, path: &str, deprecable: bool) -> Result<(), Viol> {
        if let Some(d) = j.get("description") {
            let want = self.about(path);
            ensure!(d.as_str() == want.as_deref(), "wrong-description", "{path}: {d} and not {want:?}");
        }
        let want = self.deprecated(path).filter(|_| deprecable);
        ensure!(
            j["deprecationReason"].as_str() == want.as_deref() && j["isDeprecated"] == want.is_some(),
            "wrong-deprecation",
            "{path}: {} {} and not {want:?}",
            j["isDeprecated"],
            j["deprecationReason"]
        );
        Ok(())
    }
}

const TYPE: &str = "{ kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } } }";

fn query(what: &str) -> String {
    format!(
        "{{ {what} }}
fragment T on __Type {{ kind name description specifiedByURL
  fields(includeDeprecated: true) {{ name description isDeprecated deprecationReason args(includeDeprecated: true) {{ ...V }} type {TYPE} }}
  inputFields(includeDeprecated: true) {{ ...V }}
  interfaces {TYPE} enumValues(includeDeprecated: true) {{ name description isDeprecated deprecationReason }} possibleTypes {TYPE} ofType {{ name }} }}
fragment V on __InputValue {{ name description type {TYPE} defaultValue isDeprecated deprecationReason }}"
    )
}

fn ty(j: &J) -> Result<Ty, Viol> {
    Ok(match j["kind"].as_str() {
        Some("NON_NULL") => ty(&j["ofType"])?.non_null(),
        Some("LIST") => Ty::List(Box::new(ty(&j["ofType"])?)),
        _ => match j["name"].as_str() {
            Some(n) => Ty::named(n),
            None => return viol("type-reference", format!("{j}")),
        },
    })
}

fn kind(k: Kind) -> &'static str {
    match k {
        Kind::Scalar => "SCALAR",
        Kind::Object => "OBJECT",
        Kind::Interface => "INTERFACE",
        Kind::Union => "UNION",
        Kind::Enum => "ENUM",
        Kind::Input => "INPUT_OBJECT",
    }
}

fn names(j: &J) -> Result<BTreeSet<String>, Viol> {
    let mut out = BTreeSet::new();
    for x in j.as_array().into_iter().flatten() {
        let n = x["name"].as_str().unwrap_or("").to_owned();
        ensure!(out.insert(n.clone()), "listed-twice", "{n} is listed twice in {j}");
    }
    Ok(out)
}

fn set<'a>(i: impl Iterator<Item = &'a String>) -> BTreeSet<String> {
    i.cloned().collect()
}

/// What is said of a field's or argument's type has to be so of the type of this name too.
fn reference(api: &View, j: &J, want: &Ty, of: &str) -> Result<(), Viol> {
    let got = ty(j)?;
    ensure!(got == *want, "wrong-type", "{of} has type {} and not {}", gql::ty(&got), gql::ty(want));
    let mut inner = j;
    while inner["kind"] == "NON_NULL" || inner["kind"] == "LIST" {
        ensure!(inner["name"].is_null(), "wrapper-with-name", "{of}: {j}");
        inner = &inner["ofType"];
    }
    ensure!(inner["ofType"].is_null(), "named-type-with-of-type", "{of}: {j}");
    let want = api.kind(want.base()).map(kind).unwrap_or("SCALAR");
    ensure!(inner["kind"] == want, "wrong-kind", "{of}: kind {} of {}", inner["kind"], inner["name"]);
    Ok(())
}

/// Values of custom scalars are the same whatever the notation of their numbers, and the order of their keys.
fn numbers(j: J) -> J {
    match j {
        J::Number(n) => json!(n.as_f64()),
        J::Array(a) => a.into_iter().map(numbers).collect(),
        J::Object(o) => {
            let sorted: std::collections::BTreeMap<_, _> = o.into_iter().map(|(k, v)| (k, numbers(v))).collect();
            J::Object(sorted.into_iter().collect())
        }
        other => other,
    }
}

fn inputs(api: &View, deco: Deco, got: &J, want: &[Arg], of: &str) -> Result<(), Viol> {
    let wanted = set(want.iter().map(|a| &a.name));
    ensure!(names(got)? == wanted, "wrong-inputs", "{of} takes {:?} and not {wanted:?}", names(got)?);
    for j in got.as_array().unwrap() {
        let a = want.iter().find(|a| j["name"] == a.name.as_str()).unwrap();
        let of = format!("{of}({})", a.name);
        reference(api, &j["type"], &a.ty, &of)?;
        let default = match &j["defaultValue"] {
            J::Null => None,
            J::String(s) => Some(literal(s)?),
            other => return viol("default-value", format!("{of}: {other}")),
        };
        let same = match (&default, &a.default) {
            (None, None) => true,
            (Some(x), Some(y)) => {
                let json = |v: &Value| view::coerce_lit(api, &a.ty, v, &Default::default());
                match (json(x), json(y)) {
                    (Ok(x), Ok(y)) => x.map(numbers) == y.map(numbers),
                    // The default has hidden parts.
                    (_, Err(_)) => true,
                    _ => false,
                }
            }
            _ => false,
        };
        ensure!(same, "wrong-default", "{of} has the default {default:?} and not {:?}", a.default);
        deco.matches(j, &of, !a.ty.is_non_null() || a.default.is_some())?;
    }
    Ok(())
}

fn literal(s: &str) -> Result<Value, Viol> {
    match gql::parse(&format!("{{ a(b: {s}) }}")) {
        Ok(d) => match &d.ops[0].sels[0] {
            gql::Sel::Field(f) if f.args.len() == 1 => Ok(f.args[0].1.clone()),
            _ => viol("default-value", s.to_owned()),
        },
        Err(e) => viol("default-value", format!("{s}: {e}")),
    }
}

fn is_type(api: &View, deco: Deco, got: &J, want: &Type) -> Result<(), Viol> {
    let n = &want.name;
    ensure!(got["kind"] == kind(want.kind), "wrong-kind", "{n} is a {}", got["kind"]);
    ensure!(got["name"] == n.as_str() && got["ofType"].is_null(), "wrong-name", "{n}: {}", got["name"]);
    // Composition does not keep the descriptions of root types.
    if !BUILTIN.contains(&n.as_str()) && api.roots.values().all(|r| r != n) {
        let about = deco.about(n);
        ensure!(got["description"].as_str() == about.as_deref(), "wrong-description", "{n}: {} and not {about:?}", got["description"]);
    }
    let fields = matches!(want.kind, Kind::Object | Kind::Interface);
    for (key, has) in [
        ("fields", fields),
        ("interfaces", fields),
        ("inputFields", want.kind == Kind::Input),
        ("enumValues", want.kind == Kind::Enum),
        ("possibleTypes", matches!(want.kind, Kind::Interface | Kind::Union)),
    ] {
        ensure!(got[key].is_array() == has && (has || got[key].is_null()), "list-or-null", "{n}.{key} is {}", got[key]);
    }
    if fields {
        let wanted = set(want.fields.iter().map(|f| &f.name));
        let shown = names(&got["fields"])?;
        ensure!(shown == wanted, "wrong-fields", "{n} has the fields {shown:?} and not {wanted:?}");
        for j in got["fields"].as_array().unwrap() {
            let f: &Field = want.fields.iter().find(|f| j["name"] == f.name.as_str()).unwrap();
            let of = format!("{n}.{}", f.name);
            reference(api, &j["type"], &f.ty, &of)?;
            inputs(api, deco, &j["args"], &f.args, &of)?;
            deco.matches(j, &of, true)?;
        }
        let wanted = set(want.implements.iter());
        let shown = names(&got["interfaces"])?;
        ensure!(shown == wanted, "wrong-interfaces", "{n} implements {shown:?} and not {wanted:?}");
    }
    if want.kind == Kind::Input {
        inputs(api, deco, &got["inputFields"], &want.inputs, n)?;
    }
    if want.kind == Kind::Enum {
        let wanted = set(want.values.iter());
        let shown = names(&got["enumValues"])?;
        ensure!(shown == wanted, "wrong-values", "{n} has the values {shown:?} and not {wanted:?}");
        for j in got["enumValues"].as_array().unwrap() {
            deco.matches(j, &format!("{n}.{}", j["name"].as_str().unwrap_or("")), true)?;
        }
    }
    if got["possibleTypes"].is_array() {
        let wanted: BTreeSet<String> = api.possible(n).into_iter().collect();
        let shown = names(&got["possibleTypes"])?;
        ensure!(shown == wanted, "wrong-possible-types", "{n} can be {shown:?} and not {wanted:?}");
    }
    Ok(())
}

async fn ask(lab: &Lab, query: String, variables: J) -> Result<J, Viol> {
    let a = lab.gateway.post(json!({"query": query, "variables": variables}), &[]).await;
    let mut got = json_of(&a)?;
    ensure!(got.get("errors").is_none(), "unexpected-errors", "{}", got["errors"]);
    ensure!(lab.take_log().is_empty(), "introspection-sent", "introspection made the gateway send requests");
    Ok(got["data"].take())
}

async fn check(lab: &Lab, deco: Deco, hidden: &[String], case: &mut vcommon::Case) -> Result<(), Viol> {
    let api = &lab.fed.api;
    let all = query("__schema { types { ...T } queryType { name } mutationType { name } subscriptionType { name } }");
    let got = ask(lab, all, json!({})).await?;
    let schema = &got["__schema"];
    for (key, kind) in
        [("queryType", OpKind::Query), ("mutationType", OpKind::Mutation), ("subscriptionType", OpKind::Subscription)]
    {
        let want = api.root(kind);
        ensure!(schema[key]["name"].as_str() == want, "wrong-root", "{key} is {} and not {want:?}", schema[key]);
    }
    let shown = names(&schema["types"])?;
    for n in &shown {
        ensure!(
            api.get(n).is_some() || BUILTIN.contains(&n.as_str()) || n.starts_with("__"),
            "unknown-type-shown",
            "{n} is shown"
        );
    }
    for t in api.types.values() {
        ensure!(shown.contains(&t.name) || BUILTIN.contains(&t.name.as_str()), "type-not-shown", "{} is not shown", t.name);
    }
    for j in schema["types"].as_array().unwrap() {
        if let Some(t) = j["name"].as_str().and_then(|n| api.get(n)) {
            is_type(api, deco, j, t)?;
            case.count("types", 1);
        }
    }
    let one = query("__type(name: $n) { ...T }").replacen('{', "query($n: String!) {", 1);
    for t in api.types.values() {
        let got = ask(lab, one.clone(), json!({"n": t.name})).await?;
        if !BUILTIN.contains(&t.name.as_str()) || !got["__type"].is_null() {
            is_type(api, deco, &got["__type"], t)?;
        }
    }
    for n in hidden.iter().map(|s| s.as_str()).chain(["Nothing", "_Any", "_Entity", ""]) {
        let got = ask(lab, one.clone(), json!({"n": n})).await?;
        ensure!(got["__type"].is_null(), "hidden-type-shown", "{n:?} is shown by __type");
        case.count("hidden types", 1);
    }
    // Without deprecated elements, which are only shown on demand.
    let few = "{ __schema { types { name fields { name args { name } } inputFields { name } enumValues { name } } } }";
    let got = ask(lab, few.to_owned(), json!({})).await?;
    for j in got["__schema"]["types"].as_array().unwrap() {
        let Some(t) = j["name"].as_str().and_then(|n| api.get(n)) else { continue };
        let n = &t.name;
        let current = |path: String| deco.deprecated(&path).is_none();
        let inputs = |of: &str, v: &[Arg]| -> BTreeSet<String> {
            v.iter()
                .filter(|a| a.ty.is_non_null() && a.default.is_none() || current(format!("{of}({})", a.name)))
                .map(|a| a.name.clone())
                .collect()
        };
        for (what, want) in [
            ("fields", set(t.fields.iter().map(|f| &f.name).filter(|f| current(format!("{n}.{f}"))))),
            ("enumValues", set(t.values.iter().filter(|v| current(format!("{n}.{v}"))))),
            ("inputFields", inputs(n, &t.inputs)),
        ] {
            let shown = names(&j[what])?;
            ensure!(shown == want, "deprecated-shown-or-not", "{n} has the {what} {shown:?} and not {want:?}");
        }
        for f in j["fields"].as_array().into_iter().flatten() {
            let d = t.fields.iter().find(|d| f["name"] == d.name.as_str()).unwrap();
            let (shown, want) = (names(&f["args"])?, inputs(&format!("{n}.{}", d.name), &d.args));
            ensure!(shown == want, "deprecated-shown-or-not", "{n}.{} takes {shown:?} and not {want:?}", d.name);
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("E07", "introspection shows exactly the schema for clients");
    c.cases("introspection", 6000, 100000, |case| {
        let mut subs = fed::generate(&mut case.rng, fed::ALL);
        let seed = case.rng.u64();
        let deco = Deco(case.rng.pct(70).then_some(seed));
        if deco.0.is_some() {
            for (_, sdl) in &mut subs {
                *sdl = deco.subgraph(sdl);
            }
        }
        let fed = Fed::new(&subs, seed);
        let text: String = subs.iter().map(|(n, s)| format!("# subgraph {n}\n{s}\n")).collect();
        case.input(text.clone());
        // The gateway hides what has no parts left, and everything that refers to it.
        let bare = |t: &Type| match t.kind {
            Kind::Object | Kind::Interface => t.fields.is_empty(),
            Kind::Union => t.members.is_empty(),
            Kind::Enum => t.values.is_empty(),
            Kind::Input => t.inputs.is_empty(),
            Kind::Scalar => false,
        };
        if fed.api.types.values().any(bare) {
            case.count("nothing left in a type", 1);
            return Ok(());
        }
        let whole = View::union(&fed.subs);
        let hidden: Vec<String> = whole.types.keys().filter(|n| fed.api.get(n).is_none()).cloned().collect();
        let inaccessible = text.contains(" @inaccessible");
        guard("engine", || {
            block_on(async {
                let mut options = Options::default();
                options.config.graph.introspection = Some(true);
                let lab = match Lab::new(fed, options).await {
                    Ok(l) => l,
                    // Some things cannot be hidden, which is up to composition.
                    Err(_) if deco.0.is_some() => {
                        case.count("not composed", 1);
                        return Ok(());
                    }
                    Err(e) => return viol("not-composed", e),
                };
                case.input(format!("{text}\n# federated\n{}", lab.sdl));
                check(&lab, deco, &hidden, case).await?;
                case.count("decorated", deco.0.is_some() as u64);
                if inaccessible {
                    case.count("with inaccessible parts", 1);
                }
                case.nontrivial(&text);
                Ok(())
            })
        })?
    });
    c.require("types", 10000);
    c.require("with inaccessible parts", 200);
    c.require("decorated", 1000);
    c.finish()
}
