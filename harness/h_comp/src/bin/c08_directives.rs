use h_comp::{sut, universe::*};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::*;
use vgql::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Absent,
    /// Defined and used, not composed.
    Private,
    /// `@composeDirective` of a locally defined directive.
    Local,
    /// `@composeDirective` of an imported directive.
    Linked,
}

const LOCATIONS: [&str; 10] =
    ["SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"];

struct Custom {
    name: &'static str,
    args: Vec<InputVal>,
    locations: Vec<String>,
    repeatable: bool,
}

fn value(r: &mut Rng, depth: u32) -> Value {
    match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => Value::Int(r.str(&["0", "-7", "2147483648", "42"]).to_string()),
        1 => Value::Float(r.str(&["1.5", "-0.25", "3.0"]).to_string()),
        2 => Value::Str(r.str(&["", "a", "two words", "qu\"ote", "back\\slash", "new\nline", "é ✓", "\"\"\""]).to_string()),
        3 => Value::Bool(r.bool()),
        4 => Value::Null,
        5 => Value::Enum(r.str(&["RED", "green", "_X"]).to_string()),
        6 => Value::List(vec![]),
        7 => Value::List((0..1 + r.below(3)).map(|_| value(r, depth - 1)).collect()),
        _ => Value::Obj((0..1 + r.below(3)).map(|k| (format!("k{k}"), value(r, depth - 1))).collect()),
    }
}

fn default_for(r: &mut Rng, ty: &Ty) -> Value {
    match ty.to_string().as_str() {
        "Int" => Value::Int(r.str(&["0", "-7", "42"]).to_string()),
        "Float" => Value::Float(r.str(&["1.5", "-0.25"]).to_string()),
        "Boolean" => Value::Bool(r.bool()),
        "String" | "ID" => Value::Str(r.str(&["", "two words", "qu\"ote", "back\\slash", "new\nline", "é ✓"]).to_string()),
        _ => Value::List(vec![]),
    }
}

fn show_arg(a: &InputVal) -> String {
    format!("{}: {}{}", a.name, a.ty.to_string(), a.default.as_ref().map(|d| format!(" = {d:?}")).unwrap_or_default())
}

/// A definition of the same directive that contradicts `d`.
fn contradiction(r: &mut Rng, d: &Custom) -> Option<(Vec<InputVal>, bool, &'static str)> {
    let mut args = d.args.clone();
    let mut repeatable = d.repeatable;
    let what = match r.below(5) {
        0 => {
            repeatable = !repeatable;
            "repeatable"
        }
        1 => {
            args.push(InputVal { desc: None, name: "required".into(), ty: Ty::named("Int").non_null(), default: None, dirs: vec![] });
            "required argument"
        }
        _ if args.is_empty() => return None,
        2 => {
            let i = r.below(args.len());
            args[i].ty = if args[i].ty.to_string() == "Boolean" { Ty::named("Int") } else { Ty::named("Boolean") };
            args[i].default = None;
            "type"
        }
        3 => {
            let i = r.below(args.len());
            args[i].default = match args[i].default {
                Some(_) => None,
                None => Some(default_for(r, &args[i].ty)),
            };
            "default of one"
        }
        _ => {
            let i = r.below(args.len());
            args[i].default.as_ref()?;
            let other = default_for(r, &args[i].ty);
            if format!("{other:?}") == format!("{:?}", args[i].default.as_ref().unwrap()) {
                return None;
            }
            args[i].default = Some(other);
            "default"
        }
    };
    Some((args, repeatable, what))
}

type Sites = BTreeMap<String, BTreeSet<String>>;

/// Calls `f` on every place of a type with its name and its directive location.
fn places(t: &mut TypeDef, f: &mut dyn FnMut(&str, &str, &mut Vec<Dir>)) {
    let n = t.name.clone();
    let loc = match t.kind {
        Kind::Scalar => "SCALAR",
        Kind::Object => "OBJECT",
        Kind::Interface => "INTERFACE",
        Kind::Union => "UNION",
        Kind::Enum => "ENUM",
        Kind::Input => "INPUT_OBJECT",
    };
    f(&n, loc, &mut t.dirs);
    for x in &mut t.fields {
        let p = format!("{n}.{}", x.name);
        f(&p, "FIELD_DEFINITION", &mut x.dirs);
        for a in &mut x.args {
            f(&format!("{p}({})", a.name), "ARGUMENT_DEFINITION", &mut a.dirs);
        }
    }
    for x in &mut t.values {
        f(&format!("{n}.{}", x.name), "ENUM_VALUE", &mut x.dirs);
    }
    for x in &mut t.inputs {
        f(&format!("{n}.{}", x.name), "INPUT_FIELD_DEFINITION", &mut x.dirs);
    }
}

fn show_dir(d: &Dir) -> String {
    let mut a: Vec<String> = d.args.iter().map(|(n, v)| format!("{n}: {v:?}")).collect();
    a.sort();
    format!("@{}({})", d.name, a.join(", "))
}

fn main() {
    let mut c = Check::new(
        "C08",
        "Random valid sets of subgraphs with custom directives, that @composeDirective asks to compose or not, imported or \
         local, on all the places of the schema. The federated SDL, parsed independently, must apply on every place exactly the \
         composed applications of all the subgraphs, once each, define the composed directives with all their locations and \
         arguments, and link the imported ones. Distinct: hash of the SDLs.",
    );
    c.require("composed", 1000);
    c.require("applications", 10_000);
    c.require("same application in several subgraphs", 500);
    c.cases("custom directives", 120_000, 800_000, |case| {
        let mut subs = generate(&mut case.rng, Features::default());
        let r = &mut case.rng;
        let customs: Vec<Custom> = ["custom", "note", "flag"]
            .iter()
            .map(|n| {
                let args = (0..r.below(4))
                    .map(|k| {
                        let ty = Ty::named(r.str(&["Int", "String", "Boolean", "Float", "ID"]));
                        let ty = if r.pct(20) { ty.list() } else { ty };
                        let default = if r.pct(40) { Some(default_for(r, &ty)) } else { None };
                        InputVal { desc: None, name: format!("a{k}"), ty, default, dirs: vec![] }
                    })
                    .collect();
                let mut locations = r.subset(&LOCATIONS.map(String::from), 60);
                if locations.is_empty() {
                    locations.push("OBJECT".into());
                }
                Custom { name: n, args, locations, repeatable: r.bool() }
            })
            .collect();
        let mut expected: Sites = BTreeMap::new();
        // Applications of directives the subgraph composes without importing them: Apollo's composition does not allow
        // that, this one keeps the definition and, depending on whether there is one, the applications.
        let mut optional: Sites = BTreeMap::new();
        let mut defs: BTreeMap<&str, (BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
        let mut links: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut seen_twice = 0;
        // Now and then two subgraphs contradict each other about a composed directive.
        let contradicted = if r.pct(15) && subs.len() > 1 {
            let i = r.below(customs.len());
            contradiction(r, &customs[i]).map(|(args, repeatable, what)| {
                let mut two: Vec<usize> = (0..subs.len()).collect();
                r.shuffle(&mut two);
                (customs[i].name, args, repeatable, what, two[0], two[1])
            })
        } else {
            None
        };
        let mut parts = vec![];
        // Few values, so that subgraphs agree now and then.
        let values: Vec<Value> = (0..4).map(|_| value(r, 2)).collect();
        let overridden: BTreeSet<String> = subs
            .iter()
            .flat_map(|s| s.doc.types().flat_map(|t| t.fields.iter().filter(|f| f.dirs.iter().any(|d| d.name == "override")).map(|f| format!("{}.{}", t.name, f.name)).collect::<Vec<_>>()).collect::<Vec<_>>())
            .collect();
        for (index, s) in subs.iter_mut().enumerate() {
            let mut head = String::new();
            for d in &customs {
                let mut mode = *r.pick(&[Mode::Absent, Mode::Private, Mode::Local, Mode::Linked, Mode::Linked]);
                let c = contradicted.as_ref().filter(|c| c.0 == d.name);
                if c.is_some_and(|c| index == c.4 || index == c.5) {
                    mode = if mode == Mode::Local { Mode::Local } else { Mode::Linked };
                }
                let c = c.filter(|c| index == c.4);
                if mode == Mode::Absent {
                    continue;
                }
                let args = match c {
                    Some(c) => c.1.clone(),
                    None if r.pct(75) || contradicted.as_ref().is_some_and(|c| c.0 == d.name) => d.args.clone(),
                    None => r.subset(&d.args, 60),
                };
                let locations = if r.pct(75) { d.locations.clone() } else { d.locations[..1].to_vec() };
                let composed = mode != Mode::Private;
                if composed {
                    let e = defs.entry(d.name).or_default();
                    e.0.extend(locations.iter().cloned());
                    e.1.extend(args.iter().map(show_arg));
                    head += &format!("extend schema @{}(name: \"@{}\")", s.dir_name("composeDirective"), d.name);
                    if mode == Mode::Linked {
                        head += &format!(" @link(url: \"https://example.com/{}/v1.0\", import: [\"@{}\"])", d.name, d.name);
                    }
                    head.push('\n');
                }
                let a: Vec<String> = args
                    .iter()
                    .map(|a| format!("{}: {}{}", a.name, a.ty.to_string(), a.default.as_ref().map(|d| format!(" = {d}")).unwrap_or_default()))
                    .collect();
                head += &format!(
                    "directive @{}{} {}on {}\n",
                    d.name,
                    if a.is_empty() { String::new() } else { format!("({})", a.join(", ")) },
                    if c.map_or(d.repeatable, |c| c.2) { "repeatable " } else { "" },
                    locations.join(" | ")
                );
                let mut here: Sites = BTreeMap::new();
                for t in s.doc.types_mut() {
                    places(t, &mut |place, loc, dirs| {
                        if !locations.iter().any(|l| l == loc) || !r.pct(30) {
                            return;
                        }
                        for _ in 0..if d.repeatable { 1 + r.below(3) } else { 1 } {
                            let args: Vec<(String, Value)> =
                                args.iter().filter_map(|a| if a.ty.to_string().ends_with("!") || r.pct(60) { Some((a.name.clone(), r.pick(&values).clone())) } else { None }).collect();
                            let dir = Dir { name: d.name.into(), args };
                            if composed {
                                here.entry(place.into()).or_default().insert(show_dir(&dir));
                            }
                            dirs.push(dir);
                        }
                    });
                }
                for (k, v) in here {
                    if overridden.contains(k.split('(').next().unwrap()) {
                        continue;
                    }
                    let e = if mode == Mode::Linked { &mut expected } else { &mut optional }.entry(k).or_default();
                    seen_twice += v.intersection(e).count();
                    e.extend(v);
                }
                if mode == Mode::Linked {
                    links.entry(format!("https://example.com/{}/v1.0", d.name)).or_default().insert(format!("@{}", d.name));
                }
            }
            parts.push((s.name.clone(), s.url.clone(), format!("{head}{}", s.sdl())));
        }
        let text = parts.iter().map(|(n, u, s)| format!("# --- subgraph {n} ({u})\n{s}")).collect::<Vec<_>>().join("\n");
        case.input(text.as_str());
        let composed = sut::compose_sdl(&parts)?;
        if let Some((name, _, _, what, i, j)) = &contradicted {
            let what = format!("contradiction-accepted-{}", what.replace(' ', "-"));
            return match composed {
                Ok(_) => viol(&what, format!("@{name} of subgraphs number {i} and {j} contradict each other, composition accepts them")),
                Err(e) => {
                    ensure!(
                        e.errors.iter().any(|e| e.contains(name)),
                        "contradiction-unexplained",
                        "no error names the contradicted directive @{name}: {:?}",
                        e.errors
                    );
                    case.count("contradictions rejected", 1);
                    case.nontrivial(&text);
                    Ok(())
                }
            };
        }
        let o = match composed {
            Ok(o) => o,
            Err(r) => return viol("valid-rejected", format!("valid subgraphs are rejected: {:?}", r.errors)),
        };
        case.append_input(&format!("### federated\n{}", o.federated));
        let mut fed = match vgql::parse(&o.federated) {
            Ok(d) => d,
            Err(e) => return viol("federated-unparsable", format!("the federated SDL is not GraphQL: {e}")),
        };
        case.count("composed", 1);
        case.count("same application in several subgraphs", seen_twice as u64);

        // Applications.
        let mut bad: Option<Viol> = None;
        let mut n = 0;
        for t in fed.types_mut() {
            places(t, &mut |place, _, dirs| {
                if overridden.contains(place.split('(').next().unwrap()) {
                    return;
                }
                let got: Vec<String> = dirs.iter().filter(|d| customs.iter().any(|c| c.name == d.name)).map(show_dir).collect();
                let set: BTreeSet<String> = got.iter().cloned().collect();
                let none = BTreeSet::new();
                let want = expected.get(place).unwrap_or(&none);
                n += set.len() as u64;
                let more = optional.get(place).unwrap_or(&none);
                if bad.is_none() && !want.is_subset(&set) {
                    bad = viol::<()>("application-lost", format!("{place} has {set:?}; the subgraphs compose {want:?}")).err();
                }
                if bad.is_none() && !set.iter().all(|d| want.contains(d) || more.contains(d)) {
                    bad = viol::<()>("application-invented", format!("{place} has {set:?}; the subgraphs compose {want:?}")).err();
                }
                if bad.is_none() && got.len() != set.len() {
                    bad = viol::<()>("application-repeated", format!("{place} has {got:?}")).err();
                }
            });
        }
        if let Some(v) = bad {
            return Err(v);
        }
        case.count("applications", n);

        // Definitions.
        for d in &customs {
            let got: Vec<&DirDef> = fed.directives().filter(|x| x.name == d.name).collect();
            let Some((locations, args)) = defs.get(d.name) else {
                ensure!(got.is_empty(), "definition-invented", "@{} is defined, no subgraph composes it", d.name);
                continue;
            };
            ensure!(got.len() == 1, "definition-count", "@{} is defined {} times", d.name, got.len());
            let g = got[0];
            let l: BTreeSet<String> = g.locations.iter().cloned().collect();
            ensure!(&l == locations, "definition-locations", "@{} on {l:?}; the subgraphs say {locations:?}", d.name);
            let a: Vec<String> = g.args.iter().map(show_arg).collect();
            let aset: BTreeSet<String> = a.iter().cloned().collect();
            ensure!(&aset == args && a.len() == aset.len(), "definition-arguments", "@{}({a:?}); the subgraphs say {args:?}", d.name);
            ensure!(d.repeatable || !g.repeatable, "definition-repeatable-invented", "@{} is repeatable only in the federated SDL", d.name);
            case.soft(if g.repeatable == d.repeatable {
                Ok(())
            } else {
                viol("definition-repeatable-lost", format!("@{} is repeatable in the subgraphs: {}, in the federated SDL: {}", d.name, d.repeatable, g.repeatable))
            });
            case.count("definitions", 1);
        }

        // Links.
        let Some(schema) = fed.schema() else { return viol("schema-lost", "no schema definition") };
        for l in schema.dirs.iter().filter(|d| d.name == "link") {
            let url = l.str_arg("url").unwrap_or_default();
            if url.starts_with("https://specs.apollo.dev/") {
                continue;
            }
            let imports: BTreeSet<String> = match l.arg("import") {
                Some(Value::List(v)) => v.iter().map(|x| if let Value::Str(s) = x { s.clone() } else { format!("{x:?}") }).collect(),
                _ => BTreeSet::new(),
            };
            ensure!(links.get(&url) == Some(&imports), "link-wrong", "@link(url: {url:?}, import: {imports:?}); the subgraphs say {links:?}");
            case.count("links", 1);
        }
        case.sample(text.clone());
        case.nontrivial(&text);
        Ok(())
    });
    c.finish();
}
