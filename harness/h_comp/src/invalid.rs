//! Ways to make a valid set of subgraphs invalid, each with what the error has to name.
use crate::model::key_fields;
use crate::universe::{Fed, ROOTS, Sub};
use vcommon::Rng;
use vgql::*;

#[derive(Clone, Debug)]
pub struct Mutation {
    pub class: &'static str,
    /// Words that must all appear in one error.
    pub names: Vec<String>,
}

fn m(class: &'static str, names: &[&str]) -> Option<Mutation> {
    Some(Mutation { class, names: names.iter().map(|s| s.to_string()).collect() })
}

pub fn is_root(t: &str) -> bool {
    ROOTS.iter().any(|r| r.1 == t)
}

fn has(d: &[Dir], n: &str) -> bool {
    d.iter().any(|d| d.name == n)
}

fn v2(s: &Sub) -> bool {
    s.fed == Fed::V2
}

/// (type, indices of the subgraphs that define it), for types in at least `min` subgraphs.
fn types(subs: &[Sub], min: usize, f: impl Fn(&TypeDef) -> bool) -> Vec<(String, Vec<usize>)> {
    let mut names: Vec<String> = subs.iter().flat_map(|s| s.doc.types()).map(|t| t.name.clone()).collect();
    names.sort();
    names.dedup();
    names
        .into_iter()
        .filter_map(|n| {
            let at: Vec<usize> = (0..subs.len()).filter(|i| subs[*i].doc.types().any(|t| t.name == n)).collect();
            let ok = at.len() >= min && at.iter().all(|i| subs[*i].doc.types().filter(|t| t.name == n).all(&f));
            ok.then_some((n, at))
        })
        .collect()
}

/// (type, field, subgraphs), for fields in at least `min` subgraphs.
fn fields(subs: &[Sub], min: usize, f: impl Fn(&Sub, &TypeDef, &Field) -> bool) -> Vec<(String, String, Vec<usize>)> {
    let mut names: Vec<(String, String)> = subs
        .iter()
        .flat_map(|s| s.doc.types())
        .flat_map(|t| t.fields.iter().map(|f| (t.name.clone(), f.name.clone())))
        .collect();
    names.sort();
    names.dedup();
    names
        .into_iter()
        .filter_map(|(t, n)| {
            let at: Vec<usize> = (0..subs.len()).filter(|i| ty(&subs[*i], &t).is_some_and(|t| t.field(&n).is_some())).collect();
            let ok = at.len() >= min
                && at.iter().all(|i| {
                    let d = ty(&subs[*i], &t).unwrap();
                    f(&subs[*i], d, d.field(&n).unwrap())
                });
            ok.then_some((t, n, at))
        })
        .collect()
}

fn ty<'a>(s: &'a Sub, t: &str) -> Option<&'a TypeDef> {
    s.doc.types().find(|x| x.name == t)
}

fn ty_mut<'a>(s: &'a mut Sub, t: &str) -> &'a mut TypeDef {
    s.doc.types_mut().find(|x| x.name == t).unwrap()
}

fn field_mut<'a>(s: &'a mut Sub, t: &str, f: &str) -> &'a mut Field {
    ty_mut(s, t).fields.iter_mut().find(|x| x.name == f).unwrap()
}

fn pick<T: Clone>(r: &mut Rng, v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(r.pick(v).clone()) }
}

fn plain(name: &str, t: Ty) -> Field {
    Field { desc: None, name: name.into(), args: vec![], ty: t, dirs: vec![] }
}

fn in_keys(subs: &[Sub], t: &str, f: &str) -> bool {
    subs.iter().any(|s| key_fields(s, t).contains(f)) || subs.iter().any(|s| selected(s, f))
}

/// The field name occurs in some @requires or @provides.
fn selected(s: &Sub, f: &str) -> bool {
    s.doc.types().flat_map(|t| t.fields.iter()).flat_map(|f| f.dirs.iter()).any(|d| {
        ["requires", "provides"].contains(&d.name.as_str())
            && d.str_arg("fields").is_some_and(|x| x.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == f))
    })
}

fn other_base(b: &str) -> &'static str {
    if b == "Int" { "String" } else { "Int" }
}

/// Changes the nullability of an element of the (innermost) list.
fn flip_inner(t: &Ty) -> Option<Ty> {
    match t {
        Ty::Named(_) => None,
        Ty::NonNull(t) => Some(flip_inner(t)?.non_null()),
        Ty::List(t) => Some(Ty::List(Box::new(if t.is_non_null() { t.clone().nullable() } else { t.clone().non_null() }))),
    }
}

pub const CLASSES: usize = 32;

pub fn mutate(r: &mut Rng, subs: &mut Vec<Sub>, class: usize) -> Option<Mutation> {
    let out = |t: &TypeDef| matches!(t.kind, Kind::Object | Kind::Interface);
    match class {
        0 => {
            let c = fields(subs, 2, |_, t, f| {
                t.kind == Kind::Object && !has(&t.dirs, "shareable") && !has(&f.dirs, "external") && !has(&f.dirs, "override")
            });
            let c: Vec<_> = c
                .into_iter()
                .filter(|(t, f, at)| {
                    t != "Subscription"
                        && !subs.iter().any(|s| key_fields(s, t).contains(f))
                        && at.iter().filter(|i| v2(&subs[**i])).count() >= 2
                })
                .collect();
            let (t, f, at) = pick(r, &c)?;
            for i in at {
                field_mut(&mut subs[i], &t, &f).dirs.retain(|d| d.name != "shareable");
            }
            m("not-shareable", &[&t, &f])
        }
        1..=3 => {
            let c: Vec<_> =
                fields(subs, 2, |_, t, _| out(t)).into_iter().filter(|(t, f, _)| !in_keys(subs, t, f)).collect();
            let (t, f, at) = pick(r, &c)?;
            let i = *r.pick(&at);
            let x = field_mut(&mut subs[i], &t, &f);
            match class {
                1 => {
                    x.ty = x.ty.with_base(other_base(x.ty.base()));
                    m("field-base-type", &[&t, &f])
                }
                2 => {
                    x.ty = if r.bool() || !matches!(x.ty.clone().nullable(), Ty::List(_)) {
                        x.ty.clone().list()
                    } else {
                        let Ty::List(inner) = x.ty.clone().nullable() else { return None };
                        *inner
                    };
                    m("field-list-depth", &[&t, &f])
                }
                _ => {
                    x.ty = flip_inner(&x.ty)?;
                    m("field-inner-nullability", &[&t, &f])
                }
            }
        }
        4..=7 => {
            let c = fields(subs, 2, |_, t, f| out(t) && !f.args.is_empty());
            let (t, f, at) = pick(r, &c)?;
            if in_keys(subs, &t, &f) {
                return None;
            }
            let names: Vec<String> = ty(&subs[at[0]], &t)?
                .field(&f)?
                .args
                .iter()
                .map(|a| a.name.clone())
                .filter(|a| at.iter().all(|i| ty(&subs[*i], &t).unwrap().field(&f).unwrap().arg(a).is_some()))
                .collect();
            let a = pick(r, &names)?;
            let i = *r.pick(&at);
            let j = *at.iter().find(|j| **j != i)?;
            let arg = field_mut(&mut subs[i], &t, &f).args.iter_mut().find(|x| x.name == a)?;
            match class {
                4 => {
                    arg.default = None;
                    arg.ty = if r.bool() { arg.ty.with_base(other_base(arg.ty.base())) } else { arg.ty.clone().list() };
                    m("argument-type", &[&t, &f, &a])
                }
                5 => {
                    arg.default = None;
                    arg.ty = arg.ty.clone().non_null();
                    field_mut(&mut subs[j], &t, &f).args.retain(|x| x.name != a);
                    m("required-argument-missing", &[&t, &f, &a])
                }
                6 => {
                    if arg.ty.clone().nullable() != Ty::named("Int") {
                        return None;
                    }
                    arg.default = Some(Value::Int("11".into()));
                    let arg = field_mut(&mut subs[j], &t, &f).args.iter_mut().find(|x| x.name == a)?;
                    arg.default = Some(Value::Int("12".into()));
                    m("argument-default", &[&t, &f, &a])
                }
                _ => {
                    arg.default = None;
                    arg.ty = flip_inner(&arg.ty)?;
                    m("argument-inner-nullability", &[&t, &f, &a])
                }
            }
        }
        8 | 9 => {
            let c = types(subs, 2, |t| t.kind == Kind::Input);
            let (t, at) = pick(r, &c)?;
            let i = *r.pick(&at);
            if class == 8 {
                let x = InputVal { desc: None, name: "mustHave".into(), ty: Ty::named("Int").non_null(), default: None, dirs: vec![] };
                ty_mut(&mut subs[i], &t).inputs.push(x);
                return m("required-input-field-missing", &[&t, "mustHave"]);
            }
            let names: Vec<String> = ty(&subs[i], &t)?
                .inputs
                .iter()
                .map(|x| x.name.clone())
                .filter(|n| at.iter().all(|j| ty(&subs[*j], &t).unwrap().input(n).is_some()))
                .collect();
            let n = pick(r, &names)?;
            let x = ty_mut(&mut subs[i], &t).inputs.iter_mut().find(|x| x.name == n)?;
            x.default = None;
            x.ty = match r.below(3) {
                0 => x.ty.with_base(other_base(x.ty.base())),
                1 => x.ty.clone().list(),
                _ => flip_inner(&x.ty)?,
            };
            m("input-field-type", &[&t, &n])
        }
        10 | 11 => {
            let c = types(subs, 2, |t| t.kind == Kind::Enum);
            let (t, at) = pick(r, &c)?;
            let used = |input: bool| {
                subs.iter().flat_map(|s| s.doc.types()).any(|d| {
                    if input {
                        d.inputs.iter().chain(d.fields.iter().flat_map(|f| f.args.iter())).any(|x| x.ty.base() == t)
                    } else {
                        d.fields.iter().any(|f| f.ty.base() == t)
                    }
                })
            };
            let (i, o) = (used(true), used(false));
            let s = *r.pick(&at);
            let values = &mut ty_mut(&mut subs[s], &t).values;
            if class == 10 {
                if !(i && o) {
                    return None;
                }
                values.push(EnumVal { desc: None, name: "ONLY_HERE".into(), dirs: vec![] });
                m("enum-mismatch", &[&t])
            } else {
                if !(i && !o) {
                    return None;
                }
                *values = vec![EnumVal { desc: None, name: "ONLY_HERE".into(), dirs: vec![] }];
                m("enum-empty-intersection", &[&t])
            }
        }
        12 => {
            let c = types(subs, 2, |t| t.kind == Kind::Object && has(&t.dirs, "key"));
            let c: Vec<_> = c.into_iter().filter(|(_, at)| at.iter().filter(|i| v2(&subs[**i])).count() >= 1).collect();
            let (t, at) = pick(r, &c)?;
            let i = *at.iter().find(|i| v2(&subs[**i]))?;
            ty_mut(&mut subs[i], &t).dirs.retain(|d| d.name != "key");
            m("entity-and-not", &[&t])
        }
        13 => {
            let c = types(subs, 1, |_| true);
            let (t, at) = pick(r, &c)?;
            let free: Vec<usize> = (0..subs.len()).filter(|i| !at.contains(i) && v2(&subs[*i])).collect();
            if is_root(&t) {
                return None;
            }
            let i = pick(r, &free)?;
            let kind = ty(&subs[at[0]], &t)?.kind;
            let kinds: Vec<Kind> =
                [Kind::Scalar, Kind::Object, Kind::Enum, Kind::Input, Kind::Interface].into_iter().filter(|k| *k != kind).collect();
            let k = *r.pick(&kinds);
            let mut d = TypeDef::new(k, &t);
            match k {
                Kind::Enum => d.values.push(EnumVal { desc: None, name: "A".into(), dirs: vec![] }),
                Kind::Input => {
                    d.inputs.push(InputVal { desc: None, name: "a".into(), ty: Ty::named("Int"), default: None, dirs: vec![] })
                }
                Kind::Object | Kind::Interface => d.fields.push(plain("a", Ty::named("Int"))),
                _ => {}
            }
            subs[i].doc.push(d);
            m("kind-mismatch", &[&t])
        }
        14 => {
            let c: Vec<_> = types(subs, 2, |t| t.kind == Kind::Object)
                .into_iter()
                .filter(|(t, at)| !is_root(t) && at.iter().any(|i| has(&ty(&subs[*i], t).unwrap().dirs, "shareable")))
                .collect();
            let (t, at) = pick(r, &c)?;
            let i = *r.pick(&at);
            ty_mut(&mut subs[i], &t).fields.push(plain("extraField", Ty::named("Int")));
            m("shareable-field-missing", &[&t, "extraField"])
        }
        15 => {
            let c = types(subs, 3, |t| t.kind == Kind::Object && has(&t.dirs, "key"));
            let (t, at) = pick(r, &c)?;
            let v: Vec<usize> = at.iter().copied().filter(|i| v2(&subs[*i])).collect();
            let src = *at.iter().find(|i| v.iter().filter(|j| j != i).count() >= 2)?;
            let name = subs[src].name.clone();
            ty_mut(&mut subs[src], &t).fields.push(plain("ov", Ty::named("Int")));
            for i in v.into_iter().filter(|i| *i != src).take(2) {
                let mut f = plain("ov", Ty::named("Int"));
                f.dirs.push(Dir::new("override", &[("from", Value::Str(name.clone()))]));
                ty_mut(&mut subs[i], &t).fields.push(f);
            }
            m("override-twice", &[&t, "ov", &name])
        }
        16 => {
            let c: Vec<_> = (0..subs.len()).filter(|i| v2(&subs[*i])).collect();
            let i = pick(r, &c)?;
            let name = subs[i].name.clone();
            let c: Vec<String> =
                subs[i].doc.types().filter(|t| t.kind == Kind::Object && t.name != "Subscription").map(|t| t.name.clone()).collect();
            let t = pick(r, &c)?;
            let mut f = plain("fromSelf", Ty::named("Int"));
            f.dirs.push(Dir::new("override", &[("from", Value::Str(name.clone()))]));
            ty_mut(&mut subs[i], &t).fields.push(f);
            m("override-from-self", &[&printed(&subs[i], &t), "fromSelf", &name])
        }
        17 | 18 => {
            let c: Vec<(usize, String)> = (0..subs.len())
                .filter(|i| v2(&subs[*i]))
                .flat_map(|i| subs[i].doc.types().map(move |t| (i, t)))
                .filter(|(_, t)| t.kind == Kind::Object && has(&t.dirs, "key"))
                .map(|(i, t)| (i, t.name.clone()))
                .collect();
            let (i, t) = pick(r, &c)?;
            let target = plain("needed", Ty::named("Int"));
            let mut f = plain("both", Ty::named(&t));
            f.dirs.push(Dir::new("external", &[]));
            if class == 17 {
                f.dirs.push(Dir::new("requires", &[("fields", Value::Str("needed".into()))]));
            } else {
                f.dirs.push(Dir::new("provides", &[("fields", Value::Str("needed".into()))]));
            }
            let d = ty_mut(&mut subs[i], &t);
            d.fields.push(target);
            d.fields.push(f);
            m(if class == 17 { "external-with-requires" } else { "external-with-provides" }, &[&t, "both"])
        }
        19 | 20 | 21 => {
            let c: Vec<(usize, String)> = (0..subs.len())
                .flat_map(|i| subs[i].doc.types().map(move |t| (i, t)))
                .filter(|(_, t)| t.kind == Kind::Object && has(&t.dirs, "key"))
                .map(|(i, t)| (i, t.name.clone()))
                .collect();
            let (i, t) = pick(r, &c)?;
            let sel = r.str(&["missing_", "id missing_", "... on TTT { missing_ }", "missing_ { id }", "id\nmissing_"]).replace("TTT", &t);
            let d = ty_mut(&mut subs[i], &t);
            match class {
                19 => d.dirs.push(Dir::new("key", &[("fields", Value::Str(sel))])),
                20 => {
                    let mut f = plain("calc", Ty::named("Int"));
                    f.dirs.push(Dir::new("requires", &[("fields", Value::Str(sel))]));
                    d.fields.push(f);
                }
                _ => {
                    let mut f = plain("prov", Ty::named(&t));
                    f.dirs.push(Dir::new("provides", &[("fields", Value::Str(sel))]));
                    d.fields.push(f);
                }
            }
            m(["unknown-field-in-key", "unknown-field-in-requires", "unknown-field-in-provides"][class - 19], &[&t, "missing_"])
        }
        22 => {
            let c = types(subs, 1, |t| t.kind == Kind::Interface);
            let (t, at) = pick(r, &c)?;
            let mut imps: Vec<String> = subs
                .iter()
                .flat_map(|s| s.doc.types())
                .filter(|d| d.implements.contains(&t))
                .map(|d| d.name.clone())
                .collect();
            imps.sort();
            let o = pick(r, &imps)?;
            let i = *r.pick(&at);
            ty_mut(&mut subs[i], &t).fields.push(plain("unimplemented", Ty::named("Int")));
            m("interface-field-missing", &[&t, "unimplemented", &o])
        }
        23 => {
            let c = fields(subs, 1, |s, t, _| v2(s) && t.kind == Kind::Interface);
            let (t, f, at) = pick(r, &c)?;
            field_mut(&mut subs[at[0]], &t, &f).dirs.push(Dir::new("shareable", &[]));
            m("shareable-interface-field", &[&t, &f])
        }
        24 => {
            let c = fields(subs, 1, |s, t, _| v2(s) && t.name == "Subscription");
            let (t, f, at) = pick(r, &c)?;
            field_mut(&mut subs[at[0]], &t, &f).dirs.push(Dir::new("shareable", &[]));
            m("shareable-subscription", &[&printed(&subs[at[0]], "Subscription"), &f])
        }
        25 => {
            // A type of a visible field becomes inaccessible.
            let visible = |d: &[Dir]| !has(d, "inaccessible");
            let c: Vec<_> = fields(subs, 1, |_, t, f| {
                out(t) && visible(&t.dirs) && visible(&f.dirs) && !BUILTIN_SCALARS.contains(&f.ty.base()) && !is_root(f.ty.base()) && f.ty.base() != t.name
            })
            .into_iter()
            .filter(|(t, _, _)| subs.iter().all(|s| ty(s, t).is_none_or(|t| visible(&t.dirs))))
            .collect();
            let (t, f, at) = pick(r, &c)?;
            let base = ty(&subs[at[0]], &t)?.field(&f)?.ty.base().to_string();
            // Anywhere: also where the field does not exist.
            let c: Vec<usize> = (0..subs.len()).filter(|i| v2(&subs[*i]) && ty(&subs[*i], &base).is_some()).collect();
            let i = pick(r, &c)?;
            ty_mut(&mut subs[i], &base).dirs.push(Dir::new("inaccessible", &[]));
            m("visible-field-of-inaccessible-type", &[&t, &f])
        }
        26 => {
            for s in subs.iter_mut() {
                s.rename_roots = false;
                s.doc.defs.retain(|d| !matches!(d, Def::Type(t) if is_root(&t.name)));
                if s.doc.defs.is_empty() {
                    s.doc.push(TypeDef::new(Kind::Scalar, "Something"));
                }
            }
            m("no-root", &[])
        }
        27 => {
            let i = r.below(subs.len());
            let bad = r.str(&["", "1abc", "a_b", "a b", "-a", "a.b", "a/b", "a@b"]).to_string();
            subs[i].name = bad.clone();
            m("subgraph-name", &[&bad])
        }
        28 => {
            if subs.len() < 2 {
                return None;
            }
            let n = subs[0].name.clone();
            subs[1].name = if r.bool() { n.to_uppercase() } else { n.clone() };
            let n = subs[1].name.clone();
            m("subgraph-name-duplicated", &[&n])
        }
        29 => {
            let c: Vec<usize> =
                (0..subs.len()).filter(|i| v2(&subs[*i]) && ty(&subs[*i], "Query").is_some()).collect();
            let i = pick(r, &c)?;
            ty_mut(&mut subs[i], "Query").dirs.push(Dir::new("inaccessible", &[]));
            let n = subs[i].name.clone();
            m("query-root-inaccessible", &[&n])
        }
        30 => {
            let i = r.below(subs.len());
            let mut t = TypeDef::new(Kind::Enum, "join__Graph");
            t.values.push(EnumVal { desc: None, name: "X".into(), dirs: vec![] });
            subs[i].doc.push(t);
            m("reserved-name", &["join__Graph"])
        }
        31 => {
            // Two subgraphs that are each fine: one type lacks what its interface implements elsewhere.
            if subs.len() < 2 {
                return None;
            }
            let field = |t: &mut TypeDef| t.fields.push(Field { desc: None, name: "zf".into(), args: vec![], ty: Ty::Named("Int".into()), dirs: vec![] });
            let (mut a, mut b, mut c, mut d) = (
                TypeDef::new(Kind::Interface, "ZParent"),
                TypeDef::new(Kind::Interface, "ZChild"),
                TypeDef::new(Kind::Interface, "ZChild"),
                TypeDef::new(if r.bool() { Kind::Object } else { Kind::Interface }, "ZThing"),
            );
            [&mut a, &mut b, &mut c, &mut d].into_iter().for_each(field);
            b.implements.push("ZParent".into());
            d.implements.push("ZChild".into());
            let i = r.below(subs.len());
            let j = (i + 1 + r.below(subs.len() - 1)) % subs.len();
            subs[i].doc.push(a);
            subs[i].doc.push(b);
            subs[j].doc.push(c);
            subs[j].doc.push(d);
            m("transitive-interface-missing", &["ZThing", "ZParent"])
        }
        _ => None,
    }
}

/// How the subgraph itself calls a type.
fn printed(s: &Sub, t: &str) -> String {
    if s.rename_roots && is_root(t) { format!("My{t}Root") } else { t.to_string() }
}
