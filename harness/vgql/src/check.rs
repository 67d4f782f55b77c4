//! Validity of a schema document (no extensions), rule by rule, following the GraphQL specification.
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

/// `sub` is usable where `sup` is declared (covariant output type).
pub fn is_subtype(doc: &BTreeMap<&str, &TypeDef>, sub: &Ty, sup: &Ty) -> bool {
    match (sub, sup) {
        (Ty::NonNull(a), Ty::NonNull(b)) => is_subtype(doc, a, b),
        (Ty::NonNull(a), b) => is_subtype(doc, a, b),
        (_, Ty::NonNull(_)) => false,
        (Ty::List(a), Ty::List(b)) => is_subtype(doc, a, b),
        (Ty::Named(a), Ty::Named(b)) => {
            a == b
                || match (doc.get(a.as_str()), doc.get(b.as_str())) {
                    (Some(a), Some(b)) => match b.kind {
                        Kind::Interface => a.implements.contains(&b.name),
                        Kind::Union => b.members.contains(&a.name),
                        _ => false,
                    },
                    _ => false,
                }
        }
        _ => false,
    }
}

/// Problems as (rule, where). `external` names are treated as existing types of unknown kind.
pub fn problems(doc: &Doc) -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = vec![];
    let mut map: BTreeMap<&str, &TypeDef> = BTreeMap::new();
    for t in doc.types() {
        if map.insert(&t.name, t).is_some() {
            out.push(("duplicate-type", t.name.clone()));
        }
    }
    let dup = |names: Vec<&String>| -> Option<String> {
        let mut seen = BTreeSet::new();
        names.into_iter().find(|n| !seen.insert(n.as_str())).cloned()
    };
    let kind_of = |n: &str| -> Option<Kind> {
        map.get(n).map(|t| t.kind).or(BUILTIN_SCALARS.contains(&n).then_some(Kind::Scalar))
    };
    let input = |v: &InputVal, place: String, out: &mut Vec<(&'static str, String)>| match kind_of(v.ty.base()) {
        None => out.push(("unknown-type", format!("{place}: {}", v.ty))),
        Some(k) if !k.is_input() => out.push(("output-type-as-input", format!("{place}: {}", v.ty))),
        _ => {}
    };
    for t in doc.types() {
        if t.name.starts_with("__") {
            out.push(("reserved-name", t.name.clone()));
        }
        match t.kind {
            Kind::Object | Kind::Interface => {
                if t.fields.is_empty() {
                    out.push(("empty-type", t.name.clone()));
                }
                if let Some(d) = dup(t.fields.iter().map(|f| &f.name).collect()) {
                    out.push(("duplicate-field", format!("{}.{d}", t.name)));
                }
                for f in &t.fields {
                    let place = format!("{}.{}", t.name, f.name);
                    match kind_of(f.ty.base()) {
                        None => out.push(("unknown-type", format!("{place}: {}", f.ty))),
                        Some(Kind::Input) => out.push(("input-type-as-output", format!("{place}: {}", f.ty))),
                        _ => {}
                    }
                    if let Some(d) = dup(f.args.iter().map(|f| &f.name).collect()) {
                        out.push(("duplicate-argument", format!("{place}({d}:)")));
                    }
                    for a in &f.args {
                        input(a, format!("{place}({}:)", a.name), &mut out);
                    }
                }
                if let Some(d) = dup(t.implements.iter().collect()) {
                    out.push(("duplicate-implements", format!("{} {d}", t.name)));
                }
                for i in &t.implements {
                    let Some(it) = map.get(i.as_str()).filter(|t| t.kind == Kind::Interface) else {
                        out.push(("implements-non-interface", format!("{} implements {i}", t.name)));
                        continue;
                    };
                    if i == &t.name {
                        out.push(("implements-itself", t.name.clone()));
                    }
                    for j in &it.implements {
                        if !t.implements.contains(j) {
                            out.push(("missing-transitive-implements", format!("{} implements {i} but not {j}", t.name)));
                        }
                    }
                    for f in &it.fields {
                        let place = format!("{}.{} (of {i})", t.name, f.name);
                        let Some(mine) = t.field(&f.name) else {
                            out.push(("missing-interface-field", place));
                            continue;
                        };
                        if !is_subtype(&map, &mine.ty, &f.ty) {
                            out.push(("interface-field-type", format!("{place}: {} is not {}", mine.ty, f.ty)));
                        }
                        for a in &f.args {
                            match mine.arg(&a.name) {
                                None => out.push(("missing-interface-argument", format!("{place}({}:)", a.name))),
                                Some(m) if m.ty != a.ty => {
                                    out.push(("interface-argument-type", format!("{place}({}:)", a.name)))
                                }
                                _ => {}
                            }
                        }
                        for a in &mine.args {
                            if f.arg(&a.name).is_none() && a.ty.is_non_null() && a.default.is_none() {
                                out.push(("extra-required-argument", format!("{place}({}:)", a.name)));
                            }
                        }
                    }
                }
            }
            Kind::Union => {
                if t.members.is_empty() {
                    out.push(("empty-union", t.name.clone()));
                }
                if let Some(d) = dup(t.members.iter().collect()) {
                    out.push(("duplicate-member", format!("{} {d}", t.name)));
                }
                for m in &t.members {
                    match kind_of(m) {
                        None => out.push(("unknown-type", format!("{} = {m}", t.name))),
                        Some(Kind::Object) => {}
                        _ => out.push(("union-member-kind", format!("{} = {m}", t.name))),
                    }
                }
            }
            Kind::Enum => {
                if t.values.is_empty() {
                    out.push(("empty-enum", t.name.clone()));
                }
                if let Some(d) = dup(t.values.iter().map(|v| &v.name).collect()) {
                    out.push(("duplicate-value", format!("{}.{d}", t.name)));
                }
            }
            Kind::Input => {
                if t.inputs.is_empty() {
                    out.push(("empty-input", t.name.clone()));
                }
                if let Some(d) = dup(t.inputs.iter().map(|v| &v.name).collect()) {
                    out.push(("duplicate-input-field", format!("{}.{d}", t.name)));
                }
                for v in &t.inputs {
                    input(v, format!("{}.{}", t.name, v.name), &mut out);
                }
            }
            Kind::Scalar => {}
        }
    }
    // Input objects whose non-null fields form a cycle can never be given a value.
    for t in doc.types().filter(|t| t.kind == Kind::Input) {
        let mut seen = BTreeSet::new();
        let mut todo = vec![t.name.as_str()];
        let mut hit = false;
        while let Some(n) = todo.pop() {
            let Some(d) = map.get(n) else { continue };
            for f in &d.inputs {
                if let Ty::NonNull(inner) = &f.ty {
                    if let Ty::Named(b) = &**inner {
                        if b == &t.name {
                            hit = true;
                        }
                        if kind_of(b) == Some(Kind::Input) && seen.insert(b.as_str()) {
                            todo.push(b);
                        }
                    }
                }
            }
        }
        if hit {
            out.push(("required-input-cycle", t.name.clone()));
        }
    }
    for s in doc.defs.iter().filter_map(|d| if let Def::Schema(s) = d { Some(s) } else { None }) {
        if let Some(d) = dup(s.roots.iter().map(|r| &r.0).collect()) {
            out.push(("duplicate-root", d));
        }
        for (op, n) in &s.roots {
            if kind_of(n) != Some(Kind::Object) {
                out.push(("root-not-object", format!("{op}: {n}")));
            }
        }
    }
    out
}
