//! Documents in a normal form: equal texts mean the same composed schema.
use crate::model::canon;
use vgql::*;

fn norm_dir(d: &mut Dir, loose: bool) {
    match d.name.as_str() {
        // When subgraphs disagree, the first one ingested wins.
        "deprecated" | "cost" if loose => d.args.clear(),
        "requiresScopes" | "policy" => {
            for (_, v) in &mut d.args {
                if let Value::List(l) = v {
                    for inner in l.iter_mut() {
                        if let Value::List(x) = inner {
                            x.sort();
                        }
                    }
                    l.sort();
                }
            }
        }
        "join__type" | "join__field" => {
            for (n, v) in &mut d.args {
                if ["key", "requires", "provides"].contains(&n.as_str()) {
                    if let Value::Str(s) = v {
                        if let Ok(c) = parse::canonical_field_set(s) {
                            *s = format!("{c:?}");
                        }
                    }
                }
            }
        }
        _ => {}
    }
    d.args.sort();
}

fn norm_dirs(dirs: &mut Vec<Dir>, loose: bool) {
    dirs.iter_mut().for_each(|d| norm_dir(d, loose));
    dirs.sort_by_key(|d| d.to_string());
}

fn norm_desc(d: &mut Option<String>, loose: bool) {
    if loose {
        *d = d.as_ref().map(|_| "some".to_string());
    }
}

fn norm_input(v: &mut InputVal, loose: bool) {
    norm_desc(&mut v.desc, loose);
    norm_dirs(&mut v.dirs, loose);
    v.default = v.default.as_ref().map(canon);
}

pub fn normal(doc: &Doc, loose: bool) -> String {
    let mut doc = doc.clone();
    for d in &mut doc.defs {
        match d {
            Def::Type(t) => {
                norm_desc(&mut t.desc, loose);
                norm_dirs(&mut t.dirs, loose);
                t.implements.sort();
                t.members.sort();
                for f in &mut t.fields {
                    norm_desc(&mut f.desc, loose);
                    norm_dirs(&mut f.dirs, loose);
                    f.args.iter_mut().for_each(|a| norm_input(a, loose));
                    f.args.sort_by(|a, b| a.name.cmp(&b.name));
                }
                t.fields.sort_by(|a, b| a.name.cmp(&b.name));
                t.inputs.iter_mut().for_each(|a| norm_input(a, loose));
                t.inputs.sort_by(|a, b| a.name.cmp(&b.name));
                for v in &mut t.values {
                    norm_desc(&mut v.desc, loose);
                    norm_dirs(&mut v.dirs, loose);
                }
                t.values.sort_by(|a, b| a.name.cmp(&b.name));
            }
            Def::Schema(s) => {
                norm_dirs(&mut s.dirs, loose);
                s.roots.sort();
            }
            Def::Directive(d) => {
                d.args.iter_mut().for_each(|a| norm_input(a, loose));
                d.args.sort_by(|a, b| a.name.cmp(&b.name));
                d.locations.sort();
            }
        }
    }
    let mut parts: Vec<String> =
        doc.defs.iter().map(|d| Doc { defs: vec![d.clone()] }.to_string().trim().to_string()).collect();
    parts.sort();
    parts.join("\n")
}

/// The first lines that differ.
pub fn first_difference(a: &str, b: &str) -> String {
    let (la, lb): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let only_a: Vec<&&str> = la.iter().filter(|l| !lb.contains(l)).take(3).collect();
    let only_b: Vec<&&str> = lb.iter().filter(|l| !la.contains(l)).take(3).collect();
    format!("only in the first: {only_a:?}; only in the second: {only_b:?}")
}
