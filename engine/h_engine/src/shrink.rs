//! Makes an operation smaller as long as it still shows the same violation, for the replay file.
use crate::{
    gql::{Document, FieldSel, Sel},
    ops::Op,
    view::{self, View},
};
use vgql::Value;

/// All operations that are one step smaller.
fn smaller(op: &Op) -> Vec<Op> {
    let mut out = vec![];
    let with = |f: &mut dyn FnMut(&mut Document)| {
        let mut n = op.clone();
        f(&mut n.doc);
        n
    };
    for s in sets(&op.doc.ops[0].sels) {
        out.push(with(&mut |d| d.ops[0].sels = s.clone()));
    }
    for (i, f) in op.doc.frags.iter().enumerate() {
        for s in sets(&f.sels) {
            out.push(with(&mut |d| d.frags[i].sels = s.clone()));
        }
    }
    if op.doc.ops[0].name.is_some() {
        out.push(with(&mut |d| d.ops[0].name = None));
    }
    out
}

fn sets(sels: &[Sel]) -> Vec<Vec<Sel>> {
    let mut out = vec![];
    let put = |at: usize, new: Vec<Sel>| {
        let mut s = sels.to_vec();
        s.splice(at..=at, new);
        s
    };
    for (i, s) in sels.iter().enumerate() {
        if sels.len() > 1 {
            out.push(put(i, vec![]));
        }
        match s {
            Sel::Field(f) => {
                for below in sets(&f.sels) {
                    out.push(put(i, vec![Sel::Field(FieldSel { sels: below, ..f.clone() })]));
                }
                for a in 0..f.args.len() {
                    let mut f = f.clone();
                    f.args.remove(a);
                    out.push(put(i, vec![Sel::Field(f)]));
                }
                for d in 0..f.dirs.len() {
                    let mut f = f.clone();
                    f.dirs.remove(d);
                    out.push(put(i, vec![Sel::Field(f)]));
                }
                if f.alias.is_some() {
                    out.push(put(i, vec![Sel::Field(FieldSel { alias: None, ..f.clone() })]));
                }
            }
            Sel::Inline(on, dirs, below) => {
                out.push(put(i, below.clone()));
                if !dirs.is_empty() {
                    out.push(put(i, vec![Sel::Inline(on.clone(), vec![], below.clone())]));
                }
                for b in sets(below) {
                    out.push(put(i, vec![Sel::Inline(on.clone(), dirs.clone(), b)]));
                }
            }
            Sel::Spread(name, dirs) if !dirs.is_empty() => out.push(put(i, vec![Sel::Spread(name.clone(), vec![])])),
            Sel::Spread(..) => {}
        }
    }
    out
}

fn variables_of(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Var(n) => out.push(n.clone()),
        Value::List(l) => l.iter().for_each(|v| variables_of(v, out)),
        Value::Obj(o) => o.iter().for_each(|(_, v)| variables_of(v, out)),
        _ => {}
    }
}

fn uses(sels: &[Sel], vars: &mut Vec<String>, frags: &mut Vec<String>) {
    let dirs = |dirs: &[vgql::Dir], vars: &mut Vec<String>| {
        dirs.iter().flat_map(|d| &d.args).for_each(|(_, v)| variables_of(v, vars));
    };
    for s in sels {
        match s {
            Sel::Field(f) => {
                f.args.iter().for_each(|(_, v)| variables_of(v, vars));
                dirs(&f.dirs, vars);
                uses(&f.sels, vars, frags);
            }
            Sel::Inline(_, d, below) => {
                dirs(d, vars);
                uses(below, vars, frags);
            }
            Sel::Spread(n, d) => {
                dirs(d, vars);
                frags.push(n.clone());
            }
        }
    }
}

/// Leaves out what is no longer used.
fn tidy(op: &mut Op) {
    let mut vars = vec![];
    let mut frags = vec![];
    uses(&op.doc.ops[0].sels, &mut vars, &mut frags);
    let mut i = 0;
    while i < frags.len() {
        if !frags[..i].contains(&frags[i]) {
            let name = frags[i].clone();
            if let Some(f) = op.doc.frags.iter().find(|f| f.name == name) {
                uses(&f.sels.clone(), &mut vars, &mut frags);
            }
        }
        i += 1;
    }
    op.doc.frags.retain(|f| frags.contains(&f.name));
    op.doc.ops[0].vars.retain(|v| vars.contains(&v.name));
    let kept: Vec<String> = op.doc.ops[0].vars.iter().map(|v| v.name.clone()).collect();
    op.vars.retain(|k, _| kept.contains(k));
}

/// `fails` tells whether the operation still shows the violation.
pub async fn shrink(view: &View, op: &Op, mut fails: impl AsyncFnMut(&Op) -> bool) -> Op {
    let mut best = op.clone();
    let mut tries = 0;
    'again: loop {
        for mut n in smaller(&best) {
            tidy(&mut n);
            if n.doc == best.doc || crate::ops::mixed_conditions(&n.doc) || !view::validate(view, &n.doc).is_empty() || view::coerce_vars(view, &n.doc.ops[0], &n.vars).is_err() {
                continue;
            }
            tries += 1;
            if tries > 400 {
                return best;
            }
            if fails(&n).await {
                best = n;
                continue 'again;
            }
        }
        return best;
    }
}
