//! Compares an answer that may be incomplete with the complete one.
use crate::{view::View, world::NOTE};
use serde_json::{Map, Value as J};
use std::collections::BTreeSet;
use vcommon::{Viol, ensure, viol};
use vgql::Ty;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Key(String),
    Index(usize),
}

pub type Path = Vec<Step>;

/// What must be null that is not, or the other way around.
#[derive(Debug)]
pub struct Lost {
    pub path: Path,
    /// The types of the objects around the null field and of all objects which are lost with it.
    pub types: BTreeSet<String>,
}

pub struct Judge<'a> {
    pub view: &'a View,
    /// What a subgraph's answer was corrupted with: a custom scalar may be that.
    pub marker: Option<J>,
    /// The order of fields does not matter.
    pub any_order: bool,
    pub lost: Vec<Lost>,
    /// The types of the objects on the way.
    pub within: Vec<String>,
}

fn types_in(j: &J, out: &mut BTreeSet<String>) {
    match j {
        J::Object(o) => {
            if let Some(n) = o.get(NOTE) {
                out.insert(n["type"].as_str().unwrap().to_owned());
            }
            for (k, v) in o {
                if k != NOTE {
                    types_in(v, out);
                }
            }
        }
        J::Array(a) => a.iter().for_each(|v| types_in(v, out)),
        _ => (),
    }
}

impl Judge<'_> {
    /// `want` has notes.
    pub fn data(&mut self, want: &J, got: &J) -> Result<(), Viol> {
        let mut path = vec![];
        if got.is_null() {
            // Only a root field that must not be null takes everything with it.
            let note = &want[NOTE];
            let root = self.view.get(note["type"].as_str().unwrap()).unwrap();
            let fields = note["fields"].as_object().unwrap();
            ensure!(
                fields.values().any(|f| root
                    .field(f.as_str().unwrap())
                    .is_some_and(|f| f.ty.is_non_null())),
                "null-data",
                "data is null, but every root field may be null"
            );
            let mut types = BTreeSet::new();
            types_in(want, &mut types);
            self.lost.push(Lost { path, types });
            return Ok(());
        }
        self.object(want, got, &mut path)
    }

    fn object(&mut self, want: &J, got: &J, path: &mut Path) -> Result<(), Viol> {
        let (Some(w), Some(g)) = (want.as_object(), got.as_object()) else {
            return viol("wrong-value", format!("{path:?}: {got} instead of {want}"));
        };
        let note = &w[NOTE];
        let ty = note["type"].as_str().unwrap();
        let keys =
            |m: &Map<String, J>| m.keys().filter(|k| *k != NOTE).cloned().collect::<Vec<_>>();
        let keys = |m: &Map<String, J>| {
            let mut keys = keys(m);
            if self.any_order {
                keys.sort();
            }
            keys
        };
        ensure!(
            keys(w) == keys(g),
            "wrong-keys",
            "{path:?}: {:?} instead of {:?}",
            keys(g),
            keys(w)
        );
        self.within.push(ty.to_owned());
        for (k, g) in g {
            let name = note["fields"][k].as_str().unwrap();
            path.push(Step::Key(k.clone()));
            if name == "__typename" {
                ensure!(
                    *g == w[k],
                    "wrong-value",
                    "{path:?}: {g} instead of {}",
                    w[k]
                );
            } else {
                let ty_of = self.loosest(ty, name);
                self.value(&w[k], g, &ty_of, ty, path)?;
            }
            path.pop();
        }
        self.within.pop();
        Ok(())
    }

    /// The type of a field as any of the interfaces of the object has it: whoever asked for an
    /// interface's field counts on its type only.
    fn loosest(&self, owner: &str, name: &str) -> Ty {
        fn meet(a: &Ty, b: &Ty) -> Ty {
            match (a, b) {
                (Ty::NonNull(a), Ty::NonNull(b)) => Ty::NonNull(Box::new(meet(a, b))),
                (Ty::NonNull(a), b) => meet(a, b),
                (a, Ty::NonNull(b)) => meet(a, b),
                (Ty::List(a), Ty::List(b)) => Ty::List(Box::new(meet(a, b))),
                (a, _) => a.clone(),
            }
        }
        let t = self.view.get(owner).unwrap();
        let of_interfaces = t
            .implements
            .iter()
            .filter_map(|i| self.view.get(i)?.field(name));
        of_interfaces.fold(t.field(name).unwrap().ty.clone(), |ty, f| meet(&ty, &f.ty))
    }

    fn value(
        &mut self,
        want: &J,
        got: &J,
        ty: &Ty,
        owner: &str,
        path: &mut Path,
    ) -> Result<(), Viol> {
        if got.is_null() {
            ensure!(
                !ty.is_non_null(),
                "null-in-non-null",
                "{path:?} is null, but {}",
                crate::gql::ty(ty)
            );
            if !want.is_null() {
                let mut types: BTreeSet<String> = self.within.iter().cloned().collect();
                types.insert(owner.to_owned());
                types_in(want, &mut types);
                self.lost.push(Lost {
                    path: path.clone(),
                    types,
                });
            }
            return Ok(());
        }
        match ty {
            Ty::NonNull(t) => self.value(want, got, t, owner, path),
            Ty::List(t) => {
                let (Some(w), Some(g)) = (want.as_array(), got.as_array()) else {
                    return viol("wrong-value", format!("{path:?}: {got} instead of {want}"));
                };
                ensure!(
                    w.len() == g.len(),
                    "wrong-length",
                    "{path:?}: {} elements instead of {}",
                    g.len(),
                    w.len()
                );
                for (i, (w, g)) in w.iter().zip(g).enumerate() {
                    path.push(Step::Index(i));
                    self.value(w, g, t, owner, path)?;
                    path.pop();
                }
                Ok(())
            }
            Ty::Named(n) if self.view.composite(n) => self.object(want, got, path),
            Ty::Named(_) => {
                ensure!(
                    want == got || self.marker.as_ref() == Some(got),
                    "wrong-value",
                    "{path:?}: {got} instead of {want}"
                );
                Ok(())
            }
        }
    }
}

/// The paths of errors, where they have one.
pub fn error_paths(got: &J) -> Result<Vec<Option<Path>>, Viol> {
    let mut out = vec![];
    let Some(errors) = got.get("errors") else {
        return Ok(out);
    };
    let Some(list) = errors.as_array() else {
        return viol("errors-form", format!("errors: {errors}"));
    };
    ensure!(!list.is_empty(), "errors-form", "errors is empty");
    for e in list {
        ensure!(
            e["message"].is_string(),
            "errors-form",
            "an error without message: {e}"
        );
        let path = match e.get("path") {
            None => None,
            Some(J::Array(a)) => {
                let mut p = vec![];
                for s in a {
                    match (s.as_str(), s.as_u64()) {
                        (Some(k), _) => p.push(Step::Key(k.to_owned())),
                        (_, Some(i)) => p.push(Step::Index(i as usize)),
                        _ => return viol("errors-form", format!("a path with {s}: {e}")),
                    }
                }
                Some(p)
            }
            Some(p) => return viol("errors-form", format!("a path that is no list: {p}")),
        };
        out.push(path);
    }
    Ok(out)
}

/// Whether something on the path, or its end, is null.
pub fn leads_to_null(data: &J, path: &[Step]) -> bool {
    let mut at = data;
    for s in path {
        if at.is_null() {
            return true;
        }
        let next = match s {
            Step::Key(k) => at.get(k),
            Step::Index(i) => at.get(i),
        };
        match next {
            Some(n) => at = n,
            None => return false,
        }
    }
    at.is_null()
}

fn at<'a>(data: &'a J, path: &[Step]) -> Option<&'a J> {
    path.iter().try_fold(data, |at, s| match s {
        Step::Key(k) => at.get(k),
        Step::Index(i) => at.get(i),
    })
}

fn has_null(j: &J) -> bool {
    match j {
        J::Null => true,
        J::Object(o) => o.values().any(has_null),
        J::Array(a) => a.iter().any(has_null),
        _ => false,
    }
}

/// Whether something is null in what the path leads to, or next to it: the first of the fields that
/// were asked for may have been received from another subgraph as well, and an object whose
/// requirements are missing is told as a whole, even if the fields that need them are left out.
pub fn near_null(data: &J, path: &[Step]) -> bool {
    let beside = path.len() > 1
        && at(data, &path[..path.len() - 1])
            .and_then(|j| j.as_object())
            .is_some_and(|o| o.values().any(J::is_null));
    beside
        || at(data, path)
            .is_some_and(|j| has_null(j) || j.as_object().is_some_and(|o| o.is_empty()))
}

pub fn leads_somewhere(data: &J, path: &[Step]) -> bool {
    at(data, path).is_some()
}
