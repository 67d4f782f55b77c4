//! What operation checks must say about each change of a schema, and the workload of their monitors.
use crate::model::{self, Schema};
use crate::ops::{self, Op, Usage, compare};
use crate::schemas;
use graphql_schema_diff::{Change, ChangeKind};
use operation_checks::{CheckDiagnostic, FieldUsage, Operation, Severity};
use std::collections::BTreeSet;
use vcommon::*;
use vgql::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Expect {
    Error,
    Warning,
    Never,
    /// Reported or not (with severity error): the rule is approximate by design.
    Either,
}
use Expect::*;

fn iff(b: bool) -> Expect {
    if b { Error } else { Never }
}

/// Whether (and how) a change must be reported, given what is in use.
pub fn expect(path: &str, kind: ChangeKind, s: &Schema, t: &Schema, u: &Usage, inputs: &BTreeSet<String>) -> Expect {
    let parts: Vec<&str> = path.split('.').collect();
    let own = |x: &str| x.to_owned();
    let field = || (own(parts[0]), own(parts[1]));
    let arg = || (own(parts[0]), own(parts[1]), own(parts[2]));
    let condition = |a: &str, b: &str| u.conditions.contains_key(&(own(a), own(b)));
    if kind.as_str().starts_with("Remove") && kind != ChangeKind::RemoveDirectiveDefinition && s.types.contains_key(path) && t.types.contains_key(path) {
        // Another kind of type.
        let by_input = |i: &String| s.types[i].inputs.values().any(|f| f.ty.base() == path);
        return iff(
            u.fields.keys().any(|(p, f)| p == path || s.types[p].fields[f].ty.base() == path)
                || u.provided.keys().any(|(p, f, a)| s.types[p].fields[f].arg(a).unwrap().ty.base() == path)
                || u.conditions.keys().any(|c| c.1 == path)
                || inputs.contains(path)
                || inputs.iter().any(by_input),
        );
    }
    let is_input = || s.types[parts[0]].kind == Kind::Input;
    match kind {
        ChangeKind::RemoveField if is_input() => match inputs.contains(parts[0]) {
            false => Never,
            true if s.types[parts[0]].inputs[parts[1]].ty.is_non_null() => Error,
            true => Warning,
        },
        ChangeKind::RemoveField => iff(u.fields.contains_key(&field())),
        ChangeKind::AddField if is_input() => {
            let f = &t.types[parts[0]].inputs[parts[1]];
            iff(inputs.contains(parts[0]) && f.ty.is_non_null() && f.default.is_none())
        }
        ChangeKind::AddFieldArgument => {
            let a = t.types[parts[0]].fields[parts[1]].arg(parts[2]).unwrap();
            iff(u.fields.contains_key(&field()) && a.ty.is_non_null() && a.default.is_none())
        }
        ChangeKind::RemoveFieldArgument => iff(u.provided.contains_key(&arg())),
        ChangeKind::ChangeFieldArgumentType => {
            let a = s.types[parts[0]].fields[parts[1]].arg(parts[2]).unwrap();
            let b = t.types[parts[0]].fields[parts[1]].arg(parts[2]).unwrap();
            let (used, provided, left_out) =
                (u.fields.contains_key(&field()), u.provided.contains_key(&arg()), u.left_out.contains_key(&arg()));
            let w = compare(&a.ty, &b.ty);
            let became_required = !a.ty.is_non_null() && b.ty.is_non_null() && b.default.is_none();
            let same = !w.other;
            if same && w.removed && !w.added {
                Never
            } else if left_out && became_required {
                Error
            } else if provided {
                // A null may be passed for what has a default now: approximate.
                if same && !w.removed && w.outer_added && b.default.is_some() { Either } else { Error }
            } else if became_required && used {
                Either
            } else {
                Never
            }
        }
        ChangeKind::RemoveFieldArgumentDefault => {
            let a = s.types[parts[0]].fields[parts[1]].arg(parts[2]).unwrap();
            let b = t.types[parts[0]].fields[parts[1]].arg(parts[2]).unwrap();
            match (a.ty.is_non_null(), b.ty.is_non_null()) {
                (_, false) => Never,
                (true, true) => iff(u.left_out.contains_key(&arg())),
                // Reported as a change of its type.
                (false, true) => if u.left_out.contains_key(&arg()) { Either } else { Never },
            }
        }
        ChangeKind::ChangeFieldType => {
            if is_input() {
                let w = compare(&s.types[parts[0]].inputs[parts[1]].ty, &t.types[parts[0]].inputs[parts[1]].ty);
                match inputs.contains(parts[0]) {
                    false => Never,
                    true if w.other || (w.added && w.removed) => Error,
                    true if w.added => Warning,
                    true => Never,
                }
            } else {
                let w = compare(&s.types[parts[0]].fields[parts[1]].ty, &t.types[parts[0]].fields[parts[1]].ty);
                iff(u.fields.contains_key(&field()) && (w.other || w.removed))
            }
        }
        ChangeKind::RemoveInterfaceImplementation => {
            let i = parts[1].trim_start_matches('&');
            iff(condition(i, parts[0]) || condition(parts[0], i))
        }
        ChangeKind::RemoveUnionMember => iff(condition(parts[0], parts[1]) || condition(parts[1], parts[0])),
        ChangeKind::RemoveEnumValue => iff(u.values.contains_key(&field())),
        ChangeKind::RemoveInterface | ChangeKind::RemoveUnion => iff(u.conditions.keys().any(|c| c.1 == path)),
        ChangeKind::RemoveObjectType => {
            let x = &s.types[path];
            let root = ["query", "mutation", "subscription"].iter().any(|k| ops::root(s, k) == path);
            iff(
                x.implements.iter().any(|i| condition(i, path) || condition(path, i))
                    || (root && x.fields.keys().any(|f| u.fields.contains_key(&(own(path), f.clone())))),
            )
        }
        _ => Never,
    }
}

pub struct Input {
    pub source: String,
    pub target: String,
    pub s: Schema,
    pub t: Schema,
    pub t_doc: Doc,
    pub ops: Vec<(Op, String, u64)>,
    pub threshold: u64,
}

/// Plain layout: the parser of the checks does not take all of GraphQL's white space.
fn text(doc: &Doc) -> String {
    let show = |d: &Def| match d {
        // It does not take descriptions of schema definitions either.
        Def::Schema(s) => Def::Schema(SchemaDef { desc: None, ..s.clone() }).to_string(),
        d => d.to_string(),
    };
    doc.defs.iter().map(show).collect::<Vec<_>>().join("\n\n")
}

/// A schema, operations, and an edited schema.
pub fn input(rng: &mut Rng) -> Option<Input> {
    let a = schemas::generate(rng);
    let s = model::schema(&a);
    let mut b = a.clone();
    let kinds_change = rng.pct(10);
    for _ in 0..[1, 1, 2, 3, 6, 12][rng.below(6)] {
        for _ in 0..4 {
            let mut c = b.clone();
            schemas::edit(rng, &mut c);
            let t = model::schema(&c);
            let same_kinds = || s.types.iter().all(|(n, x)| t.types.get(n).is_none_or(|y| x.kind == y.kind));
            if (kinds_change || same_kinds()) && s.roots == t.roots {
                b = c;
                break;
            }
        }
    }
    let t = model::schema(&b);
    let ops: Vec<(Op, String, u64)> = (0..rng.range(1, 5))
        .filter_map(|_| {
            let op = ops::generate(rng, &s, &a)?;
            let text = ops::show(rng, &op);
            Some((op, text, *rng.pick(&[1, 1, 2, 10, 1000])))
        })
        .collect();
    let threshold = *rng.pick(&[0, 0, 0, 1, 2, 3, 20, 1000]);
    let t_doc = b.clone();
    // The parser of the checks wants contents or directives in definitions whose contents are in extensions.
    let mut parsable = |d: &Doc| {
        let split = text(&schemas::split(rng, d));
        if rng.pct(25) && async_graphql_parser::parse_schema(&split).is_ok() { split } else { text(d) }
    };
    let (source, target) = (parsable(&a), parsable(&b));
    (!ops.is_empty() && !target.is_empty()).then_some(Input { source, target, s, t, t_doc, ops, threshold })
}

impl Input {
    pub fn text(&self) -> String {
        let mut out = format!("{}\n### target\n{}\n### threshold {}\n", self.source, self.target, self.threshold);
        for (_, text, weight) in &self.ops {
            out += &format!("### operation used {weight} times\n{text}\n");
        }
        out
    }

    pub fn usage(&self) -> Usage {
        let mut u = Usage::default();
        for (op, _, weight) in &self.ops {
            u.operation(&self.s, op, *weight);
        }
        u.threshold(self.threshold);
        u
    }

    /// Runs the checks. None for the operations: everything is assumed to be in use.
    pub fn check(&self, assume_all: bool) -> Result<(Vec<Change>, Vec<CheckDiagnostic>), Viol> {
        let schema = |s: &str| -> operation_checks::Schema {
            async_graphql_parser::parse_schema(s).unwrap_or_else(|e| harness_bug!("{e}: {s}")).into()
        };
        let diff = guard("diff", || graphql_schema_diff::diff(&self.source, &self.target))?;
        let diff = diff.unwrap_or_else(|e| harness_bug!("diff: {e}"));
        let (s, t) = guard("schema", || (schema(&self.source), schema(&self.target)))?;
        if assume_all {
            let d = guard("check", || operation_checks::check_assuming_all_used(&s, &t, &diff))?;
            return Ok((diff, d));
        }
        let mut usage = FieldUsage::default();
        for (_, text, weight) in &self.ops {
            let doc = async_graphql_parser::parse_query(text).unwrap_or_else(|e| harness_bug!("{e}: {text}"));
            guard("aggregate", || {
                usage.set_increment(*weight);
                operation_checks::aggregate_field_usage(&Operation::from(doc), &s, &mut usage);
            })?;
        }
        guard("threshold", || usage.apply_request_count_threshold(self.threshold))?;
        let params = operation_checks::CheckParams { source: &s, target: &t, diff: &diff, field_usage: &usage };
        let d = guard("check", || operation_checks::check(&params))?;
        Ok((diff, d))
    }
}

/// The diagnostic for a change.
pub fn said<'a>(d: &'a [CheckDiagnostic], c: &Change) -> Vec<&'a CheckDiagnostic> {
    d.iter().filter(|d| d.path == c.path && d.change_kind == c.kind).collect()
}

pub fn is_error(d: &CheckDiagnostic) -> bool {
    matches!(d.severity, Severity::Error)
}
