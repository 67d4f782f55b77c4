use graphql_schema_diff::{Change, ChangeKind, Span, path::*};
use vcommon::*;

#[derive(Debug, PartialEq, Clone)]
enum P {
    Schema(Option<usize>),
    Directive(String),
    Type(String, Option<usize>, Option<T>),
}
#[derive(Debug, PartialEq, Clone)]
enum T {
    Field(String, Option<F>),
    Directive(String, usize),
    Implements(String),
}
#[derive(Debug, PartialEq, Clone)]
enum F {
    Arg(String),
    Directive(String, usize),
}

fn same(p: &P, q: &Path<'_>) -> bool {
    let in_field = |a: &Option<F>, b: &Option<PathInField<'_>>| match (a, b) {
        (None, None) => true,
        (Some(F::Arg(a)), Some(PathInField::InArgument(b))) => a == b,
        (Some(F::Directive(a, i)), Some(PathInField::InDirective(b, j))) => a == b && i == j,
        _ => false,
    };
    let in_type = |a: &Option<T>, b: &Option<PathInType<'_>>| match (a, b) {
        (None, None) => true,
        (Some(T::Field(a, f)), Some(PathInType::InField(b, g))) => a == b && in_field(f, g),
        (Some(T::Directive(a, i)), Some(PathInType::InDirective(b, j))) => a == b && i == j,
        (Some(T::Implements(a)), Some(PathInType::InterfaceImplementation(b))) => a == b,
        _ => false,
    };
    match (p, q) {
        (P::Schema(None), Path::SchemaDefinition) => true,
        (P::Schema(Some(i)), Path::SchemaExtension(j)) => i == j,
        (P::Directive(a), Path::DirectiveDefinition(b)) => a == b,
        (P::Type(a, None, t), Path::TypeDefinition(b, u)) => a == b && in_type(t, u),
        (P::Type(a, Some(i), t), Path::TypeExtension(b, j, u)) => a == b && i == j && in_type(t, u),
        _ => false,
    }
}

fn show(p: &P) -> String {
    match p {
        P::Schema(None) => ":schema".into(),
        P::Schema(Some(i)) => format!(":schema[{i}]"),
        P::Directive(d) => format!("@{d}"),
        P::Type(t, i, inner) => {
            let mut s = t.clone();
            if let Some(i) = i {
                s += &format!("[{i}]");
            }
            match inner {
                None => {}
                Some(T::Directive(d, i)) => s += &format!(".@{d}[{i}]"),
                Some(T::Implements(d)) => s += &format!(".&{d}"),
                Some(T::Field(f, inner)) => {
                    s += &format!(".{f}");
                    match inner {
                        None => {}
                        Some(F::Arg(a)) => s += &format!(".{a}"),
                        Some(F::Directive(d, i)) => s += &format!(".@{d}[{i}]"),
                    }
                }
            }
            s
        }
    }
}

fn name(s: &str) -> bool {
    let mut b = s.bytes();
    b.next().is_some_and(|c| c.is_ascii_alphabetic() || c == b'_') && b.all(|c| c.is_ascii_alphanumeric() || c == b'_')
}

/// `[digits]`
fn index(s: &str) -> Option<usize> {
    let d = s.strip_prefix('[')?.strip_suffix(']')?;
    (!d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())).then(|| d.parse().ok()).flatten()
}

fn name_index(s: &str) -> Option<(String, usize)> {
    let at = s.find('[')?;
    name(&s[..at]).then_some(())?;
    Some((s[..at].into(), index(&s[at..])?))
}

/// The documented grammar.
fn read(s: &str) -> Option<P> {
    if let Some(rest) = s.strip_prefix(":schema") {
        return if rest.is_empty() { Some(P::Schema(None)) } else { Some(P::Schema(Some(index(rest)?))) };
    }
    if let Some(d) = s.strip_prefix('@') {
        return name(d).then(|| P::Directive(d.into()));
    }
    let parts: Vec<&str> = s.split('.').collect();
    let (t, i) = if name(parts[0]) { (parts[0].to_owned(), None) } else { name_index(parts[0]).map(|(n, i)| (n, Some(i)))? };
    let inner = match &parts[1..] {
        [] => None,
        [x, rest @ ..] => Some(match x.chars().next()? {
            '@' if rest.is_empty() => name_index(&x[1..]).map(|(n, i)| T::Directive(n, i))?,
            '&' if rest.is_empty() => name(&x[1..]).then(|| T::Implements(x[1..].into()))?,
            _ if name(x) => T::Field(
                x.to_string(),
                match rest {
                    [] => None,
                    [y] => Some(match y.strip_prefix('@') {
                        Some(d) => name_index(d).map(|(n, i)| F::Directive(n, i))?,
                        None => name(y).then(|| F::Arg(y.to_string()))?,
                    }),
                    _ => return None,
                },
            ),
            _ => return None,
        }),
    };
    Some(P::Type(t, i, inner))
}

fn some_name(rng: &mut Rng) -> String {
    rng.str(&["a", "A", "_", "__x", "Query", "join__type", "schema", "x1", "Z9_", "type"]).into()
}

fn some_index(rng: &mut Rng) -> usize {
    *rng.pick(&[0, 1, 2, 10, 4096, usize::MAX])
}

fn some_path(rng: &mut Rng) -> P {
    match rng.below(8) {
        0 => P::Schema(if rng.bool() { Some(some_index(rng)) } else { None }),
        1 => P::Directive(some_name(rng)),
        _ => P::Type(
            some_name(rng),
            rng.pct(25).then(|| some_index(rng)),
            match rng.below(5) {
                0 => None,
                1 => Some(T::Directive(some_name(rng), some_index(rng))),
                2 => Some(T::Implements(some_name(rng))),
                _ => Some(T::Field(
                    some_name(rng),
                    match rng.below(3) {
                        0 => None,
                        1 => Some(F::Arg(some_name(rng))),
                        _ => Some(F::Directive(some_name(rng), some_index(rng))),
                    },
                )),
            },
        ),
    }
}

const KINDS: [&str; 36] = [
    "ChangeQueryType", "ChangeMutationType", "ChangeSubscriptionType", "RemoveObjectType", "AddObjectType",
    "AddInterfaceImplementation", "RemoveInterfaceImplementation", "ChangeFieldType", "RemoveField", "AddField", "AddUnion",
    "RemoveUnion", "AddUnionMember", "RemoveUnionMember", "AddEnum", "RemoveEnum", "AddEnumValue", "RemoveEnumValue", "AddScalar",
    "RemoveScalar", "AddInterface", "RemoveInterface", "AddDirectiveDefinition", "RemoveDirectiveDefinition",
    "AddSchemaDefinition", "RemoveSchemaDefinition", "AddSchemaExtension", "RemoveSchemaExtension", "AddInputObject",
    "RemoveInputObject", "AddFieldArgument", "RemoveFieldArgument", "AddFieldArgumentDefault", "RemoveFieldArgumentDefault",
    "ChangeFieldArgumentDefault", "ChangeFieldArgumentType",
];

fn main() {
    let mut c = Check::new(
        "D03",
        "Random schema paths, and texts near them, are parsed: exactly the texts of the documented grammar are accepted, as the place \
         they name, and print back unchanged; kinds of change and changes survive their textual and JSON forms. \
         Distinct: the accepted text.",
    );
    c.require("accepted", 10_000);
    c.require("refused", 10_000);
    c.one("kinds", |case| {
        for k in KINDS {
            let kind: ChangeKind = match k.parse() {
                Ok(k) => k,
                Err(()) => return viol("kind-unknown", format!("{k} is not parsed")),
            };
            ensure!(kind.as_str() == k && format!("{kind:?}") == k, "kind-text", "{k} is parsed as {kind:?}, printed as {}", kind.as_str());
            let change = Change { path: "A.b".into(), kind, span: Span::new(3, 9) };
            let json = serde_json::to_string(&change).unwrap_or_else(|e| harness_bug!("{e}"));
            let back: Result<Change, _> = serde_json::from_str(&json);
            ensure!(back.as_ref().ok() == Some(&change), "change-json", "{change:?} is written {json} and read {back:?}");
            case.count("kinds", 1);
        }
        Ok(())
    });
    c.cases("well-formed", 100_000, 2_000_000, |case| {
        let p = some_path(&mut case.rng);
        let text = show(&p);
        case.input(text.as_str());
        let got = guard("parse", || Path::parse(&text))?;
        let Ok(got) = got else { return viol("refused", format!("{text} is refused")) };
        ensure!(same(&p, &got), "misread", "{text} is read as {got:?}");
        ensure!(got.to_string() == text, "print", "{text} prints as {got}");
        case.count("accepted", 1);
        case.nontrivial(&text);
        case.sample(text);
        Ok(())
    });
    c.cases("mutated", 200_000, 4_000_000, |case| {
        let rng = &mut case.rng;
        let mut s: Vec<char> = show(&some_path(rng)).chars().collect();
        for _ in 0..rng.range(1, 3) {
            let i = rng.below(s.len() + 1);
            match rng.below(3) {
                0 if i < s.len() => {
                    s.remove(i);
                }
                1 if i < s.len() => s[i] = *rng.pick(&['.', '@', '&', '[', ']', '+', '-', '0', '7', 'a', 'é', ':', ' ', '日']),
                _ => s.insert(i, *rng.pick(&['.', '@', '&', '[', ']', '+', '-', '0', '7', 'a', 'é', ':', ' ', '日'])),
            }
        }
        let text: String = s.into_iter().collect();
        case.input(text.as_str());
        let got = guard("parse", || Path::parse(&text))?;
        match (read(&text), got) {
            (Some(p), Ok(got)) => {
                ensure!(same(&p, &got), "misread", "{text} is read as {got:?}");
                let again = got.to_string();
                let canonical = read(&again);
                ensure!(canonical == Some(p), "print", "{text} prints as {again}");
                case.count("mutants accepted", 1);
                case.nontrivial(&text);
            }
            (None, Err(_)) => case.count("refused", 1),
            (Some(p), Err(_)) => return viol("refused", format!("{text:?} is refused, it is {p:?}")),
            (None, Ok(got)) => return viol("accepted", format!("{text:?} is accepted as {got:?}")),
        }
        Ok(())
    });
    c.finish();
}
