//! `{{ env.X }}` substitution against an independent scanner.
use ascii::AsciiString;
use serde_dynamic_string::DynamicString;
use std::collections::BTreeMap;
use std::str::FromStr;
use vcommon::{Case, Check, Rng, Viol, ensure, guard};

/// What the placeholder language says `s` denotes: the expanded text, or the keys/variables that cannot be resolved.
fn expand(s: &str, env: &BTreeMap<String, String>) -> (String, Vec<String>, usize) {
    let b: Vec<char> = s.chars().collect();
    let (mut i, mut out, mut bad, mut subst) = (0, String::new(), vec![], 0);
    while i < b.len() {
        if let Some((key, end)) = placeholder(&b, i) {
            let parts: Vec<&str> = key.split('.').collect();
            match parts.as_slice() {
                ["env", var] => match env.get(*var) {
                    Some(v) => {
                        out.push_str(v);
                        subst += 1;
                    }
                    None => bad.push(var.to_string()),
                },
                _ => bad.push(key.clone()),
            }
            i = end;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (out, bad, subst)
}

fn placeholder(b: &[char], mut i: usize) -> Option<(String, usize)> {
    if b.get(i) != Some(&'{') || b.get(i + 1) != Some(&'{') {
        return None;
    }
    i += 2;
    while b.get(i).is_some_and(|c| c.is_whitespace()) {
        i += 1;
    }
    let start = i;
    while b.get(i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '.') {
        i += 1;
    }
    if i == start {
        return None;
    }
    let key: String = b[start..i].iter().collect();
    while b.get(i).is_some_and(|c| c.is_whitespace()) {
        i += 1;
    }
    (b.get(i) == Some(&'}') && b.get(i + 1) == Some(&'}')).then_some((key, i + 2))
}

fn generate(rng: &mut Rng, vars: &[&str], ascii: bool) -> String {
    let mut s = String::new();
    let lit = ["", "a", "https://", " ", "{", "}", "{{", "}}", "{{}}", "{ {", "env.", "\n", "\"", "$1", "\\", "{{ env", "}} }", "#", "."];
    let uni = ["é", "日本", "\u{2003}", "ß{", "🙂"];
    for _ in 0..rng.range(0, 8) {
        match rng.below(10) {
            0..=4 => {
                let ws = [" ", "", "  ", "\t", "\n "];
                let key = match rng.below(12) {
                    0 => "env.VERIF_UNSET".to_string(),
                    1 => "foo.BAR".into(),
                    2 => "env.A.B".into(),
                    3 => "env".into(),
                    4 => "env.".into(),
                    5 => ["ENV.V_ONE", "env..V_ONE", ".env.V_ONE", "env.V_ONE.", "env V_ONE", "env.V-ONE"][rng.below(6)].into(),
                    _ => format!("env.{}", rng.str(vars)),
                };
                s.push_str("{{");
                s.push_str(rng.str(&ws));
                s.push_str(&key);
                s.push_str(rng.str(&ws));
                s.push_str(if rng.pct(93) { "}}" } else { "}" });
            }
            5 if !ascii => s.push_str(rng.str(&uni)),
            _ => s.push_str(rng.str(&lit)),
        }
    }
    s
}

fn check(case: &mut Case, s: &str, env: &BTreeMap<String, String>) -> Result<(), Viol> {
    case.input(format!("{s:?}"));
    let (want, bad, subst) = expand(s, env);
    case.count("substitutions", subst as u64);
    case.count("unresolvable placeholders", bad.len() as u64);
    let got = guard("from_str", || DynamicString::<String>::from_str(s))?;
    let json = serde_json::to_string(s).unwrap();
    let serde = guard("deserialize", || serde_json::from_str::<DynamicString<String>>(&json))?;
    match (&got, &serde) {
        (Ok(v), Ok(w)) => {
            ensure!(bad.is_empty(), "accepted", "{s:?} has unresolvable {bad:?} but gives {:?}", v.as_ref());
            ensure!(v.as_ref() == want, "text", "{s:?} gives {:?}, expected {want:?}", v.as_ref());
            ensure!(w.as_ref() == want, "text", "{s:?} deserializes to {:?}, expected {want:?}", w.as_ref());
            ensure!(v.to_string() == want && **v == want, "text", "{s:?} displays {v}");
            ensure!(serde_json::to_string(v).unwrap() == serde_json::to_string(&want).unwrap(), "serialize", "{s:?}");
            ensure!(v.clone().into_inner() == want, "text", "{s:?} into_inner");
        }
        (Err(e), Err(f)) => {
            ensure!(!bad.is_empty(), "rejected", "{s:?} is rejected with {e:?}, expected {want:?}");
            ensure!(f.to_string().contains(e.as_str()), "error", "{s:?}: {e:?} but deserialization says {f}");
            ensure!(bad.iter().any(|b| e.contains(&format!("`{b}`"))), "error-name", "{s:?}: {e:?} names none of {bad:?}");
        }
        _ => return vcommon::viol("disagree", format!("{s:?}: from_str {got:?}, deserialize {serde:?}")),
    }
    // AsciiString additionally refuses non-ASCII text, and must never change accepted text.
    let ascii = guard("ascii", || DynamicString::<AsciiString>::from_str(s))?;
    match ascii {
        Ok(v) => {
            ensure!(bad.is_empty() && want.is_ascii(), "ascii-accepted", "{s:?} accepted as {:?}", v.as_ref());
            ensure!(v.as_ref() as &str == want, "ascii-text", "{s:?} gives {:?}, expected {want:?}", v.as_ref());
        }
        Err(e) => ensure!(!bad.is_empty() || !want.is_ascii(), "ascii-rejected", "{s:?} is rejected with {e:?}, expected {want:?}"),
    }
    if subst > 0 {
        case.nontrivial(s);
        case.sample(format!("{s:?} -> {want:?}, unresolvable {bad:?}"));
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("S03", "a string with at least one resolvable placeholder");
    let env: BTreeMap<String, String> = [
        ("V_ONE", "one"),
        ("V_EMPTY", ""),
        ("V_BRACES", "{{ env.V_ONE }}"),
        ("V_HALF", "{{ env."),
        ("v2", "x y\nz"),
        ("V_UNI", "zoë"),
        ("_", "underscore"),
        ("V9_a", "$0 \\1 }}"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    for (k, v) in &env {
        // SAFETY: no other thread runs yet.
        unsafe { std::env::set_var(k, v) };
    }
    unsafe { std::env::remove_var("VERIF_UNSET") };
    let vars: Vec<&str> = env.keys().map(|s| s.as_str()).collect();
    let envr = &env;
    let varsr = &vars;
    c.cases("strings", 60_000, 4_000_000, |case| {
        let s = generate(&mut case.rng, varsr, false);
        check(case, &s, envr)
    });
    c.cases("ascii", 30_000, 1_000_000, |case| {
        let s = generate(&mut case.rng, varsr, true);
        check(case, &s, envr)
    });
    c.require("substitutions", 10_000);
    c.require("unresolvable placeholders", 5_000);
    c.finish();
}
