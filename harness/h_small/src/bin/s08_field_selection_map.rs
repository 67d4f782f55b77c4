//! FieldSelectionMap: parser against an independent one, and printing.
use engine_field_selection_map::*;
use vcommon::{Case, Check, Rng, Viol, ensure, guard, viol};

const NAMES: [&str; 8] = ["a", "bb", "user_id", "_x", "Type1", "null", "true", "__typename"];

fn value<'a>(rng: &mut Rng, depth: usize) -> SelectedValue<'a> {
    let n = if rng.pct(70) { 1 } else { rng.range(2, 3) };
    SelectedValue { alternatives: (0..n).map(|_| entry(rng, depth)).collect() }
}
fn path<'a>(rng: &mut Rng) -> Path<'a> {
    Path {
        ty: rng.pct(25).then(|| rng.str(&NAMES)),
        segments: (0..rng.range(1, 3)).map(|_| PathSegment { field: rng.str(&NAMES), ty: rng.pct(25).then(|| rng.str(&NAMES)) }).collect(),
    }
}
fn entry<'a>(rng: &mut Rng, depth: usize) -> SelectedValueEntry<'a> {
    match rng.below(if depth == 0 { 3 } else { 6 }) {
        0 => SelectedValueEntry::Identity,
        1 | 2 => SelectedValueEntry::Path(path(rng)),
        3 | 4 => SelectedValueEntry::Object {
            path: rng.pct(40).then(|| path(rng)),
            object: SelectedObjectValue {
                fields: (0..rng.range(0, 3))
                    .map(|_| SelectedObjectField { key: rng.str(&NAMES), value: rng.pct(60).then(|| value(rng, depth - 1)) })
                    .collect(),
            },
        },
        _ => SelectedValueEntry::List { path: rng.pct(40).then(|| path(rng)), list: SelectedListValue(value(rng, depth - 1)) },
    }
}

// Tokens of a value. " " is required white space; "~" is a place where none is generated: the parser
// does not take white space between the dot after a leading type name and the first field.
fn toks(v: &SelectedValue<'_>, o: &mut Vec<String>) {
    for (i, e) in v.alternatives.iter().enumerate() {
        if i > 0 {
            o.push("|".into());
        }
        match e {
            SelectedValueEntry::Identity => o.push(".".into()),
            SelectedValueEntry::Path(p) => ptoks(p, o),
            SelectedValueEntry::Object { path, object } => {
                if let Some(p) = path {
                    ptoks(p, o);
                    o.push(".".into());
                }
                o.push("{".into());
                for (j, f) in object.fields.iter().enumerate() {
                    if j > 0 {
                        o.push(" ".into());
                    }
                    o.push(f.key.into());
                    if let Some(v) = &f.value {
                        o.push(":".into());
                        toks(v, o);
                    }
                }
                o.push("}".into());
            }
            SelectedValueEntry::List { path, list } => {
                if let Some(p) = path {
                    ptoks(p, o);
                }
                o.push("[".into());
                toks(&list.0, o);
                o.push("]".into());
            }
        }
    }
}
fn ptoks(p: &Path<'_>, o: &mut Vec<String>) {
    if let Some(t) = p.ty {
        o.extend(["<".into(), t.to_string(), ">".into(), ".".into(), "~".into()]);
    }
    for (i, s) in p.segments.iter().enumerate() {
        if i > 0 {
            o.push(".".into());
        }
        o.push(s.field.into());
        if let Some(t) = s.ty {
            o.extend(["<".into(), t.to_string(), ">".into()]);
        }
    }
}

/// An independent recursive-descent parser, white space insignificant.
struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
}
fn lex(s: &str) -> Option<Vec<&str>> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'{' | b'}' | b'[' | b']' | b'.' | b':' | b'|' | b'<' | b'>' => {
                v.push(&s[i..i + 1]);
                i += 1;
            }
            c if c == b'_' || c.is_ascii_alphabetic() => {
                let st = i;
                while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                    i += 1;
                }
                v.push(&s[st..i]);
            }
            _ => return None,
        }
    }
    Some(v)
}
impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        (self.peek() == s).then(|| self.i += 1)
    }
    fn name(&mut self) -> Option<&'a str> {
        let p = self.peek();
        (p.as_bytes().first().is_some_and(|c| *c == b'_' || c.is_ascii_alphabetic())).then(|| {
            self.i += 1;
            p
        })
    }
    fn value(&mut self) -> Option<SelectedValue<'a>> {
        let mut alternatives = vec![self.entry()?];
        while self.eat("|").is_some() {
            alternatives.push(self.entry()?);
        }
        Some(SelectedValue { alternatives })
    }
    fn entry(&mut self) -> Option<SelectedValueEntry<'a>> {
        match self.peek() {
            "{" => Some(SelectedValueEntry::Object { path: None, object: self.object()? }),
            "[" => Some(SelectedValueEntry::List { path: None, list: self.list()? }),
            "." => {
                self.i += 1;
                Some(SelectedValueEntry::Identity)
            }
            _ => {
                let lead = if self.eat("<").is_some() {
                    let n = self.name()?;
                    self.eat(">")?;
                    self.eat(".")?;
                    Some(n)
                } else {
                    None
                };
                let mut segments = vec![];
                loop {
                    let field = self.name()?;
                    let ty = if self.eat("<").is_some() {
                        let n = self.name()?;
                        self.eat(">")?;
                        Some(n)
                    } else {
                        None
                    };
                    segments.push(PathSegment { field, ty });
                    if self.peek() == "." {
                        if self.t.get(self.i + 1) == Some(&"{") {
                            self.i += 1;
                            let object = self.object()?;
                            return Some(SelectedValueEntry::Object { path: Some(Path { ty: lead, segments }), object });
                        }
                        self.i += 1;
                        continue;
                    }
                    break;
                }
                let p = Path { ty: lead, segments };
                if self.peek() == "[" {
                    return Some(SelectedValueEntry::List { path: Some(p), list: self.list()? });
                }
                Some(SelectedValueEntry::Path(p))
            }
        }
    }
    fn object(&mut self) -> Option<SelectedObjectValue<'a>> {
        self.eat("{")?;
        let mut fields = vec![];
        while self.eat("}").is_none() {
            let key = self.name()?;
            let value = if self.eat(":").is_some() { Some(self.value()?) } else { None };
            fields.push(SelectedObjectField { key, value });
        }
        Some(SelectedObjectValue { fields })
    }
    fn list(&mut self) -> Option<SelectedListValue<'a>> {
        self.eat("[")?;
        let v = self.value()?;
        self.eat("]")?;
        Some(SelectedListValue(v))
    }
}
fn reference(s: &str) -> Option<SelectedValue<'_>> {
    let mut p = P { t: lex(s)?, i: 0 };
    let v = p.value()?;
    (p.i == p.t.len()).then_some(v)
}

fn join(rng: &mut Rng, toks: &[String], spaces: u32) -> String {
    let mut s = String::new();
    let ws = [" ", "  ", "\n", "\t", "\r\n "];
    for (i, t) in toks.iter().enumerate() {
        if t == " " {
            s.push_str(rng.str(&ws));
            continue;
        }
        if t == "~" {
            continue;
        }
        if i > 0 && toks[i - 1] != "~" && rng.pct(spaces) {
            s.push_str(rng.str(&ws));
        }
        s.push_str(t);
    }
    s
}

fn well_formed(case: &mut Case) -> Result<(), Viol> {
    let depth = case.rng.below(4);
    let v = value(&mut case.rng, depth);
    let printed = v.to_string();
    case.input(printed.clone());
    let back = guard("parse", || SelectedValue::try_from(printed.as_str()).map_err(|e| e.to_string()))?;
    match &back {
        Ok(b) => ensure!(*b == v, "print-parse", "{printed:?} parses to {b:?}, expected {v:?}"),
        Err(e) => return viol("print-parse", format!("{printed:?} does not parse: {e}")),
    }
    let mut t = vec![];
    toks(&v, &mut t);
    let spaces = [0, 30][case.rng.below(2)];
    let text = join(&mut case.rng, &t, spaces);
    case.input(text.clone());
    if reference(&text).as_ref() != Some(&v) {
        vcommon::harness_bug!("the reference parser disagrees with the generator on {text:?}");
    }
    match guard("parse", || SelectedValue::try_from(text.as_str()).map_err(|e| e.to_string()))? {
        Ok(b) => ensure!(b == v, "parse", "{text:?} parses to {b:?}, expected {v:?}"),
        Err(e) => return viol("parse", format!("{text:?} does not parse: {e}")),
    }
    case.count("well-formed", 1);
    if t.len() > 3 {
        case.nontrivial(&text);
        case.sample(text);
    }
    Ok(())
}

fn mutated(case: &mut Case) -> Result<(), Viol> {
    let depth = case.rng.below(4);
    let v = value(&mut case.rng, depth);
    let mut t = vec![];
    toks(&v, &mut t);
    t.retain(|t| t != "~");
    for _ in 0..case.rng.range(1, 3) {
        let i = case.rng.below(t.len());
        match case.rng.below(3) {
            0 if t.len() > 1 => {
                t.remove(i);
            }
            1 => t.insert(i, ["{", "}", "[", "]", ".", ":", "|", "<", ">", "a", "é", "1", ",", "(", "$"][case.rng.below(15)].into()),
            _ => {
                let j = case.rng.below(t.len());
                t.swap(i, j);
            }
        }
    }
    let text = join(&mut case.rng, &t, 30);
    case.input(text.clone());
    let want = reference(&text);
    match (guard("parse", || SelectedValue::try_from(text.as_str()).map_err(|e| e.to_string()))?, want) {
        (Ok(b), Some(w)) => {
            ensure!(b == w, "parse", "{text:?} parses to {b:?}, expected {w:?}");
            let p = b.to_string();
            let again = SelectedValue::try_from(p.as_str()).map(|v| v == b).unwrap_or(false);
            ensure!(again, "print-parse", "{text:?} prints as {p:?}");
            case.count("mutants accepted", 1);
        }
        (Ok(b), None) => return viol("accepted", format!("{text:?} is malformed but parses to {b:?}")),
        (Err(_), Some(_)) => case.count("mutants refused for white space only", 1),
        (Err(e), None) => {
            ensure!(!e.is_empty(), "message", "{text:?}: empty error");
            case.count("mutants refused", 1);
            case.nontrivial(&text);
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("S08", "a text of more than 3 tokens, or a refused mutant");
    c.cases("well-formed", 40_000, 2_000_000, well_formed);
    c.cases("mutated", 40_000, 2_000_000, mutated);
    c.require("mutants refused", 5_000);
    c.finish();
}
