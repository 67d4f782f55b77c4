//! Executable GraphQL documents: an own reader and printer (nothing shared with the code under test).
use std::fmt::Write;
use vgql::{Dir, Ty, Value, lex::{Tok, lex}, print::string_literal};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}

#[derive(Clone, Debug, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Value>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldSel {
    pub alias: Option<String>,
    pub name: String,
    pub args: Vec<(String, Value)>,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}

impl FieldSel {
    pub fn key(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Field(FieldSel),
    Spread(String, Vec<Dir>),
    Inline(Option<String>, Vec<Dir>, Vec<Sel>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Operation {
    pub kind: OpKind,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fragment {
    pub name: String,
    pub on: String,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Document {
    pub ops: Vec<Operation>,
    pub frags: Vec<Fragment>,
}

impl Document {
    pub fn frag(&self, name: &str) -> Option<&Fragment> {
        self.frags.iter().find(|f| f.name == name)
    }
}

type R<T> = Result<T, String>;

struct P {
    t: Vec<Tok>,
    i: usize,
}

pub fn parse(src: &str) -> R<Document> {
    let mut p = P { t: lex(src)?, i: 0 };
    let mut doc = Document::default();
    while p.i < p.t.len() {
        if p.is('{') {
            let sels = p.sels()?;
            doc.ops.push(Operation { kind: OpKind::Query, name: None, vars: vec![], sels });
            continue;
        }
        let word = p.name()?;
        if word == "fragment" {
            let name = p.name()?;
            if p.name()? != "on" {
                return Err("a fragment without a type".into());
            }
            let on = p.name()?;
            if !p.dirs()?.is_empty() {
                return Err("directives on a fragment definition".into());
            }
            let sels = p.sels()?;
            doc.frags.push(Fragment { name, on, sels });
            continue;
        }
        let kind = match word.as_str() {
            "query" => OpKind::Query,
            "mutation" => OpKind::Mutation,
            "subscription" => OpKind::Subscription,
            _ => return Err(format!("unexpected `{word}`")),
        };
        let name = if matches!(p.t.get(p.i), Some(Tok::Name(_))) { Some(p.name()?) } else { None };
        let mut vars = vec![];
        if p.eat('(') {
            while !p.eat(')') {
                p.want('$')?;
                let name = p.name()?;
                p.want(':')?;
                let ty = p.ty()?;
                let default = if p.eat('=') { Some(p.value()?) } else { None };
                vars.push(VarDef { name, ty, default });
            }
        }
        if !p.dirs()?.is_empty() {
            return Err("directives on an operation".into());
        }
        let sels = p.sels()?;
        doc.ops.push(Operation { kind, name, vars, sels });
    }
    Ok(doc)
}

/// A field set of a directive (`a b { c }`).
pub fn field_set(src: &str) -> R<Vec<Sel>> {
    let mut p = P { t: lex(&format!("{{{src}}}"))?, i: 0 };
    p.sels()
}

impl P {
    fn is(&self, c: char) -> bool {
        self.t.get(self.i) == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        let yes = self.is(c);
        self.i += yes as usize;
        yes
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected `{c}`, found {:?}", self.t.get(self.i))) }
    }
    fn name(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tok::Name(n)) => {
                self.i += 1;
                Ok(n.clone())
            }
            other => Err(format!("expected a name, found {other:?}")),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = if self.eat('[') {
            let t = self.ty()?;
            self.want(']')?;
            t.list()
        } else {
            Ty::named(&self.name()?)
        };
        Ok(if self.eat('!') { t.non_null() } else { t })
    }
    fn value(&mut self) -> R<Value> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(match t {
            Tok::Int(s) => Value::Int(s),
            Tok::Float(s) => Value::Float(s),
            Tok::Str(s) => Value::Str(s),
            Tok::Name(n) => match n.as_str() {
                "true" => Value::Bool(true),
                "false" => Value::Bool(false),
                "null" => Value::Null,
                _ => Value::Enum(n),
            },
            Tok::P('$') => Value::Var(self.name()?),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat(']') {
                    v.push(self.value()?);
                }
                Value::List(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    let n = self.name()?;
                    self.want(':')?;
                    v.push((n, self.value()?));
                }
                Value::Obj(v)
            }
            t => return Err(format!("not a value: {t:?}")),
        })
    }
    fn args(&mut self) -> R<Vec<(String, Value)>> {
        let mut v = vec![];
        if self.eat('(') {
            while !self.eat(')') {
                let n = self.name()?;
                self.want(':')?;
                v.push((n, self.value()?));
            }
            if v.is_empty() {
                return Err("no arguments between the parentheses".into());
            }
        }
        Ok(v)
    }
    fn dirs(&mut self) -> R<Vec<Dir>> {
        let mut v = vec![];
        while self.eat('@') {
            let name = self.name()?;
            v.push(Dir { name, args: self.args()? });
        }
        Ok(v)
    }
    fn sels(&mut self) -> R<Vec<Sel>> {
        self.want('{')?;
        let mut v = vec![];
        while !self.eat('}') {
            if self.t.get(self.i) == Some(&Tok::Spread) {
                self.i += 1;
                if let Some(Tok::Name(n)) = self.t.get(self.i).cloned()
                    && n != "on"
                {
                    self.i += 1;
                    v.push(Sel::Spread(n, self.dirs()?));
                } else {
                    let on = if self.t.get(self.i) == Some(&Tok::Name("on".into())) {
                        self.i += 1;
                        Some(self.name()?)
                    } else {
                        None
                    };
                    let dirs = self.dirs()?;
                    v.push(Sel::Inline(on, dirs, self.sels()?));
                }
                continue;
            }
            let first = self.name()?;
            let (alias, name) = if self.eat(':') { (Some(first), self.name()?) } else { (None, first) };
            let args = self.args()?;
            let dirs = self.dirs()?;
            let sels = if self.is('{') { self.sels()? } else { vec![] };
            v.push(Sel::Field(FieldSel { alias, name, args, dirs, sels }));
        }
        if v.is_empty() {
            return Err("an empty selection set".into());
        }
        Ok(v)
    }
}

pub fn ty(t: &Ty) -> String {
    match t {
        Ty::Named(n) => n.clone(),
        Ty::List(t) => format!("[{}]", ty(t)),
        Ty::NonNull(t) => format!("{}!", ty(t)),
    }
}

pub fn value(v: &Value) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Int(s) | Value::Float(s) | Value::Enum(s) => s.clone(),
        Value::Str(s) => string_literal(s),
        Value::Bool(b) => b.to_string(),
        Value::List(l) => format!("[{}]", l.iter().map(value).collect::<Vec<_>>().join(", ")),
        Value::Obj(o) => format!("{{{}}}", o.iter().map(|(n, v)| format!("{n}: {}", value(v))).collect::<Vec<_>>().join(", ")),
        Value::Var(n) => format!("${n}"),
    }
}

fn args(a: &[(String, Value)]) -> String {
    if a.is_empty() {
        return String::new();
    }
    format!("({})", a.iter().map(|(n, v)| format!("{n}: {}", value(v))).collect::<Vec<_>>().join(", "))
}

fn dirs(d: &[Dir]) -> String {
    d.iter().map(|d| format!(" @{}{}", d.name, args(&d.args))).collect()
}

pub fn sels(s: &[Sel]) -> String {
    let mut o = String::from("{");
    for s in s {
        o.push(' ');
        match s {
            Sel::Field(f) => {
                if let Some(a) = &f.alias {
                    write!(o, "{a}: ").unwrap();
                }
                write!(o, "{}{}{}", f.name, args(&f.args), dirs(&f.dirs)).unwrap();
                if !f.sels.is_empty() {
                    write!(o, " {}", sels(&f.sels)).unwrap();
                }
            }
            Sel::Spread(n, d) => write!(o, "...{n}{}", dirs(d)).unwrap(),
            Sel::Inline(on, d, s) => {
                o.push_str("...");
                if let Some(on) = on {
                    write!(o, " on {on}").unwrap();
                }
                write!(o, "{} {}", dirs(d), sels(s)).unwrap();
            }
        }
    }
    o.push_str(" }");
    o
}

pub fn print(d: &Document) -> String {
    let mut o = String::new();
    for op in &d.ops {
        let kind = match op.kind {
            OpKind::Query => "query",
            OpKind::Mutation => "mutation",
            OpKind::Subscription => "subscription",
        };
        write!(o, "{kind}").unwrap();
        if let Some(n) = &op.name {
            write!(o, " {n}").unwrap();
        }
        if !op.vars.is_empty() {
            let v: Vec<_> = op
                .vars
                .iter()
                .map(|v| format!("${}: {}{}", v.name, ty(&v.ty), v.default.as_ref().map(|d| format!(" = {}", value(d))).unwrap_or_default()))
                .collect();
            write!(o, "({})", v.join(", ")).unwrap();
        }
        writeln!(o, " {}", sels(&op.sels)).unwrap();
    }
    for f in &d.frags {
        writeln!(o, "fragment {} on {} {}", f.name, f.on, sels(&f.sels)).unwrap();
    }
    o
}
