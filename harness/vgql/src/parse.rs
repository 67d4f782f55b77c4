use crate::lex::{Tok, lex};
use crate::*;

struct P {
    t: Vec<Tok>,
    i: usize,
}

type R<T> = Result<T, String>;

pub fn parse(src: &str) -> R<Doc> {
    let mut p = P { t: lex(src)?, i: 0 };
    let mut doc = Doc::default();
    while p.i < p.t.len() {
        doc.defs.push(p.def()?);
    }
    Ok(doc)
}

pub fn parse_value(src: &str) -> R<Value> {
    let mut p = P { t: lex(src)?, i: 0 };
    p.value()
}

pub fn parse_ty(src: &str) -> R<Ty> {
    let mut p = P { t: lex(src)?, i: 0 };
    p.ty()
}

/// A field set (`a b { c }`), with a canonical textual form.
pub fn parse_field_set(src: &str) -> R<Vec<Sel>> {
    let mut p = P { t: lex(src)?, i: 0 };
    let out = p.sels(true)?;
    if p.i < p.t.len() {
        return Err(format!("trailing tokens in field set {src:?}"));
    }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sel {
    Field { name: String, args: Vec<(String, Value)>, sub: Vec<Sel> },
    On { ty: Option<String>, sub: Vec<Sel> },
}

pub fn canonical_field_set(src: &str) -> R<Vec<Sel>> {
    fn canon(mut v: Vec<Sel>) -> Vec<Sel> {
        for s in &mut v {
            match s {
                Sel::Field { sub, args, .. } => {
                    args.sort();
                    *sub = canon(std::mem::take(sub));
                }
                Sel::On { sub, .. } => *sub = canon(std::mem::take(sub)),
            }
        }
        v.sort();
        v
    }
    Ok(canon(parse_field_set(src)?))
}

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        let r = self.is(c);
        if r {
            self.i += 1;
        }
        r
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected {c:?} at token {} ({:?})", self.i, self.peek())) }
    }
    fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Name(n)) => {
                let n = n.clone();
                self.i += 1;
                Ok(n)
            }
            t => Err(format!("expected a name, found {t:?} at token {}", self.i)),
        }
    }
    fn kw(&mut self, k: &str) -> bool {
        if matches!(self.peek(), Some(Tok::Name(n)) if n == k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn desc(&mut self) -> Option<String> {
        match self.peek() {
            Some(Tok::Str(s)) => {
                let s = s.clone();
                self.i += 1;
                Some(s)
            }
            _ => None,
        }
    }

    fn value(&mut self) -> R<Value> {
        let t = self.peek().cloned().ok_or("expected a value")?;
        self.i += 1;
        Ok(match t {
            Tok::Int(s) => Value::Int(s),
            Tok::Float(s) => Value::Float(s),
            Tok::Str(s) => Value::Str(s),
            Tok::Name(n) => match n.as_str() {
                "true" => Value::Bool(true),
                "false" => Value::Bool(false),
                "null" => Value::Null,
                _ => Value::Enum(n),
            },
            Tok::P('$') => Value::Var(self.name()?),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat(']') {
                    v.push(self.value()?);
                }
                Value::List(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    let n = self.name()?;
                    self.want(':')?;
                    v.push((n, self.value()?));
                }
                Value::Obj(v)
            }
            t => return Err(format!("unexpected {t:?} as a value")),
        })
    }

    fn ty(&mut self) -> R<Ty> {
        let t = if self.eat('[') {
            let t = self.ty()?;
            self.want(']')?;
            t.list()
        } else {
            Ty::Named(self.name()?)
        };
        Ok(if self.eat('!') { t.non_null() } else { t })
    }

    fn dirs(&mut self) -> R<Vec<Dir>> {
        let mut out = vec![];
        while self.eat('@') {
            let name = self.name()?;
            out.push(Dir { name, args: self.args()? });
        }
        Ok(out)
    }

    fn args(&mut self) -> R<Vec<(String, Value)>> {
        let mut args = vec![];
        if self.eat('(') {
            while !self.eat(')') {
                let n = self.name()?;
                self.want(':')?;
                args.push((n, self.value()?));
            }
            if args.is_empty() {
                return Err("empty argument list".into());
            }
        }
        Ok(args)
    }

    fn input_val(&mut self) -> R<InputVal> {
        let desc = self.desc();
        let name = self.name()?;
        self.want(':')?;
        let ty = self.ty()?;
        let default = if self.eat('=') { Some(self.value()?) } else { None };
        Ok(InputVal { desc, name, ty, default, dirs: self.dirs()? })
    }

    fn input_vals(&mut self, open: char, close: char) -> R<Vec<InputVal>> {
        let mut v = vec![];
        if self.eat(open) {
            while !self.eat(close) {
                v.push(self.input_val()?);
            }
            if v.is_empty() {
                return Err("empty block of input values".into());
            }
        }
        Ok(v)
    }

    fn def(&mut self) -> R<Def> {
        let desc = self.desc();
        let ext = self.kw("extend");
        let k = self.name()?;
        let kind = match k.as_str() {
            "schema" => {
                let dirs = self.dirs()?;
                let mut roots = vec![];
                if self.eat('{') {
                    while !self.eat('}') {
                        let op = self.name()?;
                        self.want(':')?;
                        roots.push((op, self.name()?));
                    }
                }
                return Ok(Def::Schema(SchemaDef { ext, desc, dirs, roots }));
            }
            "directive" => {
                self.want('@')?;
                let name = self.name()?;
                let args = self.input_vals('(', ')')?;
                let repeatable = self.kw("repeatable");
                if !self.kw("on") {
                    return Err("expected `on`".into());
                }
                self.eat('|');
                let mut locations = vec![self.name()?];
                while self.eat('|') {
                    locations.push(self.name()?);
                }
                return Ok(Def::Directive(DirDef { desc, name, args, repeatable, locations }));
            }
            "scalar" => Kind::Scalar,
            "type" => Kind::Object,
            "interface" => Kind::Interface,
            "union" => Kind::Union,
            "enum" => Kind::Enum,
            "input" => Kind::Input,
            k => return Err(format!("unexpected keyword {k}")),
        };
        let mut t = TypeDef::new(kind, &self.name()?);
        t.ext = ext;
        t.desc = desc;
        if matches!(kind, Kind::Object | Kind::Interface) && self.kw("implements") {
            self.eat('&');
            t.implements.push(self.name()?);
            while self.eat('&') {
                t.implements.push(self.name()?);
            }
        }
        t.dirs = self.dirs()?;
        match kind {
            Kind::Scalar => {}
            Kind::Object | Kind::Interface => {
                if self.eat('{') {
                    while !self.eat('}') {
                        let desc = self.desc();
                        let name = self.name()?;
                        let args = self.input_vals('(', ')')?;
                        self.want(':')?;
                        let ty = self.ty()?;
                        let dirs = self.dirs()?;
                        t.fields.push(Field { desc, name, args, ty, dirs });
                    }
                    if t.fields.is_empty() {
                        return Err(format!("{} has an empty block", t.name));
                    }
                }
            }
            Kind::Union => {
                if self.eat('=') {
                    self.eat('|');
                    t.members.push(self.name()?);
                    while self.eat('|') {
                        t.members.push(self.name()?);
                    }
                }
            }
            Kind::Enum => {
                if self.eat('{') {
                    while !self.eat('}') {
                        let desc = self.desc();
                        let name = self.name()?;
                        t.values.push(EnumVal { desc, name, dirs: self.dirs()? });
                    }
                    if t.values.is_empty() {
                        return Err(format!("{} has an empty block", t.name));
                    }
                }
            }
            Kind::Input => t.inputs = self.input_vals('{', '}')?,
        }
        Ok(Def::Type(t))
    }

    fn sels(&mut self, top: bool) -> R<Vec<Sel>> {
        let mut out = vec![];
        loop {
            if self.peek().is_none() {
                if top {
                    break;
                }
                return Err("unterminated selection".into());
            }
            if !top && self.eat('}') {
                break;
            }
            if self.peek() == Some(&Tok::Spread) {
                self.i += 1;
                let ty = if self.kw("on") { Some(self.name()?) } else { None };
                self.want('{')?;
                out.push(Sel::On { ty, sub: self.sels(false)? });
                continue;
            }
            let name = self.name()?;
            let args = self.args()?;
            let sub = if self.eat('{') { self.sels(false)? } else { vec![] };
            out.push(Sel::Field { name, args, sub });
        }
        Ok(out)
    }
}
