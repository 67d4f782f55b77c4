//! A parser and printer of executable GraphQL documents with the interface of graphql-parser.
use std::{collections::BTreeMap, fmt};

pub trait Text<'a>: From<&'a str> + fmt::Display + Clone {}
impl<'a, T: From<&'a str> + fmt::Display + Clone> Text<'a> for T {}

#[derive(Debug)]
pub struct ParseError(String);

impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "query parse error: {}", self.0)
    }
}

impl std::error::Error for ParseError {}

pub mod schema {
    pub use crate::query::{Directive, Value};
}

pub mod query {
    use super::*;

    #[derive(Debug, Clone, PartialEq)]
    pub struct Number(pub(crate) i64);
    impl From<i32> for Number {
        fn from(i: i32) -> Self {
            Number(i.into())
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Value<'a, T> {
        Variable(&'a str),
        Int(Number),
        Float(f64),
        String(String),
        Boolean(bool),
        Null,
        Enum(T),
        List(Vec<Value<'a, T>>),
        Object(BTreeMap<&'a str, Value<'a, T>>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Directive<'a, T> {
        pub name: T,
        pub arguments: Vec<(T, Value<'a, T>)>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Document<'a, T> {
        pub definitions: Vec<Definition<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Definition<'a, T> {
        Operation(OperationDefinition<'a, T>),
        Fragment(FragmentDefinition<'a, T>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct FragmentDefinition<'a, T> {
        pub name: T,
        pub type_condition: TypeCondition<T>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum OperationDefinition<'a, T> {
        SelectionSet(SelectionSet<'a, T>),
        Query(Operation<'a, T>),
        Mutation(Operation<'a, T>),
        Subscription(Operation<'a, T>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Operation<'a, T> {
        pub name: Option<T>,
        pub variable_definitions: Vec<VariableDefinition<'a, T>>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct VariableDefinition<'a, T> {
        pub name: T,
        pub var_type: String,
        pub default_value: Option<Value<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct SelectionSet<'a, T> {
        pub items: Vec<Selection<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Selection<'a, T> {
        Field(Field<'a, T>),
        FragmentSpread(FragmentSpread<'a, T>),
        InlineFragment(InlineFragment<'a, T>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Field<'a, T> {
        pub alias: Option<T>,
        pub name: T,
        pub arguments: Vec<(T, Value<'a, T>)>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct FragmentSpread<'a, T> {
        pub fragment_name: T,
        pub directives: Vec<Directive<'a, T>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum TypeCondition<T> {
        On(T),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InlineFragment<'a, T> {
        pub type_condition: Option<TypeCondition<T>>,
        pub directives: Vec<Directive<'a, T>>,
        pub selection_set: SelectionSet<'a, T>,
    }
}

use query::*;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Token<'a> {
    Punct(&'a str),
    Name(&'a str),
    Number(&'a str),
    Str(&'a str),
    Block(&'a str),
}

fn tokens(s: &str) -> Result<Vec<Token<'_>>, ParseError> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' | b',' => i += 1,
            0xEF if s[i..].starts_with('\u{feff}') => i += 3,
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                out.push(Token::Punct(&s[start..i]));
            }
            b'!' | b'$' | b'(' | b')' | b':' | b'=' | b'@' | b'[' | b']' | b'{' | b'|' | b'}' | b'&' => {
                i += 1;
                out.push(Token::Punct(&s[start..i]));
            }
            b'_' | b'a'..=b'z' | b'A'..=b'Z' => {
                while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                    i += 1;
                }
                out.push(Token::Name(&s[start..i]));
            }
            b'-' | b'0'..=b'9' => {
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._+-".contains(&b[i])) {
                    i += 1;
                }
                out.push(Token::Number(&s[start..i]));
            }
            b'"' if s[i..].starts_with("\"\"\"") => {
                i += 3;
                loop {
                    if s.get(i..).is_some_and(|r| r.starts_with("\\\"\"\"")) {
                        i += 4;
                    } else if s.get(i..).is_some_and(|r| r.starts_with("\"\"\"")) {
                        break;
                    } else if i >= b.len() {
                        return Err(ParseError("unterminated block string".into()));
                    } else {
                        i += 1;
                    }
                }
                out.push(Token::Block(&s[start + 3..i]));
                i += 3;
            }
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\n' {
                        return Err(ParseError("unterminated string".into()));
                    }
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                if i >= b.len() {
                    return Err(ParseError("unterminated string".into()));
                }
                out.push(Token::Str(&s[start + 1..i]));
                i += 1;
            }
            _ => return Err(ParseError(format!("unexpected character at {i}"))),
        }
    }
    Ok(out)
}

struct Parser<'a> {
    tokens: Vec<Token<'a>>,
    at: usize,
}

type Res<T> = Result<T, ParseError>;

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<Token<'a>> {
        self.tokens.get(self.at).copied()
    }
    fn is(&self, p: &str) -> bool {
        self.peek() == Some(Token::Punct(p))
    }
    fn eat(&mut self, p: &str) -> bool {
        let is = self.is(p);
        self.at += is as usize;
        is
    }
    fn expect(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(ParseError(format!("expected {p}, found {:?}", self.peek())))
        }
    }
    fn name(&mut self) -> Res<&'a str> {
        match self.peek() {
            Some(Token::Name(n)) => {
                self.at += 1;
                Ok(n)
            }
            t => Err(ParseError(format!("expected a name, found {t:?}"))),
        }
    }
    fn document<T: Text<'a>>(&mut self) -> Res<Document<'a, T>> {
        let mut definitions = vec![];
        while let Some(t) = self.peek() {
            definitions.push(match t {
                Token::Punct("{") => Definition::Operation(OperationDefinition::SelectionSet(self.selection_set()?)),
                Token::Name("fragment") => {
                    self.at += 1;
                    let name = self.name()?.into();
                    if self.name()? != "on" {
                        return Err(ParseError("expected on".into()));
                    }
                    Definition::Fragment(FragmentDefinition {
                        name,
                        type_condition: TypeCondition::On(self.name()?.into()),
                        directives: self.directives()?,
                        selection_set: self.selection_set()?,
                    })
                }
                Token::Name(kind @ ("query" | "mutation" | "subscription")) => {
                    self.at += 1;
                    let name = match self.peek() {
                        Some(Token::Name(n)) => {
                            self.at += 1;
                            Some(n.into())
                        }
                        _ => None,
                    };
                    let mut variable_definitions = vec![];
                    if self.eat("(") {
                        while !self.eat(")") {
                            self.expect("$")?;
                            let name = self.name()?.into();
                            self.expect(":")?;
                            let var_type = self.ty()?;
                            let default_value = if self.eat("=") { Some(self.value()?) } else { None };
                            self.directives::<T>()?;
                            variable_definitions.push(VariableDefinition { name, var_type, default_value });
                        }
                    }
                    let operation = Operation {
                        name,
                        variable_definitions,
                        directives: self.directives()?,
                        selection_set: self.selection_set()?,
                    };
                    Definition::Operation(match kind {
                        "query" => OperationDefinition::Query(operation),
                        "mutation" => OperationDefinition::Mutation(operation),
                        _ => OperationDefinition::Subscription(operation),
                    })
                }
                t => return Err(ParseError(format!("unexpected {t:?}"))),
            });
        }
        if definitions.is_empty() {
            return Err(ParseError("unexpected end of input".into()));
        }
        Ok(Document { definitions })
    }
    fn ty(&mut self) -> Res<String> {
        let mut t = if self.eat("[") {
            let inner = self.ty()?;
            self.expect("]")?;
            format!("[{inner}]")
        } else {
            self.name()?.to_owned()
        };
        if self.eat("!") {
            t.push('!');
        }
        Ok(t)
    }
    fn directives<T: Text<'a>>(&mut self) -> Res<Vec<Directive<'a, T>>> {
        let mut out = vec![];
        while self.eat("@") {
            out.push(Directive { name: self.name()?.into(), arguments: self.arguments()? });
        }
        Ok(out)
    }
    fn arguments<T: Text<'a>>(&mut self) -> Res<Vec<(T, Value<'a, T>)>> {
        let mut out = vec![];
        if self.eat("(") {
            while !self.eat(")") {
                let name = self.name()?.into();
                self.expect(":")?;
                out.push((name, self.value()?));
            }
        }
        Ok(out)
    }
    fn value<T: Text<'a>>(&mut self) -> Res<Value<'a, T>> {
        let t = self.peek().ok_or(ParseError("unexpected end of input".into()))?;
        self.at += 1;
        Ok(match t {
            Token::Punct("$") => Value::Variable(self.name()?),
            Token::Name("true") => Value::Boolean(true),
            Token::Name("false") => Value::Boolean(false),
            Token::Name("null") => Value::Null,
            Token::Name(n) => Value::Enum(n.into()),
            Token::Number(n) => match n.parse::<i64>() {
                Ok(i) => Value::Int(Number(i)),
                Err(_) => Value::Float(n.parse().map_err(|_| ParseError(format!("bad number {n}")))?),
            },
            Token::Str(s) => Value::String(unescape(s)?),
            Token::Block(s) => Value::String(s.replace("\\\"\"\"", "\"\"\"")),
            Token::Punct("[") => {
                let mut items = vec![];
                while !self.eat("]") {
                    items.push(self.value()?);
                }
                Value::List(items)
            }
            Token::Punct("{") => {
                let mut fields = BTreeMap::new();
                while !self.eat("}") {
                    let name = self.name()?;
                    self.expect(":")?;
                    fields.insert(name, self.value()?);
                }
                Value::Object(fields)
            }
            t => return Err(ParseError(format!("unexpected {t:?}"))),
        })
    }
    fn selection_set<T: Text<'a>>(&mut self) -> Res<SelectionSet<'a, T>> {
        self.expect("{")?;
        let mut items = vec![];
        while !self.eat("}") {
            if self.eat("...") {
                match self.peek() {
                    Some(Token::Name(n)) if n != "on" => {
                        self.at += 1;
                        items.push(Selection::FragmentSpread(FragmentSpread {
                            fragment_name: n.into(),
                            directives: self.directives()?,
                        }));
                    }
                    t => {
                        let type_condition = if t == Some(Token::Name("on")) {
                            self.at += 1;
                            Some(TypeCondition::On(self.name()?.into()))
                        } else {
                            None
                        };
                        items.push(Selection::InlineFragment(InlineFragment {
                            type_condition,
                            directives: self.directives()?,
                            selection_set: self.selection_set()?,
                        }));
                    }
                }
            } else {
                let mut name = self.name()?;
                let mut alias = None;
                if self.eat(":") {
                    alias = Some(name.into());
                    name = self.name()?;
                }
                items.push(Selection::Field(Field {
                    alias,
                    name: name.into(),
                    arguments: self.arguments()?,
                    directives: self.directives()?,
                    selection_set: if self.is("{") { self.selection_set()? } else { SelectionSet { items: vec![] } },
                }));
            }
        }
        if items.is_empty() {
            return Err(ParseError("empty selection set".into()));
        }
        Ok(SelectionSet { items })
    }
}

fn unescape(s: &str) -> Res<String> {
    let mut out = String::new();
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match chars.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('b') => out.push('\u{8}'),
            Some('f') => out.push('\u{c}'),
            Some(c @ ('"' | '\\' | '/')) => out.push(c),
            Some('u') => {
                let code: String = chars.by_ref().take(4).collect();
                let code = u32::from_str_radix(&code, 16).map_err(|_| ParseError("bad escape".into()))?;
                out.push(char::from_u32(code).unwrap_or('\u{fffd}'));
            }
            _ => return Err(ParseError("bad escape".into())),
        }
    }
    Ok(out)
}

pub fn parse_query<'a, T: Text<'a>>(s: &'a str) -> Result<Document<'a, T>, ParseError> {
    Parser { tokens: tokens(s)?, at: 0 }.document()
}

impl<T: fmt::Display> fmt::Display for Value<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Value::Variable(v) => write!(f, "${v}"),
            Value::Int(i) => write!(f, "{}", i.0),
            Value::Float(x) if x.fract() == 0.0 => write!(f, "{x:.1}"),
            Value::Float(x) => write!(f, "{x}"),
            Value::String(s) => {
                f.write_str("\"")?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        '\n' => f.write_str("\\n")?,
                        '\t' => f.write_str("\\t")?,
                        '\r' => f.write_str("\\r")?,
                        c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{c}")?,
                    }
                }
                f.write_str("\"")
            }
            Value::Boolean(b) => write!(f, "{b}"),
            Value::Null => f.write_str("null"),
            Value::Enum(e) => write!(f, "{e}"),
            Value::List(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    write!(f, "{}{x}", if i > 0 { ", " } else { "" })?;
                }
                f.write_str("]")
            }
            Value::Object(v) => {
                f.write_str("{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    write!(f, "{}{k}: {x}", if i > 0 { ", " } else { "" })?;
                }
                f.write_str("}")
            }
        }
    }
}

fn arguments<T: fmt::Display>(f: &mut fmt::Formatter<'_>, arguments: &[(T, Value<'_, T>)]) -> fmt::Result {
    if !arguments.is_empty() {
        f.write_str("(")?;
        for (i, (k, v)) in arguments.iter().enumerate() {
            write!(f, "{}{k}: {v}", if i > 0 { ", " } else { "" })?;
        }
        f.write_str(")")?;
    }
    Ok(())
}

fn directives<T: fmt::Display>(f: &mut fmt::Formatter<'_>, directives: &[Directive<'_, T>]) -> fmt::Result {
    for d in directives {
        write!(f, " @{}", d.name)?;
        arguments(f, &d.arguments)?;
    }
    Ok(())
}

fn selection_set<T: fmt::Display>(
    f: &mut fmt::Formatter<'_>,
    set: &SelectionSet<'_, T>,
    depth: usize,
    space: bool,
) -> fmt::Result {
    if set.items.is_empty() {
        return f.write_str("\n");
    }
    f.write_str(if space { " {\n" } else { "{\n" })?;
    for item in &set.items {
        write!(f, "{:1$}", "", 2 * (depth + 1))?;
        match item {
            Selection::Field(field) => {
                if let Some(alias) = &field.alias {
                    write!(f, "{alias}: ")?;
                }
                write!(f, "{}", field.name)?;
                arguments(f, &field.arguments)?;
                directives(f, &field.directives)?;
                selection_set(f, &field.selection_set, depth + 1, true)?;
            }
            Selection::FragmentSpread(spread) => {
                write!(f, "...{}", spread.fragment_name)?;
                directives(f, &spread.directives)?;
                f.write_str("\n")?;
            }
            Selection::InlineFragment(fragment) => {
                f.write_str("...")?;
                if let Some(TypeCondition::On(on)) = &fragment.type_condition {
                    write!(f, " on {on}")?;
                }
                directives(f, &fragment.directives)?;
                selection_set(f, &fragment.selection_set, depth + 1, true)?;
            }
        }
    }
    writeln!(f, "{:1$}}}", "", 2 * depth)
}

fn operation<T: fmt::Display>(f: &mut fmt::Formatter<'_>, kind: &str, o: &Operation<'_, T>) -> fmt::Result {
    f.write_str(kind)?;
    if let Some(name) = &o.name {
        write!(f, " {name}")?;
    }
    if !o.variable_definitions.is_empty() {
        f.write_str("(")?;
        for (i, v) in o.variable_definitions.iter().enumerate() {
            write!(f, "{}${}: {}", if i > 0 { ", " } else { "" }, v.name, v.var_type)?;
            if let Some(default) = &v.default_value {
                write!(f, " = {default}")?;
            }
        }
        f.write_str(")")?;
    }
    directives(f, &o.directives)?;
    selection_set(f, &o.selection_set, 0, true)
}

impl<T: fmt::Display> fmt::Display for Document<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, d) in self.definitions.iter().enumerate() {
            if i > 0 {
                f.write_str("\n")?;
            }
            match d {
                Definition::Operation(OperationDefinition::SelectionSet(s)) => selection_set(f, s, 0, false)?,
                Definition::Operation(OperationDefinition::Query(o)) => operation(f, "query", o)?,
                Definition::Operation(OperationDefinition::Mutation(o)) => operation(f, "mutation", o)?,
                Definition::Operation(OperationDefinition::Subscription(o)) => operation(f, "subscription", o)?,
                Definition::Fragment(fragment) => {
                    let TypeCondition::On(on) = &fragment.type_condition;
                    write!(f, "fragment {} on {on}", fragment.name)?;
                    directives(f, &fragment.directives)?;
                    selection_set(f, &fragment.selection_set, 0, true)?;
                }
            }
        }
        Ok(())
    }
}
