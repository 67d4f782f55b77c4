use crate::*;
use std::fmt::{self, Display, Formatter};

pub fn string_literal(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Display for Value {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Value::Null => f.write_str("null"),
            Value::Int(s) | Value::Float(s) | Value::Enum(s) => f.write_str(s),
            Value::Str(s) => f.write_str(&string_literal(s)),
            Value::Bool(b) => write!(f, "{b}"),
            Value::Var(v) => write!(f, "${v}"),
            Value::List(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    write!(f, "{}{x}", if i > 0 { ", " } else { "" })?;
                }
                f.write_str("]")
            }
            Value::Obj(v) => {
                f.write_str("{")?;
                for (i, (n, x)) in v.iter().enumerate() {
                    write!(f, "{}{n}: {x}", if i > 0 { ", " } else { "" })?;
                }
                f.write_str("}")
            }
        }
    }
}

impl Display for Ty {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Ty::Named(s) => f.write_str(s),
            Ty::List(t) => write!(f, "[{t}]"),
            Ty::NonNull(t) => write!(f, "{t}!"),
        }
    }
}

impl Display for Dir {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "@{}", self.name)?;
        if !self.args.is_empty() {
            f.write_str("(")?;
            for (i, (n, v)) in self.args.iter().enumerate() {
                write!(f, "{}{n}: {v}", if i > 0 { ", " } else { "" })?;
            }
            f.write_str(")")?;
        }
        Ok(())
    }
}

fn dirs(f: &mut Formatter<'_>, d: &[Dir]) -> fmt::Result {
    for d in d {
        write!(f, " {d}")?;
    }
    Ok(())
}

fn desc(f: &mut Formatter<'_>, d: &Option<String>, indent: &str, nl: bool) -> fmt::Result {
    match d {
        Some(d) => write!(f, "{indent}{}{}", string_literal(d), if nl { "\n" } else { " " }),
        None => Ok(()),
    }
}

impl Display for InputVal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.name, self.ty)?;
        if let Some(d) = &self.default {
            write!(f, " = {d}")?;
        }
        dirs(f, &self.dirs)
    }
}

fn args(f: &mut Formatter<'_>, a: &[InputVal]) -> fmt::Result {
    if a.is_empty() {
        return Ok(());
    }
    f.write_str("(")?;
    for (i, a) in a.iter().enumerate() {
        if i > 0 {
            f.write_str(", ")?;
        }
        desc(f, &a.desc, "", false)?;
        write!(f, "{a}")?;
    }
    f.write_str(")")
}

impl Display for Field {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&self.name)?;
        args(f, &self.args)?;
        write!(f, ": {}", self.ty)?;
        dirs(f, &self.dirs)
    }
}

impl Display for TypeDef {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if self.ext {
            f.write_str("extend ")?;
        } else {
            desc(f, &self.desc, "", true)?;
        }
        write!(f, "{} {}", self.kind.keyword(), self.name)?;
        if !self.implements.is_empty() {
            write!(f, " implements {}", self.implements.join(" & "))?;
        }
        dirs(f, &self.dirs)?;
        match self.kind {
            Kind::Scalar => {}
            Kind::Union => {
                if !self.members.is_empty() {
                    write!(f, " = {}", self.members.join(" | "))?;
                }
            }
            Kind::Object | Kind::Interface => {
                if !self.fields.is_empty() {
                    f.write_str(" {\n")?;
                    for x in &self.fields {
                        desc(f, &x.desc, "  ", true)?;
                        writeln!(f, "  {x}")?;
                    }
                    f.write_str("}")?;
                }
            }
            Kind::Enum => {
                if !self.values.is_empty() {
                    f.write_str(" {\n")?;
                    for x in &self.values {
                        desc(f, &x.desc, "  ", true)?;
                        write!(f, "  {}", x.name)?;
                        dirs(f, &x.dirs)?;
                        f.write_str("\n")?;
                    }
                    f.write_str("}")?;
                }
            }
            Kind::Input => {
                if !self.inputs.is_empty() {
                    f.write_str(" {\n")?;
                    for x in &self.inputs {
                        desc(f, &x.desc, "  ", true)?;
                        writeln!(f, "  {x}")?;
                    }
                    f.write_str("}")?;
                }
            }
        }
        f.write_str("\n")
    }
}

impl Display for Def {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Def::Type(t) => write!(f, "{t}"),
            Def::Directive(d) => {
                desc(f, &d.desc, "", true)?;
                write!(f, "directive @{}", d.name)?;
                args(f, &d.args)?;
                writeln!(f, "{} on {}", if d.repeatable { " repeatable" } else { "" }, d.locations.join(" | "))
            }
            Def::Schema(s) => {
                if s.ext {
                    f.write_str("extend ")?;
                } else {
                    desc(f, &s.desc, "", true)?;
                }
                f.write_str("schema")?;
                dirs(f, &s.dirs)?;
                if !s.roots.is_empty() {
                    f.write_str(" {\n")?;
                    for (o, n) in &s.roots {
                        writeln!(f, "  {o}: {n}")?;
                    }
                    f.write_str("}")?;
                }
                f.write_str("\n")
            }
        }
    }
}

impl Display for Doc {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for (i, d) in self.defs.iter().enumerate() {
            if i > 0 {
                f.write_str("\n")?;
            }
            write!(f, "{d}")?;
        }
        Ok(())
    }
}
