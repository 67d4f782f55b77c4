//! An independent reading of GraphQL documents (no code shared with the system under test):
//! lexer, schema-definition parser, printer, and a validity checker for plain schemas.

pub mod check;
pub mod lex;
pub mod parse;
pub mod print;

pub use parse::parse;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Value {
    Null,
    Int(String),
    Float(String),
    Str(String),
    Bool(bool),
    Enum(String),
    List(Vec<Value>),
    Obj(Vec<(String, Value)>),
    Var(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Dir {
    pub name: String,
    pub args: Vec<(String, Value)>,
}

impl Dir {
    pub fn new(name: &str, args: &[(&str, Value)]) -> Dir {
        Dir { name: name.into(), args: args.iter().map(|(n, v)| (n.to_string(), v.clone())).collect() }
    }
    pub fn arg(&self, name: &str) -> Option<&Value> {
        self.args.iter().find(|(n, _)| n == name).map(|(_, v)| v)
    }
    pub fn str_arg(&self, name: &str) -> Option<String> {
        match self.arg(name)? {
            Value::Str(s) | Value::Enum(s) => Some(s.clone()),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Named(String),
    List(Box<Ty>),
    NonNull(Box<Ty>),
}

impl Ty {
    pub fn named(s: &str) -> Ty {
        Ty::Named(s.into())
    }
    pub fn list(self) -> Ty {
        Ty::List(Box::new(self))
    }
    pub fn non_null(self) -> Ty {
        match self {
            Ty::NonNull(_) => self,
            t => Ty::NonNull(Box::new(t)),
        }
    }
    pub fn nullable(self) -> Ty {
        match self {
            Ty::NonNull(t) => *t,
            t => t,
        }
    }
    pub fn is_non_null(&self) -> bool {
        matches!(self, Ty::NonNull(_))
    }
    pub fn base(&self) -> &str {
        match self {
            Ty::Named(s) => s,
            Ty::List(t) | Ty::NonNull(t) => t.base(),
        }
    }
    pub fn with_base(&self, b: &str) -> Ty {
        match self {
            Ty::Named(_) => Ty::named(b),
            Ty::List(t) => Ty::List(Box::new(t.with_base(b))),
            Ty::NonNull(t) => Ty::NonNull(Box::new(t.with_base(b))),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct InputVal {
    pub desc: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Value>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
}

impl Field {
    pub fn arg(&self, n: &str) -> Option<&InputVal> {
        self.args.iter().find(|a| a.name == n)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EnumVal {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}

impl Kind {
    pub fn keyword(self) -> &'static str {
        match self {
            Kind::Scalar => "scalar",
            Kind::Object => "type",
            Kind::Interface => "interface",
            Kind::Union => "union",
            Kind::Enum => "enum",
            Kind::Input => "input",
        }
    }
    pub fn is_output(self) -> bool {
        self != Kind::Input
    }
    pub fn is_input(self) -> bool {
        matches!(self, Kind::Scalar | Kind::Enum | Kind::Input)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TypeDef {
    pub ext: bool,
    pub desc: Option<String>,
    pub name: String,
    pub kind: Kind,
    pub implements: Vec<String>,
    pub dirs: Vec<Dir>,
    pub fields: Vec<Field>,
    pub inputs: Vec<InputVal>,
    pub values: Vec<EnumVal>,
    pub members: Vec<String>,
}

impl TypeDef {
    pub fn new(kind: Kind, name: &str) -> TypeDef {
        TypeDef {
            ext: false,
            desc: None,
            name: name.into(),
            kind,
            implements: vec![],
            dirs: vec![],
            fields: vec![],
            inputs: vec![],
            values: vec![],
            members: vec![],
        }
    }
    pub fn field(&self, n: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.name == n)
    }
    pub fn input(&self, n: &str) -> Option<&InputVal> {
        self.inputs.iter().find(|f| f.name == n)
    }
    pub fn value(&self, n: &str) -> Option<&EnumVal> {
        self.values.iter().find(|f| f.name == n)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DirDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub repeatable: bool,
    pub locations: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SchemaDef {
    pub ext: bool,
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub roots: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Def {
    Schema(SchemaDef),
    Type(TypeDef),
    Directive(DirDef),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Doc {
    pub defs: Vec<Def>,
}

impl Doc {
    pub fn types(&self) -> impl Iterator<Item = &TypeDef> {
        self.defs.iter().filter_map(|d| match d {
            Def::Type(t) => Some(t),
            _ => None,
        })
    }
    pub fn types_mut(&mut self) -> impl Iterator<Item = &mut TypeDef> {
        self.defs.iter_mut().filter_map(|d| match d {
            Def::Type(t) => Some(t),
            _ => None,
        })
    }
    pub fn ty(&self, name: &str) -> Option<&TypeDef> {
        self.types().find(|t| t.name == name && !t.ext)
    }
    pub fn ty_mut(&mut self, name: &str) -> Option<&mut TypeDef> {
        self.types_mut().find(|t| t.name == name && !t.ext)
    }
    pub fn directives(&self) -> impl Iterator<Item = &DirDef> {
        self.defs.iter().filter_map(|d| match d {
            Def::Directive(t) => Some(t),
            _ => None,
        })
    }
    pub fn schema(&self) -> Option<&SchemaDef> {
        self.defs.iter().find_map(|d| match d {
            Def::Schema(t) => Some(t),
            _ => None,
        })
    }
    pub fn push(&mut self, t: TypeDef) {
        self.defs.push(Def::Type(t));
    }
}

pub const BUILTIN_SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];
pub const BUILTIN_DIRECTIVES: [&str; 5] = ["include", "skip", "deprecated", "specifiedBy", "oneOf"];
