//! Media types, with the part of the interface of mediatype that is used.
use std::borrow::Cow;

#[derive(Debug, Clone, Copy)]
pub struct Name<'a>(&'a str);

impl<'a> Name<'a> {
    pub const fn new_unchecked(s: &'a str) -> Self {
        Name(s)
    }
    pub fn as_str(&self) -> &'a str {
        self.0
    }
}

impl<'b> PartialEq<Name<'b>> for Name<'_> {
    fn eq(&self, other: &Name<'b>) -> bool {
        self.0.eq_ignore_ascii_case(other.0)
    }
}
impl PartialEq<str> for Name<'_> {
    fn eq(&self, other: &str) -> bool {
        self.0.eq_ignore_ascii_case(other)
    }
}
impl PartialEq<&str> for Name<'_> {
    fn eq(&self, other: &&str) -> bool {
        self.0.eq_ignore_ascii_case(other)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Value<'a>(&'a str);

impl<'a> Value<'a> {
    pub fn as_str(&self) -> &'a str {
        self.0
    }
}

pub mod names {
    use super::Name;
    pub const _STAR: Name<'static> = Name::new_unchecked("*");
    pub const APPLICATION: Name<'static> = Name::new_unchecked("application");
    pub const MULTIPART: Name<'static> = Name::new_unchecked("multipart");
    pub const MIXED: Name<'static> = Name::new_unchecked("mixed");
    pub const TEXT: Name<'static> = Name::new_unchecked("text");
    pub const EVENT_STREAM: Name<'static> = Name::new_unchecked("event-stream");
    pub const JSON: Name<'static> = Name::new_unchecked("json");
}

#[derive(Debug, Clone)]
pub struct MediaType<'a> {
    pub ty: Name<'a>,
    pub subty: Name<'a>,
    pub suffix: Option<Name<'a>>,
    pub params: Cow<'a, [(Name<'a>, Value<'a>)]>,
}

#[derive(Debug)]
pub struct MediaTypeError;

impl<'a> MediaType<'a> {
    pub const fn new(ty: Name<'a>, subty: Name<'a>) -> Self {
        MediaType { ty, subty, suffix: None, params: Cow::Borrowed(&[]) }
    }
    pub const fn from_parts(
        ty: Name<'a>,
        subty: Name<'a>,
        suffix: Option<Name<'a>>,
        params: &'a [(Name<'a>, Value<'a>)],
    ) -> Self {
        MediaType { ty, subty, suffix, params: Cow::Borrowed(params) }
    }
    pub fn essence(&self) -> MediaType<'a> {
        MediaType { ty: self.ty, subty: self.subty, suffix: self.suffix, params: Cow::Borrowed(&[]) }
    }
    pub fn parse(s: &'a str) -> Result<Self, MediaTypeError> {
        let mut parts = s.split(';');
        let essence = parts.next().unwrap_or("").trim();
        let (ty, sub) = essence.split_once('/').ok_or(MediaTypeError)?;
        let token = |s: &str| {
            !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$&-^_.+*%'|~`".contains(&b))
        };
        if !token(ty) || !token(sub) {
            return Err(MediaTypeError);
        }
        let (subty, suffix) = match sub.rsplit_once('+') {
            Some((a, b)) if !a.is_empty() && !b.is_empty() => (a, Some(Name(b))),
            _ => (sub, None),
        };
        let mut params = vec![];
        for p in parts {
            let p = p.trim();
            if p.is_empty() {
                continue;
            }
            let (k, v) = p.split_once('=').ok_or(MediaTypeError)?;
            if !token(k) {
                return Err(MediaTypeError);
            }
            params.push((Name(k), Value(v.trim_matches('"'))));
        }
        Ok(MediaType { ty: Name(ty), subty: Name(subty), suffix, params: Cow::Owned(params) })
    }
}

impl std::fmt::Display for MediaType<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}/{}", self.ty.0, self.subty.0)?;
        if let Some(suffix) = self.suffix {
            write!(f, "+{}", suffix.0)?;
        }
        self.params.iter().try_for_each(|(k, v)| write!(f, "; {}={}", k.0, v.0))
    }
}

impl<'b> PartialEq<MediaType<'b>> for MediaType<'_> {
    fn eq(&self, other: &MediaType<'b>) -> bool {
        self.ty == other.ty && self.subty == other.subty && self.suffix == other.suffix && self.params.len() == other.params.len()
            && self.params.iter().zip(other.params.iter()).all(|(a, b)| a.0 == b.0 && a.1 .0 == b.1 .0)
    }
}

pub struct MediaTypeList<'a> {
    rest: std::str::Split<'a, char>,
}

impl<'a> MediaTypeList<'a> {
    pub fn new(s: &'a str) -> Self {
        MediaTypeList { rest: s.split(',') }
    }
}

impl<'a> Iterator for MediaTypeList<'a> {
    type Item = Result<MediaType<'a>, MediaTypeError>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let part = self.rest.next()?.trim();
            if !part.is_empty() {
                return Some(MediaType::parse(part));
            }
        }
    }
}
