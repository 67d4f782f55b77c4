//! Only what it takes to compile: templates are kept, never rendered.
use std::{borrow::Cow, fmt};

#[derive(Debug)]
pub struct Error;

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid template")
    }
}

impl std::error::Error for Error {}

pub struct Template<'a> {
    source: Cow<'a, str>,
}

impl<'a> Template<'a> {
    pub fn new(source: impl Into<Cow<'a, str>>) -> Result<Self, Error> {
        Ok(Self { source: source.into() })
    }
    pub fn source(&self) -> &str {
        &self.source
    }
    pub fn capacity_hint(&self) -> usize {
        self.source.len()
    }
    pub fn render<C: Content>(&self, _content: &C) -> String {
        unimplemented!("stand-in for ramhorns: templates are not rendered")
    }
}

pub mod encoding {
    use std::fmt::Display;
    pub trait Encoder {
        type Error;
        fn write_unescaped(&mut self, part: &str) -> Result<(), Self::Error>;
        fn write_escaped(&mut self, part: &str) -> Result<(), Self::Error>;
        fn format_unescaped<D: Display>(&mut self, display: D) -> Result<(), Self::Error>;
        fn format_escaped<D: Display>(&mut self, display: D) -> Result<(), Self::Error>;
    }
}

pub mod traits {
    pub trait ContentSequence {}
    impl ContentSequence for () {}
}

pub struct Section<'a, C> {
    _marker: std::marker::PhantomData<(&'a (), C)>,
}

impl<'a, C> Section<'a, C> {
    pub fn with<X: ?Sized>(self, _content: &X) -> Self {
        self
    }
    pub fn render<E: encoding::Encoder>(&self, _encoder: &mut E) -> Result<(), E::Error> {
        unimplemented!("stand-in for ramhorns: templates are not rendered")
    }
}

pub fn render_indexed_content_section<C, E: encoding::Encoder, X>(
    _content: impl Iterator<Item = X>,
    _section: Section<'_, C>,
    _encoder: &mut E,
) -> Result<(), E::Error> {
    unimplemented!("stand-in for ramhorns: templates are not rendered")
}

pub trait Content {
    fn is_truthy(&self) -> bool;
    fn capacity_hint(&self, tpl: &Template<'_>) -> usize;
    fn render_escaped<E: encoding::Encoder>(&self, encoder: &mut E) -> Result<(), E::Error>;
    fn render_unescaped<E: encoding::Encoder>(&self, encoder: &mut E) -> Result<(), E::Error>;
    fn render_section<C, E>(&self, section: Section<'_, C>, encoder: &mut E) -> Result<(), E::Error>
    where
        C: traits::ContentSequence,
        E: encoding::Encoder;
    fn render_inverse<C, E>(&self, section: Section<'_, C>, encoder: &mut E) -> Result<(), E::Error>
    where
        C: traits::ContentSequence,
        E: encoding::Encoder;
    fn render_field_escaped<E>(&self, hash: u64, name: &str, encoder: &mut E) -> Result<bool, E::Error>
    where
        E: encoding::Encoder;
    fn render_field_unescaped<E>(&self, hash: u64, name: &str, encoder: &mut E) -> Result<bool, E::Error>
    where
        E: encoding::Encoder;
    fn render_field_section<C, E>(
        &self,
        hash: u64,
        name: &str,
        section: Section<'_, C>,
        encoder: &mut E,
    ) -> Result<bool, E::Error>
    where
        C: traits::ContentSequence,
        E: encoding::Encoder;
    fn render_field_inverse<C, E>(
        &self,
        hash: u64,
        name: &str,
        section: Section<'_, C>,
        encoder: &mut E,
    ) -> Result<bool, E::Error>
    where
        C: traits::ContentSequence,
        E: encoding::Encoder;
}
