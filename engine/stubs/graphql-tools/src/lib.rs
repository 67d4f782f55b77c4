//! Only what it takes to compile.
pub mod static_graphql {
    pub mod schema {
        #[derive(Debug)]
        pub struct Document;
    }
}
pub mod parser {
    pub struct Parsed;
    impl Parsed {
        pub fn into_static(self) -> super::static_graphql::schema::Document {
            super::static_graphql::schema::Document
        }
    }
    pub fn parse_schema(_sdl: &str) -> Result<Parsed, String> {
        Ok(Parsed)
    }
}
