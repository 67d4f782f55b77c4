pub mod fed;
pub mod gql;
pub mod lab;
pub mod ops;
pub mod rt;
pub mod shrink;
pub mod view;
pub mod world;
pub mod judge;
