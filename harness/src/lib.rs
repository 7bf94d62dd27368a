#[macro_use]
pub mod engine;
pub mod gen;
pub mod mtree;
pub mod props;
pub mod text;
