//! Generator, reference model and runner; knows nothing about the crate under test.
pub mod ast;
pub mod dict;
pub mod gen;
pub mod names;
pub mod refparse;
pub mod runner;
pub mod src;
pub use ast::*;
pub use dict::*;
pub use gen::*;
pub use names::*;
pub use refparse::*;
pub use runner::*;
pub use src::*;
