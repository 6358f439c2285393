pub mod abnf;
pub mod case;
pub mod dfa;
pub mod dict;
pub mod engine;
pub mod r#gen;
pub mod props;
pub mod rfc;
#[macro_use]
pub mod types;
