pub mod api;
pub mod engine;
pub mod gen;
pub mod tree;
pub mod val;
pub mod soup;
pub mod oracle;
pub mod reflex;
pub mod meta;
pub mod trees;
pub mod prec;
pub mod contexts;
pub mod runner;
pub mod dict;
pub mod rules;
pub mod nest;
pub mod wasm;
pub mod work;
pub mod suites;
pub mod malformed;
