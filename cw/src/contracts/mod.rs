#[macro_use]
pub mod int;
pub mod inst;
pub mod calls;
pub mod control;
pub mod float;
pub mod memory;
pub mod misc;
pub mod place;
pub mod run;
pub mod wasi;
pub mod fold;
