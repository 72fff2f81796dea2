//! Model-checking harness for hibit_tree. See /verif/DESIGN.md.
#![allow(clippy::missing_safety_doc, clippy::type_complexity, private_bounds, non_camel_case_types)]

#[macro_use]
pub mod macros;
pub mod arena;
pub mod big;
pub mod fam;
pub mod forms;
pub mod hist;
pub mod norm;
pub mod ops;
pub mod spy;
pub mod step;
pub mod tiny;
pub mod run;
pub mod sut;
pub mod task;
pub mod val;

#[global_allocator]
static A: arena::Arena = arena::Arena;
