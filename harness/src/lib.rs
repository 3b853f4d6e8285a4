#![allow(clippy::all)]
#[macro_use]
pub mod sx;
include!("mods.rs");
