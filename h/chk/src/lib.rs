#![allow(clippy::all)]
#[macro_use]
extern crate fourleaf;
pub mod hostile;
pub mod t1;
pub mod t2;
pub mod t3;
pub mod t4;
pub mod t5;
pub mod t6;
pub mod t7;
pub mod t8;
pub mod t9;
pub mod t10;
pub mod t11;
pub mod t12;
pub mod t13;
pub mod util;
pub use flstrm::*;
