//! Checks at the level of the element stream.
#![allow(clippy::all)]
pub mod kinds;
pub mod read;
pub mod blob;
pub mod cursor;
pub mod write;
pub mod wsparse;
pub mod more;
pub mod wirec;
pub mod giant;
