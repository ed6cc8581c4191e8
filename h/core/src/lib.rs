//! Shared machinery: workload generation, reference semantics, monitors, runner.
pub mod alloc;
pub mod io;
pub mod model;
pub mod refparse;
pub mod rng;
pub mod runner;
pub mod schema;
