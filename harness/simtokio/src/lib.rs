//! A facade over tokio for deterministic simulation.
//!
//! Everything is the real tokio 1.37.0 except `tokio::net` (in-memory sockets
//! whose timing, segmentation, back-pressure and faults the harness owns),
//! `tokio::signal` (an interrupt the harness raises), the spawning of tasks
//! (in an order the harness varies: the broker's runtime has ten threads) and
//! `#[tokio::main]` (the broker's entry point becomes a future the harness can run).
pub use real_tokio::*;

pub use simtokio_macros::main;

pub mod net;
pub mod signal;
pub mod sim;
pub mod task;
pub use task::spawn;
