//! Oracles, workload generators and reporting shared by the monitors.
//! Nothing in this library depends on the code under test.
pub mod cli;
pub mod dp;
pub mod gen;
pub mod procspec;
pub mod report;
pub mod rng;
pub mod tset;
