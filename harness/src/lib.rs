#![allow(clippy::all)]
pub mod big;
pub mod facade;
pub mod keys;
pub mod oracle;
pub mod runner;
pub mod progs;
pub mod inv;
