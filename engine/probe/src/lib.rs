#![feature(formatting_options)]
//! Abstract entry points: one function per (property, format, case).  Compiled, never run.
pub mod rt;
pub mod spec;
pub mod entries;
