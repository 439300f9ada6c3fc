//! Exhaustive explorers over the real highway-rs code. See /verif/DESIGN.md.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(static_mut_refs)]
extern crate alloc;

#[macro_use]
pub mod plat;
pub mod arb;
pub mod backends;
pub mod bfs;
#[cfg(all(feature = "std", target_os = "linux", target_arch = "x86_64", not(miri)))]
pub mod conc;
pub mod cross;
pub mod ctx;
pub mod data;
#[cfg(feature = "std")]
pub mod guard;
pub mod hist;
#[cfg(feature = "std")]
pub mod host;
#[cfg(feature = "std")]
pub mod huge;
#[cfg(all(feature = "std", unix, not(miri)))]
pub mod isol;
pub mod lattice;
pub mod run;
pub mod select;
pub mod spec;
pub mod vectors;
