//! Names every public operation of mutringbuf, generically in the item type and for every kind of buffer.
//! Nothing in here is ever run: the functions are the entry points of the analysis.
#![no_std]
#![feature(allocator_api)]
#![allow(clippy::all, unused)]

#[cfg(feature = "alloc")]
extern crate alloc;

pub mod markers;
pub mod models;
pub mod roots;
