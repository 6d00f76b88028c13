#![allow(dead_code)]
pub mod cfg;
pub mod gen;
pub mod rt;
pub mod tok;
mod t0;
mod p1;
mod p2;
mod p3;
mod p4;
mod p5;
mod p6;
mod p7;
mod p8;
mod p9;
mod p10;
mod p11;
mod p12;
pub mod cli;
mod refp;
#[macro_use]
mod entries;
pub use entries::ENTRIES;
