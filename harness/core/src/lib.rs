//! Kani harnesses over the transport-independent, no_std part of postcard-rpc.
//! Naming: `cNN_*` = quick tier of property CNN, `tNN_*` = additional thorough-tier harnesses.
#![allow(dead_code, clippy::all)]

pub mod mock;
pub mod probe;
pub mod util;

#[cfg(kani)]
mod c01_header;
#[cfg(kani)]
mod c03_keys;
#[cfg(kani)]
mod c04_seq;
#[cfg(kani)]
mod c05_minkey;
#[cfg(kani)]
mod c06_cobs;
#[cfg(kani)]
mod c07_dispatch;
#[cfg(kani)]
mod c20_sender;
#[cfg(kani)]
mod c08_server;
#[cfg(kani)]
mod c09_schemas;
#[cfg(kani)]
mod c05_dispatch;
#[cfg(kani)]
mod c14_uniques;
