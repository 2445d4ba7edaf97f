//! Kani harnesses over the USB device transport (embassy-usb 0.3 and 0.4).
#![allow(dead_code, unused_imports, clippy::all, static_mut_refs)]
pub mod drv;
#[cfg(kani)]
#[macro_use]
mod common;
#[cfg(kani)]
mod c15_tx;
#[cfg(kani)]
mod c16_rx;
#[cfg(kani)]
mod c17_log;
