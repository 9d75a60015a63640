//! The same modules, as they are compiled for targets without the standard library.
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
#[cfg(feature = "std")]
extern crate core;
extern crate slog;
extern crate tcp_proto;

pub mod logger;
pub mod platform;

#[cfg(not(feature = "std"))]
use core::error::Error as StdError;
#[cfg(feature = "std")]
use std::error::Error as StdError;
