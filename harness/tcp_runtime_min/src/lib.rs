//! The modules of /repo/runtime/src (linked here) that need neither Oak nor raft-rs.
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
#[cfg(feature = "std")]
extern crate core;
extern crate slog;
extern crate tcp_proto;

pub mod logger;
pub mod platform;

#[cfg(not(feature = "std"))]
use core::error::Error as StdError;
#[cfg(feature = "std")]
use std::error::Error as StdError;
