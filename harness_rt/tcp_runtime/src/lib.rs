//! /repo/runtime/src/lib.rs without the parts that need Oak itself: the modules are links to it.
#![feature(trait_alias)]
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
extern crate anyhow;
#[cfg(feature = "std")]
extern crate core;
extern crate hashbrown;
extern crate oak_proto_rust;
extern crate prost;
extern crate raft;
extern crate slog;
extern crate tcp_proto;

pub mod communication;
pub mod consensus;
pub mod driver;
pub mod encryptor;
pub mod handshake;
pub mod logger;
pub mod model;
pub mod platform;
pub mod session;
pub mod snapshot;
pub mod storage;
pub mod util;

#[cfg(not(feature = "std"))]
use core::error::Error as StdError;
#[cfg(feature = "std")]
use std::error::Error as StdError;
