//! /repo/apps/atomic_counter/service/src/lib.rs: the modules are links to it.
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
extern crate hashbrown;
extern crate prost;
extern crate slog;
extern crate tcp_runtime;

pub mod apps {
    pub mod atomic_counter {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.atomic_counter.service.rs"));
        }
    }
}

pub mod actor;
