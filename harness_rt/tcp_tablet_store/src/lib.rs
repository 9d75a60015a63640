//! /repo/apps/tablet_store/service/src/lib.rs: the modules are links to it.
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
extern crate hashbrown;
extern crate prost;
extern crate slog;
extern crate tcp_runtime;

pub mod apps {
    pub mod tablet_store {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs"));
        }
    }
}

pub mod actor;
