//! /repo/apps/tablet_cache/service/src/lib.rs: the modules are links to it.
#![cfg_attr(not(feature = "std"), no_std)]

extern crate alloc;
extern crate hashbrown;
extern crate prost;
extern crate slog;
extern crate tcp_runtime;
extern crate tcp_tablet_store_service;

pub mod apps {
    pub mod tablet_cache {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_cache.service.rs"));
        }
    }
}

pub mod actor;
pub mod store;
pub mod transaction;
