//! Stand-in for Oak's messages: the runtime passes them through and never looks inside.
pub mod oak {
    pub mod attestation {
        pub mod v1 {
            include!(concat!(env!("OUT_DIR"), "/oak.attestation.v1.rs"));
        }
    }
    pub mod session {
        pub mod v1 {
            include!(concat!(env!("OUT_DIR"), "/oak.session.v1.rs"));
        }
    }
}
