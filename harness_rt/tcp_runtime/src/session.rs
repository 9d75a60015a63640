//! The traits of /repo/runtime/src/session.rs; its implementations are Oak's.
use alloc::boxed::Box;
use alloc::sync::Arc;
use alloc::vec::Vec;
use anyhow::Result;
use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
use oak_proto_rust::oak::session::v1::{SessionRequest, SessionResponse};
use oak_time::Clock;

pub trait OakSessionFactory {
    fn init(
        &mut self,
        clock: Arc<dyn Clock>,
        reference_values: ReferenceValues,
        endorsements: Endorsements,
    );
    fn get_oak_client_session(&self) -> Result<Box<dyn OakClientSession>>;
    fn get_oak_server_session(&self) -> Result<Box<dyn OakServerSession>>;
}

pub trait OakSession<I, O> {
    fn put_incoming_message(&mut self, incoming_message: I) -> Result<Option<()>>;
    fn get_outgoing_message(&mut self) -> Result<Option<O>>;
    fn is_open(&self) -> bool;
    fn write(&mut self, plaintext: &[u8]) -> Result<()>;
    fn read(&mut self) -> Result<Option<Vec<u8>>>;
}

pub trait OakClientSession = OakSession<SessionResponse, SessionRequest>;
pub trait OakServerSession = OakSession<SessionRequest, SessionResponse>;
