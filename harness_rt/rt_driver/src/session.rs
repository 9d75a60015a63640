//! Sessions with the interface of Oak's: two round trips that authenticate both ends, then
//! authenticated encryption whose receiver rejects replays and accepts messages out of order
//! within a window of three, like the channel that the runtime configures. Each end proves with
//! its endorsements what it runs, and the other one compares them with its reference values.
//! Everything that is sealed is registered, so that the driver recognizes what leaves a replica.

use anyhow::{anyhow, Result};
use oak_proto_rust::oak::attestation::v1::{
    reference_values, Endorsements, OakRestrictedKernelReferenceValues, ReferenceValues, RootLayerReferenceValues,
};
use oak_proto_rust::oak::session::v1::{
    session_request::Request, session_response::Response, AttestRequest, AttestResponse,
    EncryptedMessage, HandshakeRequest, HandshakeResponse, SessionRequest, SessionResponse,
};
use oak_time::Clock;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::sync::Arc;
use tcp_runtime::session::{OakClientSession, OakServerSession, OakSession, OakSessionFactory};

const SECRET: u64 = 0x5eed_5eed_1234_4321;
const WINDOW: u64 = 3;

fn mix(words: &[u64]) -> u64 {
    let mut h = 0x9E37_79B9_7F4A_7C15u64;
    for w in words {
        h ^= *w;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 29;
        h = h.wrapping_mul(0x94D0_49BB_1331_11EB);
        h ^= h >> 32;
    }
    h
}

fn digest(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = mix(&[seed, bytes.len() as u64]);
    for c in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(&[h, u64::from_le_bytes(b)]);
    }
    h
}

fn word(bytes: &[u8]) -> Option<u64> {
    bytes.try_into().ok().map(u64::from_le_bytes)
}

/// What a session has sealed: with which key, in which direction, as which message.
#[derive(Clone)]
pub struct Seal {
    pub c: u64,
    pub s: u64,
    pub client: bool,
    pub number: u64,
    pub plaintext: Vec<u8>,
}

#[derive(Default)]
struct Registry {
    fresh: u64,
    numbers: HashMap<u64, u64>,
    sealed: HashMap<(Vec<u8>, Vec<u8>), Seal>,
    handshakes: HashMap<Vec<u8>, (u64, u64, u64)>,
    factories: Vec<(ReferenceValues, Endorsements)>,
    times: Vec<i64>,
}

std::thread_local! {
    static REGISTRY: RefCell<Registry> = RefCell::new(Registry::default());
}

/// Forgets the previous run.
pub fn reset() {
    REGISTRY.with(|r| *r.borrow_mut() = Registry::default());
}

/// Is this what a session has sealed?
pub fn sealed(nonce: &[u8], ciphertext: &[u8]) -> bool {
    seal_of(nonce, ciphertext).is_some()
}

/// What has been sealed like this.
pub fn seal_of(nonce: &[u8], ciphertext: &[u8]) -> Option<Seal> {
    REGISTRY.with(|r| r.borrow().sealed.get(&(nonce.to_vec(), ciphertext.to_vec())).cloned())
}

/// With what the last factory that has been told has been told to work.
pub fn last_told() -> Option<(ReferenceValues, Endorsements)> {
    REGISTRY.with(|r| r.borrow().factories.last().cloned())
}

/// The times of the sessions that have been made since the last call.
pub fn take_times() -> Vec<i64> {
    REGISTRY.with(|r| std::mem::take(&mut r.borrow_mut().times))
}

/// Endorsements of a replica of a certain kind.
pub fn endorsements(kind: u8) -> Endorsements {
    Endorsements { contents: vec![0xE0, kind] }
}

/// Reference values that only replicas of a certain kind satisfy.
pub fn reference_values(kind: u8) -> ReferenceValues {
    ReferenceValues {
        r#type: Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer: Some(RootLayerReferenceValues { insecure: None, other: endorsements(kind).contents }),
            ..Default::default()
        })),
    }
}

/// Reference values that every replica satisfies.
pub fn any_reference_values() -> ReferenceValues {
    ReferenceValues {
        r#type: Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer: Some(RootLayerReferenceValues { insecure: Some(Default::default()), ..Default::default() }),
            ..Default::default()
        })),
    }
}

fn satisfied(values: &ReferenceValues, endorsed: u64) -> bool {
    match &values.r#type {
        Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer: Some(root),
            ..
        })) => root.insecure.is_some() || digest(3, &root.other) == endorsed,
        _ => false,
    }
}

/// The numbers of the session that a message of the handshake belongs to, and the digest of the
/// endorsements that it comes with.
pub fn handshake_of(contents: &[u8]) -> Option<(u64, u64, u64)> {
    REGISTRY.with(|r| r.borrow().handshakes.get(contents).copied())
}

fn number(word: u64) -> u64 {
    REGISTRY.with(|r| r.borrow().numbers.get(&word).copied().unwrap_or(0))
}

/// Do these endorsements, known by their digest, satisfy the reference values for a kind?
pub fn is_of_kind(kind: u8, endorsed: u64) -> bool {
    satisfied(&reference_values(kind), endorsed)
}

fn register(contents: &[u8], c: u64, s: u64, endorsed: u64) {
    let known = (number(c), number(s), endorsed);
    REGISTRY.with(|r| r.borrow_mut().handshakes.insert(contents.to_vec(), known));
}

fn fresh() -> u64 {
    REGISTRY.with(|r| {
        let mut r = r.borrow_mut();
        r.fresh += 1;
        let word = mix(&[r.fresh, 77]);
        let n = r.fresh;
        r.numbers.insert(word, n);
        word
    })
}

struct Channel {
    c: u64,
    s: u64,
    key: u64,
    client: bool,
    sent: u64,
    top: u64,
    seen: BTreeSet<u64>,
}

impl Channel {
    fn new(c: u64, s: u64, client: bool) -> Self {
        Channel { c, s, key: mix(&[SECRET, c, s]), client, sent: 0, top: 0, seen: BTreeSet::new() }
    }

    fn apply(&self, dir: u64, ctr: u64, bytes: &mut [u8]) {
        for (i, b) in bytes.iter_mut().enumerate() {
            *b ^= mix(&[self.key, dir, ctr, i as u64]) as u8;
        }
    }

    fn seal(&mut self, plaintext: &[u8]) -> EncryptedMessage {
        self.sent += 1;
        let dir = self.client as u64;
        let tag = digest(mix(&[self.key, dir, self.sent]), plaintext);
        let mut ciphertext = plaintext.to_vec();
        self.apply(dir, self.sent, &mut ciphertext);
        ciphertext.extend_from_slice(&tag.to_le_bytes());
        let nonce = self.sent.to_le_bytes().to_vec();
        let seal = Seal {
            c: number(self.c),
            s: number(self.s),
            client: self.client,
            number: self.sent,
            plaintext: plaintext.to_vec(),
        };
        REGISTRY.with(|r| r.borrow_mut().sealed.insert((nonce.clone(), ciphertext.clone()), seal));
        EncryptedMessage { ciphertext, associated_data: None, nonce: Some(nonce) }
    }

    fn open(&mut self, m: &EncryptedMessage) -> Result<Vec<u8>> {
        let dir = !self.client as u64;
        let ctr = m.nonce.as_deref().and_then(word).ok_or_else(|| anyhow!("bad nonce"))?;
        if m.ciphertext.len() < 8 {
            return Err(anyhow!("too short"));
        }
        let (body, tag) = m.ciphertext.split_at(m.ciphertext.len() - 8);
        let mut plaintext = body.to_vec();
        self.apply(dir, ctr, &mut plaintext);
        if digest(mix(&[self.key, dir, ctr]), &plaintext) != word(tag).unwrap() {
            return Err(anyhow!("not authentic"));
        }
        if ctr + WINDOW <= self.top || self.seen.contains(&ctr) {
            return Err(anyhow!("replayed or too old"));
        }
        self.seen.insert(ctr);
        self.top = self.top.max(ctr);
        Ok(plaintext)
    }
}

#[derive(PartialEq)]
enum Phase {
    Attest,
    Handshake,
    Finish,
    Open,
}

struct Core {
    phase: Phase,
    values: ReferenceValues,
    endorsed: u64,
    c: u64,
    s: u64,
    channel: Option<Channel>,
    read: VecDeque<Vec<u8>>,
}

impl Core {
    fn new(values: ReferenceValues, endorsements: &Endorsements) -> Self {
        let endorsed = digest(3, &endorsements.contents);
        Core { phase: Phase::Attest, values, endorsed, c: 0, s: 0, channel: None, read: VecDeque::new() }
    }
    fn open(&mut self, client: bool) {
        self.phase = Phase::Open;
        self.channel = Some(Channel::new(self.c, self.s, client));
    }
    fn proof(&self, what: u64) -> Vec<u8> {
        mix(&[SECRET, self.c, self.s, what]).to_le_bytes().to_vec()
    }
    fn receive(&mut self, m: &EncryptedMessage) -> Result<Option<()>> {
        let channel = self.channel.as_mut().ok_or_else(|| anyhow!("session is not open"))?;
        let plaintext = channel.open(m)?;
        self.read.push_back(plaintext);
        Ok(Some(()))
    }
    fn seal(&mut self, plaintext: &[u8]) -> Result<EncryptedMessage> {
        Ok(self.channel.as_mut().ok_or_else(|| anyhow!("session is not open"))?.seal(plaintext))
    }
}

pub struct Client {
    core: Core,
    out: VecDeque<SessionRequest>,
}

impl OakSession<SessionResponse, SessionRequest> for Client {
    fn put_incoming_message(&mut self, m: SessionResponse) -> Result<Option<()>> {
        match (m.response, &self.core.phase) {
            (Some(Response::AttestResponse(r)), Phase::Handshake) => {
                if r.contents.len() != 24 {
                    return Err(anyhow!("bad attest response"));
                }
                self.core.s = word(&r.contents[..8]).unwrap();
                let endorsed = word(&r.contents[8..16]).unwrap();
                if r.contents[16..] != self.core.proof(endorsed)[..] || !satisfied(&self.core.values, endorsed) {
                    return Err(anyhow!("attestation failed"));
                }
                let contents = self.core.proof(2);
                register(&contents, self.core.c, self.core.s, 0);
                self.out.push_back(SessionRequest {
                    request: Some(Request::HandshakeRequest(HandshakeRequest { contents })),
                });
                self.core.phase = Phase::Finish;
                Ok(Some(()))
            }
            (Some(Response::HandshakeResponse(r)), Phase::Finish) => {
                if r.contents != self.core.proof(3) {
                    return Err(anyhow!("handshake failed"));
                }
                self.core.open(true);
                Ok(Some(()))
            }
            (Some(Response::EncryptedMessage(m)), Phase::Open) => self.core.receive(&m),
            _ => Err(anyhow!("unexpected response")),
        }
    }

    fn get_outgoing_message(&mut self) -> Result<Option<SessionRequest>> {
        if self.core.phase == Phase::Attest {
            self.core.c = fresh();
            self.core.phase = Phase::Handshake;
            let mut contents = self.core.c.to_le_bytes().to_vec();
            contents.extend_from_slice(&self.core.endorsed.to_le_bytes());
            contents.extend_from_slice(&mix(&[SECRET, self.core.c, self.core.endorsed]).to_le_bytes());
            register(&contents, self.core.c, 0, self.core.endorsed);
            return Ok(Some(SessionRequest {
                request: Some(Request::AttestRequest(AttestRequest { contents })),
            }));
        }
        Ok(self.out.pop_front())
    }

    fn is_open(&self) -> bool {
        self.core.phase == Phase::Open
    }

    fn write(&mut self, plaintext: &[u8]) -> Result<()> {
        let m = self.core.seal(plaintext)?;
        self.out.push_back(SessionRequest { request: Some(Request::EncryptedMessage(m)) });
        Ok(())
    }

    fn read(&mut self) -> Result<Option<Vec<u8>>> {
        Ok(self.core.read.pop_front())
    }
}

pub struct Server {
    core: Core,
    out: VecDeque<SessionResponse>,
}

impl OakSession<SessionRequest, SessionResponse> for Server {
    fn put_incoming_message(&mut self, m: SessionRequest) -> Result<Option<()>> {
        match (m.request, &self.core.phase) {
            (Some(Request::AttestRequest(r)), Phase::Attest) => {
                if r.contents.len() != 24 {
                    return Err(anyhow!("bad attest request"));
                }
                self.core.c = word(&r.contents[..8]).unwrap();
                let endorsed = word(&r.contents[8..16]).unwrap();
                if word(&r.contents[16..]).unwrap() != mix(&[SECRET, self.core.c, endorsed])
                    || !satisfied(&self.core.values, endorsed)
                {
                    return Err(anyhow!("attestation failed"));
                }
                self.core.s = fresh();
                let mut contents = self.core.s.to_le_bytes().to_vec();
                contents.extend_from_slice(&self.core.endorsed.to_le_bytes());
                contents.extend_from_slice(&self.core.proof(self.core.endorsed));
                register(&contents, self.core.c, self.core.s, self.core.endorsed);
                self.out.push_back(SessionResponse {
                    response: Some(Response::AttestResponse(AttestResponse { contents })),
                });
                self.core.phase = Phase::Handshake;
                Ok(Some(()))
            }
            (Some(Request::HandshakeRequest(r)), Phase::Handshake) => {
                if r.contents != self.core.proof(2) {
                    return Err(anyhow!("handshake failed"));
                }
                let contents = self.core.proof(3);
                register(&contents, self.core.c, self.core.s, 0);
                self.out.push_back(SessionResponse {
                    response: Some(Response::HandshakeResponse(HandshakeResponse { contents })),
                });
                self.core.open(false);
                Ok(Some(()))
            }
            (Some(Request::EncryptedMessage(m)), Phase::Open) => self.core.receive(&m),
            _ => Err(anyhow!("unexpected request")),
        }
    }

    fn get_outgoing_message(&mut self) -> Result<Option<SessionResponse>> {
        Ok(self.out.pop_front())
    }

    fn is_open(&self) -> bool {
        self.core.phase == Phase::Open
    }

    fn write(&mut self, plaintext: &[u8]) -> Result<()> {
        let m = self.core.seal(plaintext)?;
        self.out.push_back(SessionResponse { response: Some(Response::EncryptedMessage(m)) });
        Ok(())
    }

    fn read(&mut self) -> Result<Option<Vec<u8>>> {
        Ok(self.core.read.pop_front())
    }
}

#[derive(Default)]
pub struct Factory {
    clock: Option<Arc<dyn Clock>>,
    values: ReferenceValues,
    endorsements: Endorsements,
}

impl Factory {
    /// What a session proves and checks is valid at a certain time.
    fn core(&self) -> Core {
        let time = self.clock.as_ref().map_or(-1, |c| c.get_time().into_unix_millis());
        REGISTRY.with(|r| r.borrow_mut().times.push(time));
        Core::new(self.values.clone(), &self.endorsements)
    }
}

impl OakSessionFactory for Factory {
    fn init(&mut self, clock: Arc<dyn Clock>, values: ReferenceValues, endorsements: Endorsements) {
        REGISTRY.with(|r| r.borrow_mut().factories.push((values.clone(), endorsements.clone())));
        self.clock = Some(clock);
        self.values = values;
        self.endorsements = endorsements;
    }
    fn get_oak_client_session(&self) -> Result<Box<dyn OakClientSession>> {
        Ok(Box::new(Client { core: self.core(), out: VecDeque::new() }))
    }
    fn get_oak_server_session(&self) -> Result<Box<dyn OakServerSession>> {
        Ok(Box::new(Server { core: self.core(), out: VecDeque::new() }))
    }
}
