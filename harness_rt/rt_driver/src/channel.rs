//! Drives the communication modules of several replicas, with the host's network between them:
//! it delivers, keeps, repeats, drops, changes and relabels whatever the modules emit.

use crate::session;
use oak_proto_rust::oak::session::v1::{
    session_request::Request, session_response::Response, EncryptedMessage, SessionRequest, SessionResponse,
};
use oak_time::Clock;
use prost::bytes::Bytes;
use raft::eraftpb::MessageType;
use std::collections::HashMap;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::secure_channel_handshake::{
    noise_protocol, Encryption, NoiseProtocol,
};
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::{
    CommunicationConfig, CommunicationModule, DefaultCommunicationModule, OutgoingMessage,
};
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use vcommon::{obj, Rec, Rng, J};

struct Still;
impl Clock for Still {
    fn get_time(&self) -> oak_time::Instant {
        oak_time::Instant::default()
    }
}

/// Something that a module has emitted.
#[derive(Clone)]
struct Wire {
    from: u64,
    to: u64,
    msg: in_message::Msg,
}

struct World<'a> {
    rec: &'a Rec,
    modules: Vec<DefaultCommunicationModule>,
    timeout: u64,
    retry: u64,
    // Replicas that run something else: nobody else trusts them.
    rogue: Vec<u64>,
    wire: Vec<Wire>,
    // The first message that has not been delivered in order.
    next: usize,
    ids: i64,
    contents: HashMap<Vec<u8>, i64>,
    sent: HashMap<i64, (u64, u64, u64)>,
    members: Vec<u64>,
}

const KINDS: [&str; 4] = ["hb", "sys", "req", "resp"];

fn side_of(m: &SecureChannelHandshake) -> (&'static str, Option<Vec<u8>>, &'static str) {
    match &m.encryption {
        Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(m) })) => match m {
            noise_protocol::Message::InitiatorRequest(r) => {
                let (body, contents) = match &r.message {
                    Some(noise_protocol::initiator_request::Message::SessionRequest(r)) => match &r.request {
                        Some(Request::AttestRequest(a)) => ("areq", Some(a.contents.clone())),
                        Some(Request::HandshakeRequest(a)) => ("hreq", Some(a.contents.clone())),
                        _ => ("bad", None),
                    },
                    None => ("bad", None),
                };
                ("req", contents, body)
            }
            noise_protocol::Message::RecipientResponse(r) => {
                let (body, contents) = match &r.message {
                    Some(noise_protocol::recipient_response::Message::SessionResponse(r)) => match &r.response {
                        Some(Response::AttestResponse(a)) => ("aresp", Some(a.contents.clone())),
                        Some(Response::HandshakeResponse(a)) => ("hresp", Some(a.contents.clone())),
                        _ => ("bad", None),
                    },
                    None => ("bad", None),
                };
                ("resp", contents, body)
            }
        },
        _ => ("none", None, "bad"),
    }
}

fn payload_of(m: &in_message::Msg) -> Option<&Payload> {
    match m {
        in_message::Msg::DeliverSystemMessage(m) => m.payload.as_ref(),
        in_message::Msg::DeliverSnapshotRequest(m) => m.payload.as_ref(),
        in_message::Msg::DeliverSnapshotResponse(m) => m.payload.as_ref(),
        _ => None,
    }
}

fn payload_mut(m: &mut in_message::Msg) -> Option<&mut Option<Payload>> {
    match m {
        in_message::Msg::DeliverSystemMessage(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotRequest(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotResponse(m) => Some(&mut m.payload),
        _ => None,
    }
}

fn kind_of(m: &in_message::Msg) -> &'static str {
    match m {
        in_message::Msg::SecureChannelHandshake(_) => "hs",
        in_message::Msg::DeliverSystemMessage(_) => "sys",
        in_message::Msg::DeliverSnapshotRequest(_) => "req",
        in_message::Msg::DeliverSnapshotResponse(_) => "resp",
        _ => "other",
    }
}

fn ends_of(m: &in_message::Msg) -> (u64, u64) {
    match m {
        in_message::Msg::SecureChannelHandshake(m) => (m.sender_replica_id, m.recipient_replica_id),
        in_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id),
        in_message::Msg::DeliverSnapshotRequest(m) => (m.sender_replica_id, m.recipient_replica_id),
        in_message::Msg::DeliverSnapshotResponse(m) => (m.sender_replica_id, m.recipient_replica_id),
        _ => (0, 0),
    }
}

fn delivery_of(m: &in_message::Msg) -> u64 {
    match m {
        in_message::Msg::DeliverSnapshotRequest(m) => m.delivery_id,
        in_message::Msg::DeliverSnapshotResponse(m) => m.delivery_id,
        _ => 0,
    }
}

fn set_sender(m: &mut in_message::Msg, from: u64) {
    match m {
        in_message::Msg::SecureChannelHandshake(m) => m.sender_replica_id = from,
        in_message::Msg::DeliverSystemMessage(m) => m.sender_replica_id = from,
        in_message::Msg::DeliverSnapshotRequest(m) => m.sender_replica_id = from,
        in_message::Msg::DeliverSnapshotResponse(m) => m.sender_replica_id = from,
        _ => {}
    }
}

fn to_in(m: out_message::Msg) -> Option<in_message::Msg> {
    match m {
        out_message::Msg::SecureChannelHandshake(m) => Some(in_message::Msg::SecureChannelHandshake(m)),
        out_message::Msg::DeliverSystemMessage(m) => Some(in_message::Msg::DeliverSystemMessage(m)),
        out_message::Msg::DeliverSnapshotRequest(m) => Some(in_message::Msg::DeliverSnapshotRequest(m)),
        out_message::Msg::DeliverSnapshotResponse(m) => Some(in_message::Msg::DeliverSnapshotResponse(m)),
        _ => None,
    }
}

impl<'a> World<'a> {
    fn new(rec: &'a Rec, n: u64, timeout: u64, retry: u64, rogue: Vec<u64>) -> Self {
        session::reset();
        rec.ev(obj! {"e": "cf", "n": n, "timeout": timeout, "retry": retry, "rogue": rogue.clone()});
        let modules = (1..=n)
            .map(|id| {
                let provider = DefaultHandshakeSessionProvider::new(Box::new(session::Factory::default()));
                let bad = rogue.contains(&id);
                let mut m = DefaultCommunicationModule::new(Box::new(provider));
                m.init(
                    id,
                    slog::Logger::root(slog::Discard, slog::o!()),
                    Arc::new(Still),
                    CommunicationConfig {
                        handshake_retry_tick: retry,
                        handshake_initiated_tick_timeout: timeout as u32,
                        reference_values: if bad {
                            session::any_reference_values()
                        } else {
                            session::reference_values(1)
                        },
                        endorsements: session::endorsements(if bad { 2 } else { 1 }),
                    },
                );
                m
            })
            .collect();
        World {
            rec,
            modules,
            timeout,
            retry,
            rogue,
            wire: vec![],
            next: 0,
            ids: 0,
            contents: HashMap::new(),
            sent: HashMap::new(),
            members: (1..=n).collect(),
        }
    }

    fn n(&self) -> u64 {
        self.modules.len() as u64
    }

    /// What the specification has to know about a message.
    fn describe(&self, msg: &in_message::Msg) -> J {
        let t = kind_of(msg);
        if let in_message::Msg::SecureChannelHandshake(h) = msg {
            let (side, contents, body) = side_of(h);
            let known = contents.and_then(|c| session::handshake_of(&c));
            let (c, s, endorsed) = known.unwrap_or((0, 0, 0));
            return obj! {"t": t, "side": side, "b": body, "c": c, "s": s, "d": 0, "n": 0, "id": -1,
            "good": known.is_some(), "fit": session::is_of_kind(1, endorsed)};
        }
        let seal = payload_of(msg).and_then(|p| session::seal_of(&p.nonce, &p.contents));
        match seal {
            Some(x) => {
                let id = self.contents.get(&x.plaintext).copied().unwrap_or(-2);
                obj! {"t": t, "side": "", "b": "", "c": x.c, "s": x.s, "d": x.client as i64,
                "n": x.number, "id": id, "good": true, "fit": true}
            }
            None => obj! {"t": t, "side": "", "b": "", "c": 0, "s": 0, "d": 0, "n": 0, "id": -1, "good": false,
                "fit": false},
        }
    }

    fn send(&mut self, m: u64, p: u64, k: &str, rng: &mut Rng) -> i64 {
        self.ids += 1;
        let id = self.ids;
        let mut contents = format!("m{}", id).into_bytes();
        contents.extend((0..*rng.pick(&[0usize, 0, 3, 60])).map(|_| rng.next() as u8));
        self.contents.insert(contents.clone(), id);
        let delivery_id = rng.below(1000) as u64;
        self.sent.insert(id, (m, p, if k == "req" || k == "resp" { delivery_id } else { 0 }));
        let payload = Some(Payload { contents: Bytes::from(contents), ..Default::default() });
        let system = |t: MessageType, payload: Option<Payload>| {
            OutgoingMessage::DeliverSystemMessage(
                DeliverSystemMessage {
                    recipient_replica_id: p,
                    sender_replica_id: m,
                    payload,
                    ..Default::default()
                },
                t,
            )
        };
        let out = match k {
            "hb" => system(MessageType::MsgHeartbeat, payload),
            "sys" => {
                use MessageType::*;
                system(
                    *rng.pick(&[MsgAppend, MsgAppendResponse, MsgHeartbeatResponse, MsgRequestVote, MsgSnapshot, MsgTimeoutNow]),
                    payload,
                )
            }
            "req" => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest {
                recipient_replica_id: p,
                sender_replica_id: m,
                delivery_id,
                payload,
                ..Default::default()
            }),
            _ => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse {
                recipient_replica_id: p,
                sender_replica_id: m,
                delivery_id,
                payload,
                ..Default::default()
            }),
        };
        let at = self.rec.len();
        let ok = self.modules[m as usize - 1].process_out_message(out).is_ok();
        debug_assert!(at == self.rec.len());
        self.rec.ev(obj! {"e": "send", "m": m, "p": p, "k": k, "id": id, "ok": ok});
        id
    }

    fn out(&mut self, m: u64) {
        let mut seen = vec![];
        for o in self.modules[m as usize - 1].take_out_messages() {
            let Some(msg) = o.msg.and_then(to_in) else { continue };
            let (from, to) = ends_of(&msg);
            let mut d = self.describe(&msg);
            let id = d.get("id").int();
            let same = match self.sent.get(&id) {
                Some((_, p, delivery)) => *p == to && *delivery == delivery_of(&msg),
                None => false,
            };
            if let J::O(fields) = &mut d {
                fields.push(("from".to_string(), J::from(from)));
                fields.push(("to".to_string(), J::from(to)));
                fields.push(("same".to_string(), J::from(same)));
            }
            seen.push(d);
            if to >= 1 && to <= self.n() {
                self.wire.push(Wire { from, to, msg });
            }
        }
        if !seen.is_empty() || !self.rec.last(|_| true).map_or(false, |e| e.get("e").text() == "out") {
            self.rec.ev(obj! {"e": "out", "m": m, "msgs": J::A(seen)});
        }
    }

    fn receive(&mut self, m: u64, msg: in_message::Msg) {
        let (p, _) = ends_of(&msg);
        let x = self.describe(&msg);
        let delivery = delivery_of(&msg);
        let kind = kind_of(&msg);
        let pos = self.rec.len();
        let result = self.modules[m as usize - 1].process_in_message(msg);
        debug_assert!(pos == self.rec.len());
        let ok = result.is_ok();
        let res = match result {
            Ok(Some(got)) => {
                let (from, _) = ends_of(&got);
                let id = payload_of(&got).and_then(|p| self.contents.get(&p.contents.to_vec())).copied();
                let id = if delivery_of(&got) == delivery { id.unwrap_or(-3) } else { -4 };
                let t = if kind_of(&got) == kind { kind } else { "other" };
                vec![obj! {"t": t, "from": from, "id": id}]
            }
            _ => vec![],
        };
        self.rec.ev(obj! {"e": "in", "m": m, "p": p, "x": x, "ok": ok, "res": J::A(res)});
    }

    fn deliver(&mut self, w: Wire) {
        self.receive(w.to, w.msg);
    }

    fn tick(&mut self, m: u64) {
        self.modules[m as usize - 1].make_tick();
        self.rec.ev(obj! {"e": "tick", "m": m});
    }

    fn change(&mut self, m: u64, ids: &[u64]) {
        self.modules[m as usize - 1].process_cluster_change(ids);
        self.rec.ev(obj! {"e": "change", "m": m, "ids": ids.to_vec()});
    }

    /// Something that no module has emitted.
    fn forge(&mut self, from: u64, base: Option<in_message::Msg>, rng: &mut Rng) -> in_message::Msg {
        let noise = |contents: Option<noise_protocol::Message>| {
            in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
                recipient_replica_id: 1,
                sender_replica_id: from,
                encryption: if contents.is_none() && from % 2 == 0 {
                    None
                } else {
                    Some(Encryption::NoiseProtocol(NoiseProtocol { message: contents }))
                },
            })
        };
        let sealed = EncryptedMessage { ciphertext: vec![1; 20], associated_data: None, nonce: Some(vec![1; 8]) };
        match base {
            Some(mut msg) => {
                match &mut msg {
                    in_message::Msg::SecureChannelHandshake(h) => {
                        if let Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(m) })) = &mut h.encryption {
                            let bytes = match m {
                                noise_protocol::Message::InitiatorRequest(r) => match &mut r.message {
                                    Some(noise_protocol::initiator_request::Message::SessionRequest(r)) => {
                                        match &mut r.request {
                                            Some(Request::AttestRequest(a)) => Some(&mut a.contents),
                                            Some(Request::HandshakeRequest(a)) => Some(&mut a.contents),
                                            _ => None,
                                        }
                                    }
                                    None => None,
                                },
                                noise_protocol::Message::RecipientResponse(r) => match &mut r.message {
                                    Some(noise_protocol::recipient_response::Message::SessionResponse(r)) => {
                                        match &mut r.response {
                                            Some(Response::AttestResponse(a)) => Some(&mut a.contents),
                                            Some(Response::HandshakeResponse(a)) => Some(&mut a.contents),
                                            _ => None,
                                        }
                                    }
                                    None => None,
                                },
                            };
                            if let Some(bytes) = bytes {
                                let i = rng.below(bytes.len());
                                bytes[i] ^= 1 << rng.below(8);
                            }
                        }
                    }
                    _ => {
                        if let Some(p) = payload_mut(&mut msg) {
                            match (rng.below(8), p.as_mut()) {
                                (0, _) | (_, None) => *p = None,
                                (1, Some(p)) => p.contents = Bytes::new(),
                                (2, Some(p)) => p.nonce = Bytes::new(),
                                (3, Some(p)) => {
                                    let n = u64::from_le_bytes(p.nonce[..].try_into().unwrap_or([0; 8]));
                                    p.nonce = Bytes::from((n + 1).to_le_bytes().to_vec());
                                }
                                (_, Some(p)) => {
                                    let mut c = p.contents.to_vec();
                                    let i = rng.below(c.len());
                                    c[i] ^= 1 << rng.below(8);
                                    p.contents = Bytes::from(c);
                                }
                            }
                        }
                    }
                }
                msg
            }
            None => match rng.below(9) {
                0 => noise(None),
                1 => noise(Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: None }))),
                2 => noise(Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                    message: None,
                }))),
                3 => noise(Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
                    message: Some(noise_protocol::initiator_request::Message::SessionRequest(SessionRequest {
                        request: Some(Request::EncryptedMessage(sealed)),
                    })),
                }))),
                4 => noise(Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
                    message: Some(noise_protocol::recipient_response::Message::SessionResponse(SessionResponse {
                        response: Some(Response::EncryptedMessage(sealed)),
                    })),
                }))),
                5 => noise(Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
                    message: Some(noise_protocol::initiator_request::Message::SessionRequest(SessionRequest {
                        request: None,
                    })),
                }))),
                k => {
                    // What the peer has said in the clear to itself.
                    let plain = self.contents.keys().min().cloned().unwrap_or(b"guess".to_vec());
                    let payload = if rng.chance(30) {
                        None
                    } else {
                        Some(Payload { contents: Bytes::from(plain), ..Default::default() })
                    };
                    match k {
                        6 => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                            recipient_replica_id: 1,
                            sender_replica_id: from,
                            payload,
                            ..Default::default()
                        }),
                        7 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
                            recipient_replica_id: 1,
                            sender_replica_id: from,
                            delivery_id: 1,
                            payload,
                            ..Default::default()
                        }),
                        _ => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
                            recipient_replica_id: 1,
                            sender_replica_id: from,
                            delivery_id: 1,
                            payload,
                            ..Default::default()
                        }),
                    }
                }
            },
        }
    }

    /// The host behaves from now on: it delivers in order, and ticks when all is quiet.
    fn calm(&mut self, talk: &[(u64, u64)], rng: &mut Rng) {
        self.next = self.wire.len();
        let rounds = 4 * (self.timeout + self.retry) + 8;
        let mut last = vec![];
        for round in 0..rounds {
            last = talk
                .iter()
                .map(|(m, p)| {
                    let id = self.send(*m, *p, if round + 1 == rounds { "sys" } else { "hb" }, rng);
                    (*m, *p, id)
                })
                .collect();
            self.quiet();
            for m in 1..=self.n() {
                self.tick(m);
            }
        }
        self.quiet();
        let sent = J::A(last.iter().map(|(m, p, id)| obj! {"m": *m, "p": *p, "id": *id}).collect());
        self.rec.ev(obj! {"e": "end", "sent": sent});
    }

    fn quiet(&mut self) {
        loop {
            for m in 1..=self.n() {
                // The next message of a handshake goes out before what waits for it.
                self.out(m);
                self.out(m);
            }
            if self.next == self.wire.len() {
                break;
            }
            let w = self.wire[self.next].clone();
            self.next += 1;
            self.deliver(w);
        }
    }

    fn step(&mut self, wild: usize, rng: &mut Rng) {
        let m = rng.range(1, self.modules.len()) as u64;
        let p = loop {
            let p = rng.range(1, self.modules.len()) as u64;
            if p != m {
                break p;
            }
        };
        match rng.below(100) {
            0..=24 => {
                self.send(m, p, *rng.pick(&KINDS), rng);
            }
            25..=44 => self.out(m),
            45..=72 if self.next < self.wire.len() => {
                let w = self.wire[self.next].clone();
                self.next += 1;
                if !rng.chance(wild / 4) {
                    self.deliver(w);
                    if rng.chance(70) {
                        self.out(self.wire[self.next - 1].to);
                    }
                }
            }
            45..=84 if rng.chance(wild) && !self.wire.is_empty() => {
                // Again, late or early, possibly as somebody else's or changed.
                let near = self.wire.len().saturating_sub(6);
                let i = if rng.chance(60) { rng.range(near, self.wire.len() - 1) } else { rng.below(self.wire.len()) };
                let mut w = self.wire[i].clone();
                match rng.below(10) {
                    0 => {
                        w.from = p;
                        w.to = m;
                        set_sender(&mut w.msg, p);
                    }
                    1 => {
                        // Back to where it came from.
                        let (from, to) = (w.from, w.to);
                        w.to = from;
                        set_sender(&mut w.msg, to);
                    }
                    2 => w.msg = self.forge(w.from, Some(w.msg.clone()), rng),
                    3 => w.msg = as_other(w.msg, rng),
                    _ => {}
                }
                self.deliver(w);
            }
            85..=87 if rng.chance(wild) => {
                let msg = self.forge(p, None, rng);
                self.receive(m, msg);
            }
            88..=90 if wild > 0 => {
                let ids: Vec<u64> = self.members.iter().copied().filter(|_| rng.chance(85)).collect();
                self.change(m, &ids);
            }
            91..=99 => self.tick(m),
            _ => self.out(m),
        }
    }
}

/// The same contents in another envelope.
fn as_other(m: in_message::Msg, rng: &mut Rng) -> in_message::Msg {
    let (from, to) = ends_of(&m);
    let payload = payload_of(&m).cloned();
    match (&m, rng.below(3)) {
        (in_message::Msg::SecureChannelHandshake(_), _) => m,
        (_, 0) => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
            recipient_replica_id: to,
            sender_replica_id: from,
            payload,
            ..Default::default()
        }),
        (_, 1) => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: 5,
            payload,
            ..Default::default()
        }),
        _ => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
            recipient_replica_id: to,
            sender_replica_id: from,
            delivery_id: 6,
            payload,
            ..Default::default()
        }),
    }
}

fn pairs(n: u64, rogue: &[u64], rng: &mut Rng) -> Vec<(u64, u64)> {
    let mut talk = vec![];
    for m in 1..=n {
        for p in 1..=n {
            let possible = rogue.contains(&m) == rogue.contains(&p);
            if m != p && possible && rng.chance(80) {
                talk.push((m, p));
            }
        }
    }
    // A peer that never says anything itself is fine.
    talk
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let n = if rng.chance(60) { 2 } else { 3 };
    let rogue = if rng.chance(70) { vec![] } else { (1..=n).filter(|_| rng.chance(40)).collect() };
    let mut w = World::new(rec, n, rng.range(1, 5) as u64, rng.range(0, 3) as u64, rogue);
    let wild = *rng.pick(&[0, 15, 40, 80]);
    if rng.chance(60) {
        // Start with sessions.
        for _ in 0..rng.range(1, 2) {
            let m = rng.range(1, n as usize) as u64;
            let p = m % n + 1;
            w.send(m, p, *rng.pick(&KINDS), rng);
            w.quiet();
        }
    }
    for _ in 0..rng.range(5, 70) {
        w.step(wild, rng);
    }
    if rng.chance(35) {
        let talk = pairs(n, &w.rogue, rng);
        w.calm(&talk, rng);
    }
}

pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    let conf = script.get("conf");
    let mut w = World::new(
        rec,
        script.get("n").int() as u64,
        conf.get("timeout").int() as u64,
        conf.get("retry").int() as u64,
        script.get("rogue").items().iter().map(|r| r.int() as u64).collect(),
    );
    for op in script.get("ops").items() {
        let m = op.find("m").map_or(0, |m| m.int() as u64);
        match op.get("e").text() {
            "send" => {
                w.send(m, op.get("p").int() as u64, op.get("k").text(), rng);
                w.out(m);
            }
            "in" => {
                let n = op.get("n").int() as usize;
                if n <= w.wire.len() {
                    let x = w.wire[n - 1].clone();
                    let to = x.to;
                    w.deliver(x);
                    w.out(to);
                }
            }
            "bad" => {
                let n = op.get("n").int() as usize;
                if n <= w.wire.len() {
                    let mut x = w.wire[n - 1].clone();
                    let to = x.to;
                    x.msg = w.forge(x.from, Some(x.msg.clone()), rng);
                    w.deliver(x);
                    w.out(to);
                }
            }
            "tick" => {
                w.tick(m);
                w.out(m);
            }
            "change" => {
                let ids: Vec<u64> = op.get("ids").items().iter().map(|i| i.int() as u64).collect();
                w.change(m, &ids);
                w.out(m);
            }
            other => panic!("script: {}", other),
        }
    }
    if rng.chance(35) {
        let talk = pairs(w.n(), &w.rogue, rng);
        w.calm(&talk, rng);
    }
}
