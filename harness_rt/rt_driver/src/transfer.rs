//! Drives the snapshot processors of several replicas, with a network between them that delays,
//! reorders and loses requests and responses.

use prost::bytes::Bytes;
use prost::Message;
use raft::eraftpb::{ConfState, Snapshot, SnapshotMetadata};
use raft::SnapshotStatus;
use slog::Logger;
use std::collections::HashMap;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::snapshot::*;
use vcommon::{obj, Rec, Rng, J};

/// What a request contains, as far as the driver can tell.
#[derive(Clone)]
struct Seen {
    d: u64,
    to: u64,
    id: u32,
    k: &'static str,
    idx: i64,
    size: i64,
    s: i64,
    off: i64,
    len: i64,
    meta: i64,
}

impl Seen {
    fn json(&self) -> J {
        obj! {"d": self.d, "to": self.to, "id": self.id, "k": self.k, "idx": self.idx, "size": self.size,
            "s": self.s, "off": self.off, "len": self.len, "meta": self.meta}
    }
}

#[derive(Clone)]
enum Mail {
    Request(DeliverSnapshotRequest, Seen),
    Response(DeliverSnapshotResponse),
}

struct World<'a> {
    rec: &'a Rec,
    n: u64,
    chunk: u64,
    replicas: Vec<DefaultSnapshotProcessor>,
    /// Sizes of the snapshots, by number.
    sizes: Vec<u64>,
    current: HashMap<(u64, u64), i64>,
    net: Vec<Mail>,
    delivered: Vec<Mail>,
}

fn data(s: i64, size: u64) -> Vec<u8> {
    (0..size).map(|i| (s as u64 * 37 + i * 11 + i / 23) as u8).collect()
}

fn metadata(s: i64) -> SnapshotMetadata {
    SnapshotMetadata {
        index: 10 + s as u64,
        term: 1 + s as u64 / 3,
        conf_state: Some(ConfState { voters: vec![1, 2, s as u64], ..Default::default() }),
        ..Default::default()
    }
}

fn ack_of(r: &DeliverSnapshotResponse) -> Option<deliver_snapshot_response::SnapshotAck> {
    deliver_snapshot_response::SnapshotAck::decode(r.payload.as_ref()?.contents.clone()).ok()
}

impl<'a> World<'a> {
    fn new(rec: &'a Rec, n: u64, chunk: u64, max: u32) -> Self {
        rec.ev(obj! {"e": "cf", "n": n, "chunk": chunk, "max": max});
        let replicas = (1..=n)
            .map(|id| {
                let mut p = DefaultSnapshotProcessor::new(
                    Box::new(DefaultSnapshotSender::new()),
                    Box::new(DefaultSnapshotReceiver::new()),
                );
                p.init(
                    Logger::root(slog::Discard, slog::o!()),
                    id,
                    &Some(SnapshotConfig { chunk_size: chunk, max_pending_chunks: max, ..Default::default() }),
                );
                p
            })
            .collect();
        World {
            rec,
            n,
            chunk,
            replicas,
            sizes: vec![],
            current: HashMap::new(),
            net: vec![],
            delivered: vec![],
        }
    }

    fn at(&mut self, m: u64) -> SnapshotProcessorRole<'_> {
        self.replicas[m as usize - 1].mut_processor(7)
    }

    fn sends(&mut self, m: u64) -> bool {
        matches!(self.at(m), SnapshotProcessorRole::Sender(_))
    }

    fn change(&mut self, m: u64, lead: u64, term: u64, ids: &[u64]) {
        let told = self.replicas[m as usize - 1].process_cluster_change(lead, term, ids);
        assert!(told.iter().all(|t| t.1 == SnapshotStatus::Failure), "a transfer is reported to be finished");
        self.rec.ev(obj! {"e": "change", "m": m, "lead": lead, "term": term,
            "ids": J::A(ids.iter().map(|i| J::from(*i)).collect()),
            "told": J::A(told.iter().map(|t| J::from(t.0)).collect())});
        let sends = self.sends(m);
        self.rec.ev(obj! {"e": "role", "m": m, "sends": sends});
    }

    fn start(&mut self, m: u64, p: u64, size: u64) {
        if !self.sends(m) {
            return;
        }
        self.sizes.push(size);
        let s = self.sizes.len() as i64;
        self.current.insert((m, p), s);
        self.rec.ev(obj! {"e": "start", "m": m, "p": p, "s": s, "size": size});
        if let SnapshotProcessorRole::Sender(sender) = self.at(m) {
            sender.start(p, Snapshot { data: data(s, size).into(), metadata: Some(metadata(s)), ..Default::default() });
        }
    }

    fn number_of(&self, like: i64, fits: impl Fn(i64) -> bool) -> i64 {
        if like > 0 && fits(like) {
            return like;
        }
        (1..=self.sizes.len() as i64).find(|s| fits(*s)).unwrap_or(-1)
    }

    fn meta_number(&self, bytes: &[u8]) -> i64 {
        match SnapshotMetadata::decode(bytes) {
            Ok(m) => self.number_of(0, |s| metadata(s) == m),
            Err(_) => -1,
        }
    }

    fn seen(&self, from: u64, r: &DeliverSnapshotRequest) -> Seen {
        let mut seen = Seen {
            d: r.delivery_id,
            to: r.recipient_replica_id,
            id: 0,
            k: "none",
            idx: -1,
            size: -1,
            s: -1,
            off: -1,
            len: -1,
            meta: -1,
        };
        assert_eq!(r.sender_replica_id, from, "sender of a request");
        let contents = &r.payload.as_ref().expect("payload").contents;
        let Ok(content) = deliver_snapshot_request::SnapshotContent::decode(contents.clone()) else {
            return seen;
        };
        seen.id = content.snapshot_id;
        let bytes: Bytes = match content.it {
            Some(deliver_snapshot_request::snapshot_content::It::Header(h)) => {
                seen.k = "h";
                seen.idx = 0;
                seen.size = h.snapshot_size as i64;
                seen.meta = self.meta_number(&h.snapshot_metadata);
                h.chunk_contents
            }
            Some(deliver_snapshot_request::snapshot_content::It::Chunk(c)) => {
                seen.k = "c";
                seen.idx = c.chunk_index as i64;
                c.chunk_contents
            }
            None => return seen,
        };
        seen.off = seen.idx * self.chunk as i64;
        seen.len = bytes.len() as i64;
        let off = seen.off as usize;
        let like = self.current.get(&(from, seen.to)).copied().unwrap_or(0);
        seen.s = self.number_of(like, |s| {
            data(s, self.sizes[s as usize - 1]).get(off..off + bytes.len()) == Some(&bytes[..])
        });
        seen
    }

    fn next(&mut self, m: u64) -> bool {
        let got = match self.at(m) {
            SnapshotProcessorRole::Sender(sender) => sender.next_request(),
            SnapshotProcessorRole::Receiver(_) => return false,
        };
        let seen: Vec<Seen> = got.iter().map(|r| self.seen(m, r)).collect();
        self.rec.ev(obj! {"e": "next", "m": m, "got": J::A(seen.iter().map(|s| s.json()).collect())});
        match (got, seen.into_iter().next()) {
            (Some(r), Some(s)) => {
                self.net.push(Mail::Request(r, s));
                true
            }
            _ => false,
        }
    }

    fn deliver(&mut self, mail: Mail) {
        self.delivered.push(mail.clone());
        match mail {
            Mail::Request(r, s) => {
                let (m, from) = (r.recipient_replica_id, r.sender_replica_id);
                let response = match self.at(m) {
                    SnapshotProcessorRole::Sender(sender) => sender.process_unexpected_request(r),
                    SnapshotProcessorRole::Receiver(receiver) => receiver.process_request(r),
                };
                let ack = ack_of(&response).expect("ack");
                assert_eq!(response.sender_replica_id, m, "sender of a response");
                let st = ack.status == DeliverSnapshotStatus::SnapshotStatusAccepted as i32;
                self.rec.ev(obj! {"e": "req", "m": m, "from": from, "x": s.json(),
                    "ack": obj!{"to": response.recipient_replica_id, "d": response.delivery_id,
                        "id": ack.snapshot_id, "idx": ack.chunk_index, "st": st}});
                self.net.push(Mail::Response(response));
            }
            Mail::Response(r) => {
                let (m, p) = (r.recipient_replica_id, r.sender_replica_id);
                let a = match ack_of(&r) {
                    Some(a) => obj! {"k": "ack", "d": r.delivery_id, "id": a.snapshot_id, "idx": a.chunk_index,
                        "st": a.status == DeliverSnapshotStatus::SnapshotStatusAccepted as i32},
                    None => obj! {"k": "garbage"},
                };
                self.rec.ev(obj! {"e": "ans", "m": m, "p": p, "a": a});
                if let SnapshotProcessorRole::Sender(sender) = self.at(m) {
                    sender.process_response(p, r.delivery_id, Ok(r));
                }
            }
        }
    }

    /// The host says that a request could not be delivered.
    fn fail(&mut self, m: u64, p: u64, d: u64) {
        self.rec.ev(obj! {"e": "ans", "m": m, "p": p, "a": obj!{"k": "fail", "d": d}});
        if let SnapshotProcessorRole::Sender(sender) = self.at(m) {
            sender.process_response(p, d, Err(SnapshotError::FailedDelivery));
        }
    }

    /// Whether a transfer has ended.
    fn complete(&mut self, m: u64) -> bool {
        enum Found {
            Sent(Option<(u64, SnapshotStatus)>),
            Received(Option<Result<(u64, Snapshot), SnapshotError>>),
        }
        let found = match self.at(m) {
            SnapshotProcessorRole::Sender(sender) => Found::Sent(sender.try_complete()),
            SnapshotProcessorRole::Receiver(receiver) => Found::Received(receiver.try_complete()),
        };
        match found {
            Found::Sent(res) => {
                let some = res.is_some();
                let res: Vec<J> =
                    res.iter().map(|r| obj! {"p": r.0, "ok": r.1 == SnapshotStatus::Finish}).collect();
                self.rec.ev(obj! {"e": "sent", "m": m, "res": J::A(res)});
                some
            }
            Found::Received(res) => {
                let some = res.is_some();
                let res: Vec<J> = res
                    .iter()
                    .map(|r| match r {
                        Ok((from, snapshot)) => {
                            let meta = snapshot.metadata.as_ref().map_or(-1, |m| self.meta_number(&m.encode_to_vec()));
                            let s = self.number_of(meta, |s| data(s, self.sizes[s as usize - 1]) == snapshot.data[..]);
                            obj! {"ok": true, "from": *from, "s": s, "meta": meta}
                        }
                        Err(_) => obj! {"ok": false, "from": 0, "s": 0, "meta": 0},
                    })
                    .collect();
                self.rec.ev(obj! {"e": "rcvd", "m": m, "res": J::A(res)});
                some
            }
        }
    }

    /// Everything is delivered, in order.
    fn settle(&mut self) {
        for _ in 0..60 {
            let mut busy = false;
            for m in 1..=self.n {
                while self.next(m) {
                    busy = true;
                }
            }
            while !self.net.is_empty() {
                busy = true;
                let mail = self.net.remove(0);
                self.deliver(mail);
            }
            for m in 1..=self.n {
                while self.complete(m) {
                    busy = true;
                }
            }
            if !busy {
                return;
            }
        }
        panic!("transfers never end");
    }
}

fn size_of(rng: &mut Rng, chunk: u64) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => chunk,
        2 => chunk - 1,
        3 => chunk + 1,
        4 => chunk * rng.range(2, 5) as u64,
        5 => chunk * rng.range(2, 5) as u64 + 1,
        _ => rng.below(30) as u64,
    }
}

/// A request or response of somebody whose version is another one.
fn spoil(mail: &mut Mail, rng: &mut Rng) {
    match mail {
        Mail::Request(r, seen) => {
            let payload = r.payload.as_mut().unwrap();
            let mut content = deliver_snapshot_request::SnapshotContent::decode(payload.contents.clone()).unwrap();
            match rng.below(7) {
                0 => {
                    payload.contents = vec![0xff, 0x01].into();
                    seen.k = "none";
                }
                1 => {
                    content.it = None;
                    payload.contents = content.encode_to_vec().into();
                    seen.k = "none";
                }
                _ => {
                    match &mut content.it {
                        Some(deliver_snapshot_request::snapshot_content::It::Header(h)) => {
                            h.snapshot_metadata = vec![0xff, 0x01].into();
                            seen.meta = -1;
                        }
                        // Not where it belongs, or not of the right size.
                        Some(deliver_snapshot_request::snapshot_content::It::Chunk(c)) => {
                            match rng.below(6) {
                                0 => c.chunk_index -= 1,
                                1 => c.chunk_index += 1,
                                2 => c.chunk_index += 2,
                                3 => c.chunk_index = *rng.pick(&[0, 77, u16::MAX as u32]),
                                4 => c.chunk_contents.truncate(c.chunk_contents.len() - 1),
                                _ => c.chunk_contents = [&c.chunk_contents[..], &[0]].concat().into(),
                            }
                            seen.idx = c.chunk_index as i64;
                            if seen.len != c.chunk_contents.len() as i64 {
                                seen.len = c.chunk_contents.len() as i64;
                                seen.s = -1;
                            }
                        }
                        None => {}
                    }
                    payload.contents = content.encode_to_vec().into();
                }
            }
        }
        Mail::Response(r) => {
            let ack = ack_of(r);
            let payload = r.payload.as_mut().unwrap();
            match ack {
                Some(mut a) if rng.chance(70) => {
                    match rng.below(4) {
                        0 => a.chunk_index += 1,
                        1 => a.chunk_index = 77,
                        // No transfer gets that far.
                        2 => a.snapshot_id += 100_000,
                        _ => a.status = DeliverSnapshotStatus::SnapshotStatusRejected.into(),
                    }
                    payload.contents = a.encode_to_vec().into();
                }
                _ => payload.contents = vec![0xff, 0x01].into(),
            }
        }
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let n = rng.range(2, 4) as u64;
    let chunk = *rng.pick(&[1, 2, 3, 5, 8]);
    let mut w = World::new(rec, n, chunk, rng.range(1, 4) as u32);
    let rough = rng.chance(60);
    let (mut lead, mut term) = (1, 1);
    let mut members: Vec<u64> = (1..=n).collect();
    for m in 1..=n {
        w.change(m, lead, term, &members.clone());
    }
    for _ in 0..rng.range(10, 90) {
        match rng.below(100) {
            0..=3 => {
                term += rng.below(2) as u64 + (lead == 0) as u64;
                if rng.chance(70) {
                    lead = rng.range(0, n as usize) as u64;
                    term += 1;
                }
                for m in 1..=n {
                    if rng.chance(70) {
                        w.change(m, lead, term, &members.clone());
                    }
                }
            }
            4..=6 => {
                // A change of the members, or the same cluster again.
                if rng.chance(60) {
                    members = (1..=n).filter(|m| *m == lead || rng.chance(75)).collect();
                    if rng.chance(10) {
                        members.retain(|m| *m != lead);
                    }
                }
                for m in 1..=n {
                    if rng.chance(70) {
                        w.change(m, lead, term, &members.clone());
                    }
                }
            }
            7..=20 => {
                let (m, p) = (if rng.chance(85) { lead } else { rng.range(1, n as usize) as u64 }, rng.range(1, n as usize) as u64);
                if m != 0 && m != p {
                    let size = size_of(rng, chunk);
                    w.start(m, p, size);
                }
            }
            21..=45 => {
                let m = rng.range(1, n as usize) as u64;
                let m = if rng.chance(70) && lead != 0 { lead } else { m };
                for _ in 0..rng.range(1, 3) {
                    w.next(m);
                }
            }
            46..=80 => {
                if w.net.is_empty() {
                    continue;
                }
                let i = if rng.chance(75) { 0 } else { rng.below(w.net.len()) };
                let mut mail = w.net.remove(i);
                if rough && rng.chance(12) {
                    // Lost, and the host may say so.
                    if let Mail::Request(r, s) = &mail {
                        if rng.chance(60) {
                            w.fail(r.sender_replica_id, s.to, s.d);
                        }
                    }
                    continue;
                }
                if rough && rng.chance(4) {
                    spoil(&mut mail, rng);
                }
                w.deliver(mail);
            }
            81..=82 => {
                // The host says that something failed that did not, or repeats itself.
                if !rough || w.delivered.is_empty() {
                    continue;
                }
                let mail = rng.pick(&w.delivered).clone();
                match &mail {
                    Mail::Request(r, s) if rng.chance(60) => w.fail(r.sender_replica_id, s.to, s.d),
                    _ => w.deliver(mail),
                }
            }
            83..=97 => {
                let m = rng.range(1, n as usize) as u64;
                w.complete(m);
            }
            _ => w.settle(),
        }
    }
    w.settle();
}

pub fn script(rec: &Rec, script: &J, _rng: &mut Rng) {
    let num = |op: &J, name: &str| op.get(name).int() as u64;
    let n = num(script, "n");
    let mut w = World::new(rec, n, num(script, "chunk"), num(script, "max") as u32);
    for op in script.get("ops").items() {
        match op.get("e").text() {
            "change" => {
                let ids: Vec<u64> = op.get("ids").items().iter().map(|i| i.int() as u64).collect();
                w.change(num(op, "m"), num(op, "lead"), num(op, "term"), &ids)
            }
            "start" => w.start(num(op, "m"), num(op, "p"), num(op, "size")),
            "next" => {
                w.next(num(op, "m"));
            }
            "deliver" | "lose" => {
                // The mail is identified by the sender of the snapshot and the delivery.
                let (m, d, request) = (num(op, "m"), num(op, "d"), op.get("req").flag());
                let found = w.net.iter().position(|mail| match mail {
                    Mail::Request(r, _) => request && r.sender_replica_id == m && r.delivery_id == d,
                    Mail::Response(r) => !request && r.recipient_replica_id == m && r.delivery_id == d,
                });
                if let Some(i) = found {
                    let mail = w.net.remove(i);
                    if op.get("e").text() == "deliver" {
                        w.deliver(mail);
                    } else if let Mail::Request(r, s) = &mail {
                        w.fail(r.sender_replica_id, s.to, s.d);
                    }
                }
            }
            "complete" => {
                w.complete(num(op, "m"));
            }
            other => panic!("script: {}", other),
        }
    }
    w.settle();
}
