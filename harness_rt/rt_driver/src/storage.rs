//! Drives the storage of the replicated log the way Raft and the driver do.

use prost::bytes::Bytes;
use raft::eraftpb::{ConfState, Entry, EntryType, HardState, Snapshot, SnapshotMetadata};
use raft::{Error, GetEntriesContext, Storage, StorageError};
use slog::Logger;
use tcp_runtime::consensus::Store;
use tcp_runtime::storage::MemoryStorage;
use vcommon::{obj, Rec, Rng, J};

struct World<'a> {
    rec: &'a Rec,
    store: MemoryStorage,
    datas: u64,
    // What the caller knows.
    term: u64,
    commit: u64,
    applied: u64,
}

fn conf(members: &[u64], rng: &mut Rng) -> ConfState {
    let mut c = ConfState::default();
    for m in members {
        match rng.below(6) {
            0 => c.learners.push(*m),
            1 => c.voters_outgoing.push(*m),
            _ => c.voters.push(*m),
        }
    }
    c
}

fn members(c: &ConfState) -> J {
    let mut all: Vec<u64> =
        c.voters.iter().chain(&c.learners).chain(&c.voters_outgoing).copied().collect();
    all.sort();
    all.dedup();
    J::A(all.into_iter().map(J::from).collect())
}

/// Contents number d has d bytes, at least where it matters.
fn contents(d: u64) -> Bytes {
    Bytes::from((0..d).map(|i| (d.wrapping_mul(31) + i) as u8).collect::<Vec<u8>>())
}

fn number(data: &[u8]) -> i64 {
    let d = data.len() as u64;
    if contents(d) == data {
        d as i64
    } else {
        -1
    }
}

fn entry_json(e: &Entry) -> J {
    let odd = e.entry_type != EntryType::EntryNormal as i32 || !e.context.is_empty();
    obj! {"i": e.index, "t": e.term, "d": if odd { -2 } else { number(&e.data) }, "z": prost::Message::encoded_len(e)}
}

fn snap_json(s: &Snapshot) -> J {
    let none = SnapshotMetadata::default();
    let m = s.metadata.as_ref().unwrap_or(&none);
    obj! {"i": m.index, "t": m.term,
        "m": members(m.conf_state.as_ref().unwrap_or(&ConfState::default())), "d": number(&s.data)}
}

impl<'a> World<'a> {
    fn new(rec: &'a Rec, diff: u64) -> Self {
        rec.ev(obj! {"e": "cf", "diff": diff});
        let store = MemoryStorage::new(Logger::root(slog::Discard, slog::o!()), diff);
        World { rec, store, datas: 0, term: 0, commit: 0, applied: 0 }
    }

    fn first(&self) -> u64 {
        self.store.first_index().expect("first index")
    }

    fn last(&self) -> u64 {
        self.store.last_index().expect("last index")
    }

    fn data(&mut self) -> u64 {
        self.datas += 1;
        self.datas
    }

    fn hard(&mut self, t: u64, v: u64, c: u64) {
        self.rec.ev(obj! {"e": "hard", "t": t, "v": v, "c": c});
        self.term = t;
        self.commit = self.commit.max(c);
        self.store.set_hard_state(HardState { term: t, vote: v, commit: c, ..Default::default() });
    }

    fn append(&mut self, from: u64, terms: &[u64], rng: &mut Rng) {
        let mut es = vec![];
        for (n, t) in terms.iter().enumerate() {
            let d = if rng.chance(60) { self.data() } else { rng.below(3) as u64 };
            es.push(Entry { index: from + n as u64, term: *t, data: contents(d).into(), ..Default::default() });
        }
        self.rec.ev(obj! {"e": "append", "es": J::A(es.iter().map(entry_json).collect())});
        self.store.append_entries(&es).expect("append");
    }

    fn restore(&mut self, i: u64, t: u64, m: &[u64], rng: &mut Rng) {
        let d = self.data();
        let snapshot = Snapshot {
            metadata: Some(SnapshotMetadata {
                index: i,
                term: t,
                conf_state: Some(conf(m, rng)),
                ..Default::default()
            }),
            data: contents(d).into(),
            ..Default::default()
        };
        let ok = match self.store.apply_snapshot(snapshot.clone()) {
            Ok(()) => true,
            Err(Error::Store(StorageError::SnapshotOutOfDate)) => false,
            Err(e) => panic!("restore: {:?}", e),
        };
        self.rec.ev(obj! {"e": "restore", "s": snap_json(&snapshot), "ok": ok});
        if ok {
            self.applied = self.applied.max(i);
            self.commit = self.commit.max(i);
            self.term = self.term.max(t);
        }
    }

    fn make(&mut self, i: u64, m: &[u64], rng: &mut Rng) {
        let d = self.data();
        let ok = match self.store.create_snapshot(i, conf(m, rng), contents(d)) {
            Ok(()) => true,
            Err(Error::Store(StorageError::SnapshotOutOfDate)) => false,
            Err(e) => panic!("make: {:?}", e),
        };
        let m = J::A(m.iter().map(|x| J::from(*x)).collect());
        self.rec.ev(obj! {"e": "make", "i": i, "m": m, "d": d, "ok": ok, "first": self.first()});
    }

    fn should(&mut self, i: u64, m: &[u64], rng: &mut Rng) -> bool {
        let yes = self.store.should_snapshot(i, &conf(m, rng));
        let m = J::A(m.iter().map(|x| J::from(*x)).collect());
        self.rec.ev(obj! {"e": "should", "i": i, "m": m, "yes": yes});
        yes
    }

    fn ask(&mut self, i: u64, p: u64) {
        let got = match self.store.snapshot(i, p) {
            Ok(s) => vec![snap_json(&s)],
            Err(Error::Store(StorageError::SnapshotTemporarilyUnavailable)) => vec![],
            Err(e) => panic!("ask: {:?}", e),
        };
        self.rec.ev(obj! {"e": "ask", "i": i, "p": p, "got": J::A(got)});
    }

    fn read(&mut self, lo: u64, hi: u64, limit: i64) {
        let max = if limit < 0 { None } else { Some(limit as u64) };
        let got = self.store.entries(lo, hi, max, GetEntriesContext::empty(false));
        let (ok, es) = match got {
            Ok(es) => (true, es.iter().map(entry_json).collect()),
            Err(Error::Store(StorageError::Compacted | StorageError::Unavailable)) => (false, vec![]),
            Err(e) => panic!("read: {:?}", e),
        };
        self.rec.ev(obj! {"e": "read", "lo": lo, "hi": hi, "limit": limit, "ok": ok, "es": J::A(es)});
    }

    fn ask_term(&mut self, i: u64) {
        let (res, t) = match self.store.term(i) {
            Ok(t) => ("ok", t),
            Err(Error::Store(StorageError::Compacted)) => ("compacted", 0),
            Err(Error::Store(StorageError::Unavailable)) => ("unavailable", 0),
            Err(e) => panic!("term: {:?}", e),
        };
        self.rec.ev(obj! {"e": "term", "i": i, "res": res, "t": t});
    }

    fn look(&mut self) {
        let s = self.store.initial_state().expect("initial state");
        self.rec.ev(obj! {"e": "look", "first": self.first(), "last": self.last(),
            "t": s.hard_state.term, "v": s.hard_state.vote, "c": s.hard_state.commit,
            "m": members(&s.conf_state), "size": self.store.latest_snapshot_size()});
    }

    /// Everything that can be read.
    fn survey(&mut self) {
        self.look();
        let (first, last) = (self.first(), self.last());
        for i in first.saturating_sub(2)..=last + 1 {
            self.ask_term(i);
        }
        if first <= last {
            self.read(first, last + 1, -1);
        }
    }
}

fn some_members(rng: &mut Rng) -> Vec<u64> {
    let mut m: Vec<u64> = (1..=4).filter(|_| rng.chance(65)).collect();
    rng.shuffle(&mut m);
    m
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let diff = *rng.pick(&[0, 1, 2, 3, 5, 100]);
    let mut w = World::new(rec, diff);
    for _ in 0..rng.range(8, 50) {
        // What is done next follows from these answers, so they are judged first.
        w.look();
        let (first, last) = (w.first(), w.last());
        match rng.below(100) {
            0..=9 => {
                let t = w.term + rng.below(2) as u64;
                let c = w.commit + rng.below((last.saturating_sub(w.commit) + 1) as usize) as u64;
                w.hard(t, rng.below(4) as u64, c);
            }
            10..=34 => {
                // What is committed or applied is not overwritten.
                let low = first.max(w.commit.max(w.applied) + 1);
                if low > last + 1 {
                    continue;
                }
                let from = if rng.chance(60) { last + 1 } else { low + rng.below((last + 2 - low) as usize) as u64 };
                let n = rng.below(5);
                let mut t = w.term.max(1);
                let terms: Vec<u64> = (0..n)
                    .map(|_| {
                        t += (rng.below(4) == 0) as u64;
                        t
                    })
                    .collect();
                w.append(from, &terms, rng);
            }
            35..=49 => {
                let low = w.applied.saturating_sub(if rng.chance(15) { 2 } else { 0 });
                let i = low + rng.below((last + 1 - low.min(last)) as usize) as u64;
                let i = i.min(last);
                let m = some_members(rng);
                w.applied = w.applied.max(i);
                if w.should(i, &m, rng) || rng.chance(25) {
                    w.make(i, &m, rng);
                }
            }
            50..=56 => {
                let i = match rng.below(5) {
                    0 => last + 1 + rng.below(4) as u64,
                    1 => last,
                    2 => first.saturating_sub(1),
                    3 => first,
                    _ => first + rng.below((last + 2 - first.min(last)) as usize) as u64,
                };
                let (t, m) = (w.term + rng.below(2) as u64, some_members(rng));
                w.restore(i, t, &m, rng);
            }
            57..=68 => {
                let i = rng.below((last + 3) as usize) as u64;
                w.ask(i, rng.range(1, 5) as u64);
            }
            69..=74 => {
                let i = rng.below((last + 3) as usize) as u64;
                let m = some_members(rng);
                w.should(i, &m, rng);
            }
            75..=86 => {
                if last == 0 {
                    continue;
                }
                let lo = first.saturating_sub(rng.below(2) as u64) + rng.below((last + 1 - first.min(last)) as usize) as u64;
                if lo > last {
                    continue;
                }
                let hi = lo + 1 + rng.below((last + 1 - lo) as usize) as u64;
                let limit = if rng.chance(30) { -1 } else { rng.below(120) as i64 };
                w.read(lo, hi, limit);
            }
            87..=93 => {
                let i = rng.below((last + 3) as usize) as u64;
                w.ask_term(i);
            }
            _ => w.survey(),
        }
    }
    w.survey();
}

pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    let mut w = World::new(rec, script.get("diff").int() as u64);
    for op in script.get("ops").items() {
        let num = |name: &str| op.get(name).int() as u64;
        let list = |name: &str| -> Vec<u64> { op.get(name).items().iter().map(|x| x.int() as u64).collect() };
        match op.get("e").text() {
            "hard" => w.hard(num("t"), num("v"), num("c")),
            "append" => w.append(num("i"), &list("ts"), rng),
            "restore" => w.restore(num("i"), num("t"), &list("m"), rng),
            "make" => w.make(num("i"), &list("m"), rng),
            "should" => {
                w.should(num("i"), &list("m"), rng);
            }
            "ask" => w.ask(num("i"), num("p")),
            "read" => w.read(num("lo"), num("hi"), op.get("limit").int()),
            "term" => w.ask_term(num("i")),
            other => panic!("script: {}", other),
        }
        if rng.chance(20) {
            w.look();
        }
    }
    w.survey();
}
