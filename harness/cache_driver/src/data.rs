//! Drives DefaultTabletDataCache against a storage that fails, answers out of order and answers
//! with other contents than were stored.

use prost::bytes::Bytes;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    LoadTabletResponse, StoreTabletResponse, TabletDataCacheConfig, TabletDataStorageStatus,
};
use tcp_tablet_cache_service::transaction::{
    data::{
        DefaultTabletDataCache, DefaultTabletDataCachePolicy, TabletData, TabletDataCache,
        TabletDataCacheInMessage, TabletDataCacheOutMessage, TabletDataSerializer,
    },
    result::ResultHandle,
};
use tcp_tablet_store_service::apps::tablet_store::service::TabletMetadata;
use vcommon::{obj, Rec, Rng, J};

pub const NO_HASH: i64 = -1;
pub const GARBAGE: i64 = -2;
pub const UNSTORABLE: i64 = 99;

/// Contents are numbers; the serialized form differs from the value.
pub struct Codec {}

pub fn encode(c: i64) -> Bytes {
    match c {
        0 => Bytes::new(),
        GARBAGE => Bytes::from("X not decodable"),
        c => Bytes::from(format!("S{}:{}", c, "x".repeat(c as usize % 7))),
    }
}

pub fn decode(bytes: &[u8]) -> Option<i64> {
    if bytes.is_empty() {
        return Some(0);
    }
    let text = std::str::from_utf8(bytes).ok()?.strip_prefix('S')?;
    let n: i64 = text.split(':').next()?.parse().ok()?;
    if encode(n) == bytes {
        Some(n)
    } else {
        None
    }
}

impl TabletDataSerializer<i64> for Codec {
    fn serialize(&self, value: &i64) -> Result<Bytes, ()> {
        if *value == UNSTORABLE {
            Err(())
        } else {
            Ok(encode(*value))
        }
    }
    fn deserialize(&self, _table: &String, data: Bytes) -> Result<i64, ()> {
        decode(&data).ok_or(())
    }
    fn get_size(&self, value: &i64) -> usize {
        encode(*value).len()
    }
}

pub fn hash(c: i64) -> Bytes {
    if c == NO_HASH {
        Bytes::new()
    } else {
        Sha256::digest(encode(c)).to_vec().into()
    }
}

/// Contents (or NO_HASH) with the given hash, -3 for an unknown one.
pub fn unhash(h: &Bytes) -> i64 {
    (-1..=UNSTORABLE).find(|c| hash(*c) == *h).unwrap_or(-3)
}

/// Numbers for uris.
pub struct Uris {
    names: Vec<String>,
}

impl Uris {
    pub fn new() -> Self {
        Uris { names: Vec::new() }
    }
    pub fn code(&mut self, uri: &str) -> i64 {
        if uri.is_empty() {
            return 0;
        }
        if let Some(n) = uri.strip_prefix("blob") {
            if let Ok(n) = n.parse::<i64>() {
                return n;
            }
        }
        if let Some(i) = self.names.iter().position(|n| n == uri) {
            return 1001 + i as i64;
        }
        self.names.push(uri.to_string());
        1000 + self.names.len() as i64
    }
}

fn meta_json(m: &TabletMetadata, uris: &mut Uris) -> J {
    obj! {"id": m.tablet_id, "v": m.tablet_version, "u": uris.code(&m.blob_uri), "h": unhash(&m.blob_hash)}
}

enum Waiting {
    Load(ResultHandle<Vec<(TabletMetadata, TabletData<i64>)>, TabletDataStorageStatus>),
    Store(ResultHandle<(), TabletDataStorageStatus>),
}

enum Net {
    Load(String),
    Store(String, Bytes),
}

struct Run<'a> {
    rec: &'a Rec,
    cache: DefaultTabletDataCache<i64>,
    uris: Uris,
    foreign: Vec<TabletMetadata>,
    /// Metadata returned by stores, loaded again later.
    stored: Vec<TabletMetadata>,
    /// What the storage holds.
    blobs: BTreeMap<String, Bytes>,
    net: BTreeMap<u64, Net>,
    waiting: BTreeMap<usize, Waiting>,
    batches: usize,
    instant: u64,
}

fn foreign(id: u32, v: u32, u: i64, h: i64) -> TabletMetadata {
    TabletMetadata {
        tablet_id: id,
        tablet_version: v,
        blob_uri: if u == 0 { String::new() } else { format!("blob{}", u) },
        blob_hash: hash(h),
        ..Default::default()
    }
}

impl<'a> Run<'a> {
    fn new(rec: &'a Rec, foreign: Vec<TabletMetadata>) -> Self {
        rec.ev(obj! {"e": "cf"});
        let mut cache = DefaultTabletDataCache::create(
            0,
            Box::new(Codec {}),
            Box::new(DefaultTabletDataCachePolicy::new()),
        );
        cache.init(
            slog::Logger::root(slog::Discard, slog::o!()),
            TabletDataCacheConfig { tablet_cache_capacity: 1 << 40 },
        );
        let mut blobs = BTreeMap::new();
        for m in &foreign {
            let c = match unhash(&m.blob_hash) {
                NO_HASH => m.tablet_id as i64 % 5 + 1,
                c => c,
            };
            blobs.insert(m.blob_uri.clone(), if m.blob_uri.is_empty() { Bytes::new() } else { encode(c) });
        }
        Run {
            rec,
            cache,
            uris: Uris::new(),
            foreign,
            stored: Vec::new(),
            blobs,
            net: BTreeMap::new(),
            waiting: BTreeMap::new(),
            batches: 0,
            instant: 0,
        }
    }

    fn load(&mut self, ms: Vec<TabletMetadata>) {
        self.batches += 1;
        let b = self.batches;
        let json: Vec<J> = ms.iter().map(|m| meta_json(m, &mut self.uris)).collect();
        self.rec.ev(obj! {"e": "load", "b": b, "ms": J::A(json)});
        let handle = self.cache.load_tablets(&ms);
        self.waiting.insert(b, Waiting::Load(handle));
        self.poll();
    }

    fn store(&mut self, tablets: Vec<(TabletMetadata, i64)>) {
        self.batches += 1;
        let b = self.batches;
        let ser = tablets.iter().all(|(_, c)| *c != UNSTORABLE);
        let mut metadata: Vec<TabletMetadata> = tablets.iter().map(|(m, _)| m.clone()).collect();
        let handle = {
            let data = metadata
                .iter_mut()
                .zip(tablets.iter())
                .map(|(m, (_, c))| (m, *c))
                .collect();
            self.cache.store_tablets(data)
        };
        let mut ts = Vec::new();
        for ((old, c), new) in tablets.iter().zip(metadata.iter()) {
            ts.push(obj! {
                "id": old.tablet_id, "v": old.tablet_version, "c": *c, "sz": encode(*c).len(),
                "id2": new.tablet_id, "v2": new.tablet_version, "u2": self.uris.code(&new.blob_uri),
                "s2": new.blob_size, "h2": unhash(&new.blob_hash)
            });
        }
        self.rec.ev(obj! {"e": "store", "b": b, "ser": ser, "ts": J::A(ts)});
        if ser {
            for m in metadata {
                if !self.stored.contains(&m) {
                    self.stored.push(m);
                }
            }
        }
        self.waiting.insert(b, Waiting::Store(handle));
        self.poll();
    }

    fn take(&mut self) {
        for message in self.cache.take_out_messages() {
            match message {
                TabletDataCacheOutMessage::LoadRequest(c, request) => {
                    self.rec.ev(obj! {"e": "lreq", "c": c, "u": self.uris.code(&request.blob_uri)});
                    self.net.insert(c, Net::Load(request.blob_uri));
                }
                TabletDataCacheOutMessage::StoreRequest(c, request, data) => {
                    self.rec.ev(obj! {"e": "sreq", "c": c, "u": self.uris.code(&request.blob_uri),
                        "x": decode(&data).unwrap_or(GARBAGE)});
                    self.net.insert(c, Net::Store(request.blob_uri, data));
                }
            }
        }
    }

    fn tick(&mut self) {
        self.instant += 10;
        self.cache.make_progress(self.instant);
        // Whoever waits for failed entries learns about it before they are forgotten.
        self.poll();
        self.rec.ev(obj! {"e": "tick"});
        self.take();
        self.poll();
    }

    fn poll(&mut self) {
        let mut finished = Vec::new();
        for (b, waiting) in &self.waiting {
            let event = match waiting {
                Waiting::Load(handle) => match handle.check_result() {
                    Some(Ok(items)) => {
                        let mut out = Vec::new();
                        for (m, data) in &items {
                            let c: i64 = **data;
                            out.push(obj! {"id": m.tablet_id, "v": m.tablet_version,
                                "u": self.uris.code(&m.blob_uri), "h": unhash(&m.blob_hash), "c": c});
                        }
                        obj! {"e": "res", "b": *b, "ok": true, "failed": false, "out": J::A(out)}
                    }
                    Some(Err(status)) => obj! {"e": "res", "b": *b, "ok": false, "failed": status == TabletDataStorageStatus::Failed, "out": J::A(vec![])},
                    None => continue,
                },
                Waiting::Store(handle) => match handle.check_result() {
                    Some(result) => obj! {"e": "res", "b": *b, "ok": result.is_ok(),
                        "failed": matches!(result, Err(TabletDataStorageStatus::Failed)), "out": J::A(vec![])},
                    None => continue,
                },
            };
            self.rec.ev(event);
            finished.push(*b);
        }
        for b in finished {
            self.waiting.remove(&b);
        }
    }

    fn pick(&self, load: bool, wish: usize) -> Option<u64> {
        let all: Vec<u64> = self
            .net
            .iter()
            .filter(|(_, n)| matches!(n, Net::Load(_)) == load)
            .map(|(c, _)| *c)
            .collect();
        if all.contains(&(wish as u64)) {
            Some(wish as u64)
        } else if all.is_empty() {
            None
        } else {
            Some(all[wish % all.len()])
        }
    }

    fn answer_load(&mut self, c: u64, kind: &str) {
        let uri = match self.net.remove(&c) {
            Some(Net::Load(uri)) => uri,
            Some(other) => {
                self.net.insert(c, other);
                return;
            }
            None => return,
        };
        let good = self.blobs.get(&uri).cloned();
        let (ok, data) = match (kind, good) {
            ("good", Some(data)) => (true, data),
            ("other", Some(data)) => (true, encode(decode(&data).unwrap_or(0) + 1)),
            ("other", None) => (true, encode(5)),
            ("garbage", _) => (true, encode(GARBAGE)),
            ("empty", _) => (true, Bytes::new()),
            _ => (false, Bytes::new()),
        };
        self.rec.ev(obj! {"e": "lresp", "c": c, "ok": ok, "x": decode(&data).unwrap_or(GARBAGE)});
        self.cache.process_in_message(TabletDataCacheInMessage::LoadResponse(
            c,
            LoadTabletResponse {
                status: if ok { TabletDataStorageStatus::Succeeded } else { TabletDataStorageStatus::Failed }.into(),
            },
            data,
        ));
        self.poll();
    }

    fn answer_store(&mut self, c: u64, ok: bool) {
        match self.net.remove(&c) {
            Some(Net::Store(uri, data)) => {
                if ok {
                    self.blobs.insert(uri, data);
                }
            }
            Some(other) => {
                self.net.insert(c, other);
                return;
            }
            None => return,
        };
        self.rec.ev(obj! {"e": "sresp", "c": c, "ok": ok});
        self.cache.process_in_message(TabletDataCacheInMessage::StoreResponse(
            c,
            StoreTabletResponse {
                status: if ok { TabletDataStorageStatus::Succeeded } else { TabletDataStorageStatus::Failed }.into(),
            },
        ));
        self.poll();
    }

    fn drain(&mut self) {
        for _ in 0..4 {
            self.tick();
            for c in self.net.keys().copied().collect::<Vec<u64>>() {
                self.answer_load(c, "good");
                self.answer_store(c, true);
            }
        }
        self.tick();
        self.rec.ev(obj! {"e": "end"});
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let mut known = Vec::new();
    let mut u = 0;
    for id in 1..=rng.range(2, 6) as u32 {
        let v = rng.below(4) as u32;
        match rng.below(6) {
            0 | 1 => known.push(foreign(id, v, 0, NO_HASH)),
            2 => {
                u += 1;
                known.push(foreign(id, v, u, NO_HASH));
            }
            _ => {
                u += 1;
                known.push(foreign(id, v, u, rng.below(5) as i64));
            }
        }
    }
    let hostile = rng.chance(50);
    let eager = rng.chance(50);
    let mut run = Run::new(rec, known);
    let steps = rng.range(5, 45);
    for _ in 0..steps {
        let wish = rng.below(20);
        match rng.below(10) {
            0 | 1 | 2 if run.batches < 12 => {
                let mut ms = Vec::new();
                for _ in 0..rng.below(5) {
                    let stored = !run.stored.is_empty() && rng.chance(40);
                    let m = rng.pick(if stored { &run.stored } else { &run.foreign }).clone();
                    if !ms.contains(&m) || rng.chance(15) {
                        ms.push(m);
                    }
                }
                run.load(ms);
            }
            3 | 4 if run.batches < 12 => {
                let mut ts: Vec<(TabletMetadata, i64)> = Vec::new();
                for _ in 0..rng.below(4) {
                    let again = !run.stored.is_empty() && rng.chance(40);
                    let m = rng.pick(if again { &run.stored } else { &run.foreign }).clone();
                    if ts.iter().any(|(t, _)| t.tablet_id == m.tablet_id) {
                        continue;
                    }
                    let c = if rng.chance(4) { UNSTORABLE } else { rng.below(4) as i64 };
                    ts.push((m, c));
                }
                run.store(ts);
            }
            5 | 6 => {
                if let Some(c) = run.pick(true, wish) {
                    let kind = if hostile && rng.chance(40) {
                        *rng.pick(&["fail", "other", "garbage", "empty"])
                    } else {
                        "good"
                    };
                    run.answer_load(c, kind);
                }
            }
            7 => {
                if let Some(c) = run.pick(false, wish) {
                    run.answer_store(c, !(hostile && rng.chance(30)));
                }
            }
            _ => run.tick(),
        }
        if eager {
            run.take();
        }
    }
    run.drain();
}

pub fn script(rec: &Rec, script: &J, _rng: &mut Rng) {
    let known = vec![
        foreign(1, 1, 1, 1),
        foreign(2, 0, 0, NO_HASH),
        foreign(3, 4, 2, 2),
        foreign(4, 0, 0, NO_HASH),
        foreign(5, 2, 3, NO_HASH),
    ];
    let mut run = Run::new(rec, known);
    for op in script.get("ops").items() {
        match op.get("e").text() {
            "load" => {
                let mut ms = Vec::new();
                for m in op.get("ms").items() {
                    let (id, v) = (m.get("id").int() as u32, m.get("v").int() as u32);
                    let (u, h) = (m.get("u").int(), m.get("h").int());
                    if u < 1000 {
                        ms.push(foreign(id, v, u, h));
                    } else if let Some(stored) = run
                        .stored
                        .iter()
                        .find(|s| s.tablet_id == id && s.tablet_version == v && unhash(&s.blob_hash) == h)
                    {
                        ms.push(stored.clone());
                    }
                }
                run.load(ms);
            }
            "store" => {
                let ts = op
                    .get("ts")
                    .items()
                    .iter()
                    .map(|t| (foreign(t.get("id").int() as u32, t.get("v").int() as u32, 0, NO_HASH), t.get("c").int()))
                    .collect();
                run.store(ts);
            }
            "lresp" => {
                if let Some(c) = run.pick(true, op.get("c").int() as usize) {
                    run.answer_load(c, op.get("kind").text());
                }
            }
            "sresp" => {
                if let Some(c) = run.pick(false, op.get("c").int() as usize) {
                    run.answer_store(c, op.get("ok").flag());
                }
            }
            "tick" => run.tick(),
            other => panic!("script: unknown step {}", other),
        }
        run.take();
    }
    run.drain();
}
