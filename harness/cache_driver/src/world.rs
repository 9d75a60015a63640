//! The world around nodes with transaction managers: one tablet store (of record), one data
//! storage, and a network that delivers answers in any order and may fail.

use crate::data::{decode, encode, GARBAGE};
use crate::ring;
use prost::bytes::Bytes;
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashMap};
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    ExecuteTabletOpsError, ExecuteTabletOpsResponse, LoadTabletResponse, StoreTabletResponse, TableMetadataCacheConfig,
    TabletDataCacheConfig, TabletDataStorageStatus, TabletMetadataCacheConfig, TransactionManagerConfig,
};
use tcp_tablet_cache_service::transaction::{
    coordinator::DefaultTabletTransactionCoordinator,
    data::{DefaultTabletDataCache, DefaultTabletDataCachePolicy, TabletDataSerializer},
    manager::DefaultTabletTransactionManager,
    metadata::DefaultTabletMetadataCache,
    InMessage, OutMessage, TabletTransactionManager,
};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op, tablet_op_result, CheckTabletResult, ListTabletResult, TabletMetadata, TabletOpResult, TabletOpStatus,
    TabletsRequest, TabletsRequestStatus, TabletsResponse, UpdateTabletResult,
};
use vcommon::{enc, obj, Rec, Rng, J};

#[derive(Clone)]
pub struct TabletCf {
    pub id: u32,
    pub v: u32,
    /// 0: never stored.
    pub u: i64,
    pub c: i64,
}

#[derive(Clone)]
pub struct TableCf {
    pub name: String,
    pub region: u32,
    pub tablets: Vec<TabletCf>,
}

pub enum Net {
    Load(String),
    Store(String, Bytes),
    /// Request, is it a commit request, answer once executed.
    Ops(TabletsRequest, bool, Option<TabletsResponse>),
}

/// How contents become blobs and numbers.
pub trait Contents {
    fn code(&mut self, bytes: &Bytes) -> i64;
}

pub struct World {
    pub rec: Rec,
    pub cf: Vec<TableCf>,
    pub tables: BTreeMap<String, BTreeMap<u32, TabletMetadata>>,
    pub blobs: BTreeMap<String, Bytes>,
    pub hashes: HashMap<Vec<u8>, i64>,
    pub uris: Vec<String>,
    pub nets: Vec<BTreeMap<u64, Net>>,
    /// Decodes blobs into numbers.
    pub code: Box<dyn Fn(&Bytes) -> i64>,
    /// What the storage answers instead of a blob if it misbehaves.
    pub corrupt: Box<dyn Fn(&Bytes) -> Bytes>,
    /// Describes the contents of updated tablets in exec events.
    pub describe: Option<Box<dyn Fn(&Bytes) -> J>>,
    /// Executes requests instead of the tablet store of this world.
    pub executor: Option<Box<dyn FnMut(&TabletsRequest) -> TabletsResponse>>,
    /// Correlation ids as small numbers.
    pub small: fn(u64) -> u64,
}

impl World {
    pub fn new(
        rec: &Rec,
        nodes: usize,
        cf: Vec<TableCf>,
        to_bytes: &dyn Fn(&str, i64) -> Bytes,
        code: Box<dyn Fn(&Bytes) -> i64>,
    ) -> World {
        rec.ev(obj! {"e": "cf", "nodes": nodes, "tables": J::A(cf.iter().map(|t| obj! {
            "t": t.name.as_str(),
            "tablets": J::A(t.tablets.iter().map(|x| obj!{"id": enc(x.id), "v": x.v, "u": x.u, "c": x.c}).collect())
        }).collect())});
        let mut w = World {
            rec: rec.clone(),
            tables: BTreeMap::new(),
            blobs: BTreeMap::new(),
            hashes: HashMap::new(),
            uris: Vec::new(),
            nets: (0..nodes).map(|_| BTreeMap::new()).collect(),
            cf: cf.clone(),
            code,
            corrupt: Box::new(|data| match decode(data) {
                Some(x) if x % 2 == 0 => encode(x + 1),
                _ => encode(GARBAGE),
            }),
            describe: None,
            executor: None,
            small: |c| c,
        };
        // A tablet that has never been stored has no blob and is empty.
        w.blobs.insert(String::new(), Bytes::new());
        for t in &cf {
            let mut tablets = BTreeMap::new();
            for x in &t.tablets {
                let bytes = to_bytes(&t.name, x.c);
                let m = if x.u == 0 {
                    TabletMetadata { tablet_id: x.id, tablet_version: x.v, ..Default::default() }
                } else {
                    let hash = Sha256::digest(&bytes).to_vec();
                    w.hashes.insert(hash.clone(), x.c);
                    w.blobs.insert(format!("blob{}", x.u), bytes.clone());
                    TabletMetadata {
                        tablet_id: x.id,
                        tablet_version: x.v,
                        blob_uri: format!("blob{}", x.u),
                        blob_size: bytes.len() as u32,
                        blob_hash: hash.into(),
                        ..Default::default()
                    }
                };
                tablets.insert(x.id, m);
            }
            w.tables.insert(t.name.clone(), tablets);
        }
        w
    }

    pub fn uri(&mut self, uri: &str) -> i64 {
        if uri.is_empty() {
            return 0;
        }
        if let Some(n) = uri.strip_prefix("blob").and_then(|n| n.parse::<i64>().ok()) {
            return n;
        }
        if let Some(i) = self.uris.iter().position(|n| n == uri) {
            return 1001 + i as i64;
        }
        self.uris.push(uri.to_string());
        1000 + self.uris.len() as i64
    }

    pub fn ids(&self, table: &str) -> Vec<u32> {
        self.tables.get(table).map_or(vec![], |t| t.keys().copied().collect())
    }

    /// Contents a hash stands for: 0 for none, -3 for an unknown one.
    fn unhash(&self, h: &Bytes) -> i64 {
        if h.is_empty() {
            0
        } else {
            self.hashes.get(h.as_ref()).copied().unwrap_or(-3)
        }
    }

    pub fn take_out(&mut self, n: usize, messages: Vec<OutMessage>) {
        for message in messages {
            match message {
                OutMessage::LoadTabletRequest(c, r) => {
                    self.nets[n].insert(c, Net::Load(r.blob_uri));
                }
                OutMessage::StoreTabletRequest(c, r, data) => {
                    let u = self.uri(&r.blob_uri);
                    let x = (self.code)(&data);
                    self.hashes.insert(Sha256::digest(&data).to_vec(), x);
                    self.rec.ev(obj! {"e": "sreq", "n": n + 1, "c": (self.small)(c), "u": u, "x": x});
                    self.nets[n].insert(c, Net::Store(r.blob_uri, data));
                }
                OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                    let lists = r.tablet_ops.iter().all(|o| matches!(o.op, Some(tablet_op::Op::ListTablet(_))));
                    if !lists {
                        let ops = r
                            .tablet_ops
                            .iter()
                            .map(|o| match &o.op {
                                Some(tablet_op::Op::CheckTablet(x)) => obj! {"k": "check", "t": o.table_name.as_str(),
                                    "id": enc(x.tablet_id), "v": x.tablet_version, "u": 0i64, "h": 0i64},
                                Some(tablet_op::Op::UpdateTablet(x)) => {
                                    let m = x.tablet_metadata.clone().unwrap_or_default();
                                    obj! {"k": "update", "t": o.table_name.as_str(), "id": enc(m.tablet_id),
                                        "v": m.tablet_version, "u": self.uri(&m.blob_uri), "h": self.unhash(&m.blob_hash)}
                                }
                                _ => obj! {"k": "other", "t": o.table_name.as_str(), "id": 0i64, "v": 0i64, "u": 0i64, "h": 0i64},
                            })
                            .collect();
                        self.rec.ev(obj! {"e": "ops", "n": n + 1, "c": (self.small)(c), "ops": J::A(ops)});
                    }
                    self.nets[n].insert(c, Net::Ops(r, !lists, None));
                }
            }
        }
    }

    /// The tablet store, executing one request as a transaction.
    fn execute(&mut self, r: &TabletsRequest) -> (bool, TabletsResponse) {
        if let Some(executor) = &mut self.executor {
            let response = executor(r);
            return (response.status == i32::from(TabletsRequestStatus::Succeeded), response);
        }
        let mut results = Vec::new();
        let mut all = true;
        for o in &r.tablet_ops {
            let mut status = TabletOpStatus::Failed;
            let op_result = match (self.tables.get(&o.table_name), &o.op) {
                (Some(t), Some(tablet_op::Op::ListTablet(l))) => {
                    status = TabletOpStatus::Succeeded;
                    let ids: Vec<u32> = t.keys().copied().collect();
                    Some(tablet_op_result::OpResult::ListTablet(ListTabletResult {
                        key_hash_from: l.key_hash_from,
                        key_hash_to: l.key_hash_to,
                        tablets: ring::cover(&ids, l.key_hash_from, l.key_hash_to)
                            .iter()
                            .map(|i| t[i].clone())
                            .collect(),
                    }))
                }
                (Some(t), Some(tablet_op::Op::CheckTablet(x))) => {
                    let mut existing_tablet = None;
                    if let Some(m) = t.get(&x.tablet_id) {
                        if m.tablet_version == x.tablet_version {
                            status = TabletOpStatus::Succeeded;
                        } else {
                            existing_tablet = Some(m.clone());
                        }
                    }
                    Some(tablet_op_result::OpResult::CheckTablet(CheckTabletResult { existing_tablet }))
                }
                (Some(t), Some(tablet_op::Op::UpdateTablet(x))) => {
                    let mut existing_tablet = None;
                    if let Some(new) = &x.tablet_metadata {
                        if let Some(m) = t.get(&new.tablet_id) {
                            if m.tablet_version + 1 == new.tablet_version {
                                status = TabletOpStatus::Succeeded;
                            }
                            existing_tablet = Some(m.clone());
                        }
                    }
                    Some(tablet_op_result::OpResult::UpdateTablet(UpdateTabletResult { existing_tablet }))
                }
                _ => {
                    status = TabletOpStatus::Invalid;
                    None
                }
            };
            all &= status == TabletOpStatus::Succeeded;
            results.push(TabletOpResult { table_name: o.table_name.clone(), status: status.into(), op_result });
        }
        if all {
            for o in &r.tablet_ops {
                if let Some(tablet_op::Op::UpdateTablet(x)) = &o.op {
                    let new = x.tablet_metadata.clone().unwrap();
                    self.tables.get_mut(&o.table_name).unwrap().insert(new.tablet_id, new);
                }
            }
        }
        let status = if all { TabletsRequestStatus::Succeeded } else { TabletsRequestStatus::Failed };
        (all, TabletsResponse { status: status.into(), tablet_results: results })
    }

    pub fn exec(&mut self, n: usize, c: u64) {
        if !matches!(self.nets[n].get(&c), Some(Net::Ops(_, _, None))) {
            return;
        }
        if let Some(Net::Ops(r, commit, None)) = self.nets[n].remove(&c) {
            let (applied, response) = self.execute(&r);
            if commit {
                let mut ev = obj! {"e": "exec", "n": n + 1, "c": (self.small)(c), "applied": applied};
                if let (Some(describe), J::O(fields)) = (&self.describe, &mut ev) {
                    let (mut ts, mut w, mut lost) = (Vec::new(), Vec::new(), false);
                    for o in &r.tablet_ops {
                        match &o.op {
                            Some(tablet_op::Op::CheckTablet(x)) => ts.push(J::I(enc(x.tablet_id))),
                            Some(tablet_op::Op::UpdateTablet(x)) => {
                                let m = x.tablet_metadata.clone().unwrap_or_default();
                                ts.push(J::I(enc(m.tablet_id)));
                                match self.blobs.get(&m.blob_uri) {
                                    Some(b) => w.push(obj! {"id": enc(m.tablet_id), "d": describe(b)}),
                                    None => lost = true,
                                }
                            }
                            _ => {}
                        }
                    }
                    fields.push(("ts".into(), J::A(ts)));
                    fields.push(("w".into(), J::A(w)));
                    fields.push(("lost".into(), J::B(lost)));
                }
                self.rec.ev(ev);
            }
            self.nets[n].insert(c, Net::Ops(r, commit, Some(response)));
        }
    }

    /// Answers request c of node n: kind "ok", "fail" (an error), "corrupt" (a load with other
    /// contents), "partial" (a response without all results).
    pub fn answer(&mut self, n: usize, c: u64, kind: &str) -> Option<InMessage> {
        if let Some(Net::Ops(_, _, None)) = self.nets[n].get(&c) {
            if kind != "fail" {
                self.exec(n, c);
            }
        }
        match self.nets[n].remove(&c)? {
            Net::Load(uri) => {
                let good = self.blobs.get(&uri).cloned();
                let (ok, data) = match (kind, good) {
                    ("ok", Some(data)) => (true, data),
                    ("corrupt", Some(data)) => (true, (self.corrupt)(&data)),
                    _ => (false, Bytes::new()),
                };
                if !(kind == "ok" && ok) {
                    self.rec.ev(obj! {"e": "lbad", "n": n + 1});
                }
                let status = if ok { TabletDataStorageStatus::Succeeded } else { TabletDataStorageStatus::Failed };
                Some(InMessage::LoadTabletResponse(c, LoadTabletResponse { status: status.into() }, data))
            }
            Net::Store(uri, data) => {
                let ok = kind == "ok";
                let u = self.uri(&uri);
                if ok {
                    self.blobs.insert(uri, data);
                }
                self.rec.ev(obj! {"e": "sresp", "n": n + 1, "u": u, "ok": ok});
                let status = if ok { TabletDataStorageStatus::Succeeded } else { TabletDataStorageStatus::Failed };
                Some(InMessage::StoreTabletResponse(c, StoreTabletResponse { status: status.into() }))
            }
            Net::Ops(_, commit, response) => {
                let sure = kind == "ok";
                if commit {
                    self.rec.ev(obj! {"e": "dlv", "n": n + 1, "c": (self.small)(c), "sure": sure});
                }
                Some(match (kind, response) {
                    ("ok", Some(r)) => InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse::default(), r),
                    ("partial", Some(mut r)) => {
                        match c % 3 {
                            0 => r.tablet_results.clear(),
                            1 => drop(r.tablet_results.pop()),
                            // One of the results is empty.
                            _ => {
                                let i = (c as usize / 3) % r.tablet_results.len().max(1);
                                if let Some(x) = r.tablet_results.get_mut(i) {
                                    x.op_result = None;
                                }
                            }
                        }
                        InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse::default(), r)
                    }
                    _ => InMessage::ExecuteTabletOpsError(c, ExecuteTabletOpsError::default()),
                })
            }
        }
    }

    /// The wish-th request of a node of some kind, preferring the request with this number.
    pub fn pick(&self, n: usize, kind: &str, wish: usize) -> Option<u64> {
        let all: Vec<u64> = self.nets[n]
            .iter()
            .filter(|(_, x)| match x {
                Net::Load(_) => kind == "load",
                Net::Store(_, _) => kind == "store",
                Net::Ops(_, true, _) => kind == "ops",
                Net::Ops(_, false, _) => kind == "list",
            })
            .map(|(c, _)| *c)
            .collect();
        if all.is_empty() {
            None
        } else {
            Some(all[wish % all.len()])
        }
    }
}

pub fn manager<T: Default + 'static>(cf: &[TableCf], codec: Box<dyn TabletDataSerializer<T>>) -> DefaultTabletTransactionManager<T> {
    // Requests of the parts of a node are told apart by disjoint correlation ids.
    let mut m = DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(0)),
        Box::new(DefaultTabletMetadataCache::create(200_000)),
        Box::new(DefaultTabletDataCache::create(100_000, codec, Box::new(DefaultTabletDataCachePolicy::new()))),
    );
    m.init(
        slog::Logger::root(slog::Discard, slog::o!()),
        TransactionManagerConfig {
            metadata_cache_config: Some(TabletMetadataCacheConfig {
                table_configs: cf
                    .iter()
                    .map(|t| TableMetadataCacheConfig { table_name: t.name.clone(), table_region_size: t.region })
                    .collect(),
            }),
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 40 }),
            ..Default::default()
        },
    );
    m
}

/// Tables with tablets at interesting places of the ring.
pub fn random_tables(rng: &mut Rng, tables: usize, max_tablets: usize, fresh: &mut dyn FnMut(&mut Rng) -> (i64, i64)) -> Vec<TableCf> {
    let same_ids = rng.chance(40);
    let mut ids: Vec<u32> = Vec::new();
    let mut all = Vec::new();
    for t in 0..tables {
        let region = if rng.chance(60) { u32::MAX } else { *rng.pick(&ring::REGION_SIZES) };
        if t == 0 || !same_ids {
            ids.clear();
            let n = rng.range(1, max_tablets);
            while ids.len() < n {
                let id = ring::interesting(rng, region, &ids);
                if !ids.contains(&id) {
                    ids.push(id);
                }
            }
        }
        all.push(TableCf {
            name: ((b'A' + t as u8) as char).to_string(),
            region,
            tablets: ids
                .iter()
                .map(|id| {
                    let (u, c) = fresh(rng);
                    // A tablet that has never been stored is at its first version.
                    TabletCf { id: *id, v: if u == 0 { 0 } else { rng.below(3) as u32 }, u, c }
                })
                .collect(),
        });
    }
    all
}
