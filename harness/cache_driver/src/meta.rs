//! Drives DefaultTabletMetadataCache against a tablet store whose answers are executed and
//! delivered in any order, and may fail.

use crate::ring;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    TableMetadataCacheConfig, TabletMetadataCacheConfig,
};
use tcp_tablet_cache_service::transaction::{
    metadata::{
        DefaultTabletMetadataCache, TabletMetadataCache, TabletMetadataCacheInMessage,
        TabletMetadataCacheOutMessage,
    },
    result::ResultHandle,
    TableQuery, TabletDescriptor,
};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result, ListTabletResult, TabletMetadata, TabletOp, TabletOpResult,
    TabletOpStatus, TabletsRequestStatus,
};
use vcommon::{enc, obj, Rec, Rng, J};

pub fn genuine(table: &str, id: u32, version: u32) -> TabletMetadata {
    TabletMetadata {
        tablet_id: id,
        tablet_version: version,
        blob_size: version + 7,
        blob_uri: format!("{}_{}_{}", table, id, version),
        blob_hash: format!("hash {} {} {}", table, id, version).into_bytes().into(),
        ..Default::default()
    }
}

#[derive(Clone)]
pub struct Cf {
    pub table: String,
    pub size: u32,
    pub ids: Vec<u32>,
}

enum Net {
    Sent(Vec<TabletOp>),
    Executed(Vec<TabletOpResult>),
}

type Outcome = Vec<(TableQuery, TabletMetadata)>;

enum Waiting {
    Handle(ResultHandle<Outcome, TabletsRequestStatus>),
    Handler(Rc<RefCell<Vec<Vec<(TableQuery, TabletDescriptor)>>>>),
}

struct Run<'a> {
    rec: &'a Rec,
    cf: Vec<Cf>,
    cache: DefaultTabletMetadataCache,
    versions: BTreeMap<(String, u32), u32>,
    net: BTreeMap<u64, Net>,
    waiting: BTreeMap<usize, Waiting>,
    next_resolve: usize,
    instant: u64,
}

pub enum OpIn {
    Resolve { handler: bool, queries: Vec<(u64, String, Vec<u32>)> },
    Tick,
    Exec { c: u64, fail: u64 },
    Deliver { c: u64 },
    Commit { table: String, id: u32 },
    Update { table: String, id: u32, version: u32, conflict: bool },
}

impl<'a> Run<'a> {
    fn new(rec: &'a Rec, cf: Vec<Cf>) -> Self {
        rec.ev(obj! {"e": "cf", "tables": J::A(cf.iter().map(|c| obj! {
            "t": c.table.as_str(),
            "r": J::A(ring::regions(c.size).into_iter().map(|(f, l)| J::A(vec![J::I(enc(f)), J::I(enc(l))])).collect()),
            "ids": J::A(c.ids.iter().map(|i| J::I(enc(*i))).collect()),
        }).collect())});
        let mut cache = DefaultTabletMetadataCache::create(0);
        cache.init(
            slog::Logger::root(slog::Discard, slog::o!()),
            TabletMetadataCacheConfig {
                table_configs: cf
                    .iter()
                    .map(|c| TableMetadataCacheConfig {
                        table_name: c.table.clone(),
                        table_region_size: c.size,
                    })
                    .collect(),
            },
        );
        let mut versions = BTreeMap::new();
        for c in &cf {
            for id in &c.ids {
                versions.insert((c.table.clone(), *id), 1);
            }
        }
        Run {
            rec,
            cf,
            cache,
            versions,
            net: BTreeMap::new(),
            waiting: BTreeMap::new(),
            next_resolve: 0,
            instant: 0,
        }
    }

    fn ids(&self, table: &str) -> Vec<u32> {
        self.cf.iter().find(|c| c.table == table).unwrap().ids.clone()
    }

    fn poll(&mut self) {
        let mut finished = Vec::new();
        for (r, waiting) in &self.waiting {
            let out: Option<Vec<J>> = match waiting {
                Waiting::Handle(handle) => handle.check_result().map(|result| match result {
                    Ok(items) => items
                        .iter()
                        .map(|(query, metadata)| {
                            let table = query.get_table_name();
                            obj! {
                                "q": query.get_id(), "t": table.as_str(),
                                "k": J::A(query.get_key_hashes().iter().map(|k| J::I(enc(*k))).collect()),
                                "id": enc(metadata.tablet_id), "v": metadata.tablet_version,
                                "m": *metadata == genuine(table, metadata.tablet_id, metadata.tablet_version)
                            }
                        })
                        .collect(),
                    Err(_) => vec![],
                }),
                Waiting::Handler(calls) => {
                    let calls = std::mem::take(&mut *calls.borrow_mut());
                    for extra in calls.iter().skip(1) {
                        let _ = extra;
                        self.rec.ev(obj! {"e": "res", "r": *r, "out": J::A(vec![]), "hv": false});
                    }
                    calls.first().map(|items| {
                        items
                            .iter()
                            .map(|(query, descriptor)| {
                                obj! {
                                    "q": query.get_id(), "t": query.get_table_name().as_str(),
                                    "k": J::A(query.get_key_hashes().iter().map(|k| J::I(enc(*k))).collect()),
                                    "id": enc(descriptor.get_id()), "v": 0u32, "m": true
                                }
                            })
                            .collect()
                    })
                }
            };
            if let Some(out) = out {
                self.rec.ev(obj! {"e": "res", "r": *r, "out": J::A(out), "hv": matches!(waiting, Waiting::Handle(_))});
                if let Waiting::Handle(_) = waiting {
                    finished.push(*r);
                }
            }
        }
        for r in finished {
            self.waiting.remove(&r);
        }
    }

    fn tick(&mut self) {
        self.instant += 10;
        self.cache.make_progress(self.instant);
        for message in self.cache.take_out_messages() {
            match message {
                TabletMetadataCacheOutMessage::ListRequest(c, ops) => {
                    self.rec.ev(obj! {"e": "list", "c": c, "ops": J::A(ops.iter().map(|op| match &op.op {
                        Some(Op::ListTablet(l)) => obj! {"t": op.table_name.as_str(), "f": enc(l.key_hash_from), "l": enc(l.key_hash_to)},
                        _ => obj! {"t": op.table_name.as_str(), "f": 0i64, "l": -1i64},
                    }).collect())});
                    self.net.insert(c, Net::Sent(ops));
                }
            }
        }
    }

    fn step(&mut self, op: OpIn) {
        match op {
            OpIn::Resolve { handler, queries } => {
                self.next_resolve += 1;
                let r = self.next_resolve;
                self.rec.ev(obj! {"e": "resolve", "r": r, "h": handler, "q": J::A(queries.iter().map(|(q, t, k)| obj! {
                    "q": *q, "t": t.as_str(), "k": J::A(k.iter().map(|k| J::I(enc(*k))).collect())
                }).collect())});
                let queries = queries
                    .into_iter()
                    .map(|(q, t, k)| TableQuery::create(q, t, k))
                    .collect();
                if handler {
                    let calls = Rc::new(RefCell::new(Vec::new()));
                    self.waiting.insert(r, Waiting::Handler(calls.clone()));
                    self.cache.resolve_tablets_with_handler(
                        &queries,
                        Box::new(move |items| calls.borrow_mut().push(items)),
                    );
                } else {
                    let handle = self.cache.resolve_tablets(&queries);
                    self.waiting.insert(r, Waiting::Handle(handle));
                }
            }
            OpIn::Tick => {
                self.rec.ev(obj! {"e": "tick"});
                self.tick();
            }
            OpIn::Exec { c, fail } => {
                let ops = match self.net.get(&c) {
                    Some(Net::Sent(ops)) => ops.clone(),
                    _ => return,
                };
                let mut oks = Vec::new();
                let mut results = Vec::new();
                for (i, op) in ops.iter().enumerate() {
                    let ok = fail & (1 << i) == 0;
                    oks.push(ok);
                    let (from, to) = match &op.op {
                        Some(Op::ListTablet(l)) => (l.key_hash_from, l.key_hash_to),
                        _ => (0, 0),
                    };
                    let tablets = if ok {
                        ring::cover(&self.ids(&op.table_name), from, to)
                            .into_iter()
                            .map(|id| {
                                genuine(&op.table_name, id, self.versions[&(op.table_name.clone(), id)])
                            })
                            .collect()
                    } else {
                        Vec::new()
                    };
                    results.push(TabletOpResult {
                        table_name: op.table_name.clone(),
                        status: if ok { TabletOpStatus::Succeeded } else { TabletOpStatus::Failed }.into(),
                        op_result: Some(tablet_op_result::OpResult::ListTablet(ListTabletResult {
                            key_hash_from: from,
                            key_hash_to: to,
                            tablets,
                        })),
                    });
                }
                self.rec.ev(obj! {"e": "exec", "c": c, "ok": oks});
                self.net.insert(c, Net::Executed(results));
            }
            OpIn::Deliver { c } => {
                let results = match self.net.remove(&c) {
                    Some(Net::Executed(results)) => results,
                    Some(other) => {
                        self.net.insert(c, other);
                        return;
                    }
                    None => return,
                };
                self.rec.ev(obj! {"e": "dlv", "c": c});
                self.cache
                    .process_in_message(TabletMetadataCacheInMessage::ListResponse(c, results));
            }
            OpIn::Commit { table, id } => {
                let v = self.versions.get_mut(&(table.clone(), id)).unwrap();
                *v += 1;
                self.rec.ev(obj! {"e": "commit", "t": table.as_str(), "id": enc(id), "v": *v});
            }
            OpIn::Update { table, id, version, conflict } => {
                self.rec.ev(obj! {"e": "upd", "t": table.as_str(), "id": enc(id), "v": version, "x": conflict});
                self.cache
                    .update_tablet(table.clone(), genuine(&table, id, version), conflict);
            }
        }
        self.poll();
    }

    /// Everything outstanding is answered successfully.
    fn drain(&mut self) {
        for _ in 0..6 {
            self.step(OpIn::Tick);
            let pending: Vec<u64> = self.net.keys().copied().collect();
            for c in pending {
                self.step(OpIn::Exec { c, fail: 0 });
                self.step(OpIn::Deliver { c });
            }
        }
        self.rec.ev(obj! {"e": "end"});
    }
}

fn random_cf(rng: &mut Rng) -> Vec<Cf> {
    let tables = if rng.chance(40) { 2 } else { 1 };
    let mut cf = Vec::new();
    for t in 0..tables {
        let size = *rng.pick(&ring::REGION_SIZES);
        let mut ids = Vec::new();
        for _ in 0..rng.range(1, 5) {
            let id = ring::interesting(rng, size, &[]);
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        cf.push(Cf { table: ["A", "B"][t].to_string(), size, ids });
    }
    cf
}

fn random_op(rng: &mut Rng, run: &Run) -> OpIn {
    let sent: Vec<u64> = run.net.iter().filter(|(_, n)| matches!(n, Net::Sent(_))).map(|(c, _)| *c).collect();
    let done: Vec<u64> = run.net.iter().filter(|(_, n)| matches!(n, Net::Executed(..))).map(|(c, _)| *c).collect();
    loop {
        match rng.below(12) {
            0 | 1 | 2 if run.next_resolve < 6 => {
                let mut queries = Vec::new();
                for q in 0..rng.below(4) {
                    let c = rng.pick(&run.cf).clone();
                    let mut keys = Vec::new();
                    for _ in 0..rng.below(6) {
                        keys.push(ring::interesting(rng, c.size, &c.ids));
                    }
                    queries.push((q as u64 + 1 + 10 * run.next_resolve as u64, c.table, keys));
                }
                return OpIn::Resolve { handler: rng.chance(30), queries };
            }
            3 | 4 | 5 => return OpIn::Tick,
            6 | 7 if !sent.is_empty() => {
                let fail = if rng.chance(30) { rng.next() } else { 0 };
                return OpIn::Exec { c: *rng.pick(&sent), fail };
            }
            8 | 9 if !done.is_empty() => return OpIn::Deliver { c: *rng.pick(&done) },
            10 => {
                let c = rng.pick(&run.cf);
                return OpIn::Commit { table: c.table.clone(), id: *rng.pick(&c.ids) };
            }
            11 => {
                let c = rng.pick(&run.cf);
                let id = *rng.pick(&c.ids);
                let current = run.versions[&(c.table.clone(), id)];
                let version = rng.range(1, current as usize) as u32;
                return OpIn::Update { table: c.table.clone(), id, version, conflict: rng.chance(50) };
            }
            _ => {}
        }
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let cf = random_cf(rng);
    let mut run = Run::new(rec, cf);
    for _ in 0..rng.range(5, 40) {
        let op = random_op(rng, &run);
        run.step(op);
    }
    run.drain();
}

/// Replays a behaviour of the specification. Positions 0..n-1 of the model's ring are spread
/// over the real one by `map`.
pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    let n = script.get("n").int() as u32;
    // The regions of the model are [0, size), [size, 2 size), ...
    let model_size = script.get("size").int() as u32;
    let size = *rng.pick(&[1u32 << 31, (1 << 31) + 1, 1 << 30, u32::MAX / 8, 0x5555_5556]);
    let regions = ring::regions(size);
    let mut map = Vec::new();
    let stretch = rng.range(0, 2);
    for p in 0..n {
        let (from, to) = regions[((p / model_size) as usize).min(regions.len() - 1)];
        let at = p % model_size;
        let last = model_size - 1;
        map.push(match stretch {
            // The ends of the region are the ends of the model's region.
            0 if at == last => to,
            0 => from + at,
            1 => from + at,
            _ if at == 0 => from,
            _ => from + (to - from) / (last + 1) * at,
        });
    }
    if stretch == 0 && rng.chance(50) {
        map[n as usize - 1] = u32::MAX;
    }
    let pos = |j: &J| map[j.int() as usize];
    let cf = script
        .get("tables")
        .items()
        .iter()
        .map(|t| Cf {
            table: t.get("t").text().to_string(),
            size,
            ids: t.get("ids").items().iter().map(|i| pos(i)).collect(),
        })
        .collect();
    let mut run = Run::new(rec, cf);
    for op in script.get("ops").items() {
        let op = match op.get("e").text() {
            "resolve" => OpIn::Resolve {
                handler: rng.chance(30),
                queries: op
                    .get("q")
                    .items()
                    .iter()
                    .map(|q| {
                        (
                            q.get("q").int() as u64,
                            q.get("t").text().to_string(),
                            q.get("k").items().iter().map(|k| pos(k)).collect(),
                        )
                    })
                    .collect(),
            },
            "list" => OpIn::Tick,
            "exec" => {
                // The n-th outstanding request of the model is the n-th of the run.
                let mut fail = 0;
                for (i, ok) in op.get("ok").items().iter().enumerate() {
                    if !ok.flag() {
                        fail |= 1 << i;
                    }
                }
                OpIn::Exec { c: op.get("c").int() as u64, fail }
            }
            "dlv" => OpIn::Deliver { c: op.get("c").int() as u64 },
            "commit" => OpIn::Commit { table: op.get("t").text().to_string(), id: pos(op.get("id")) },
            "upd" => {
                let table = op.get("t").text().to_string();
                let id = pos(op.get("id"));
                let version = (op.get("v").int() as u32).min(run.versions[&(table.clone(), id)]);
                OpIn::Update { table, id, version, conflict: op.get("x").flag() }
            }
            other => panic!("script: unknown step {}", other),
        };
        run.step(op);
    }
    run.drain();
}
