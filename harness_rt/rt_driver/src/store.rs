//! Drives replicas of the tablet store actor: commands become requests, the driver decides their
//! order, and every replica applies them, possibly starting from a snapshot of another one.

use prost::bytes::Bytes;
use prost::Message;
use slog::Logger;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use tcp_runtime::model::*;
use tcp_tablet_store_service::actor::{RandomTabletConfigurator, TabletConfigurator, TabletStoreActor};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, tablet_store_in_message::InMsg,
    tablet_store_out_message::OutMsg, *,
};
use vcommon::{enc, obj, Rec, Rng, J};

struct Context {
    logger: Logger,
    id: u64,
    config: Bytes,
    leader: Rc<Cell<bool>>,
}

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn instant(&self) -> u64 {
        7
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}

/// Generates the ids it is given, or random ones if there are none.
pub struct Ids(pub Rc<RefCell<Vec<Vec<u32>>>>);

impl TabletConfigurator for Ids {
    fn generate(&mut self, n: u32) -> Vec<u32> {
        let mut ids = self.0.borrow_mut();
        if ids.is_empty() {
            RandomTabletConfigurator {}.generate(n)
        } else {
            ids.remove(0)
        }
    }
}

/// Everything that a tablet's metadata says besides id and version, by number.
#[derive(Default)]
struct Details {
    known: Vec<TabletMetadata>,
}

impl Details {
    fn of(&mut self, m: &TabletMetadata) -> i64 {
        let mut rest = m.clone();
        rest.tablet_id = 0;
        rest.tablet_version = 0;
        if rest == TabletMetadata::default() {
            return 0;
        }
        let found = self.known.iter().position(|k| *k == rest);
        let n = found.unwrap_or_else(|| {
            self.known.push(rest);
            self.known.len() - 1
        });
        n as i64 + 1
    }
    fn tablet(&mut self, m: &TabletMetadata) -> J {
        obj! {"id": enc(m.tablet_id), "v": enc(m.tablet_version), "x": self.of(m)}
    }
    fn tablets(&mut self, ms: &[TabletMetadata]) -> J {
        J::A(ms.iter().map(|m| self.tablet(m)).collect())
    }
    fn tables(&mut self, snapshot: &TabletStoreSnapshot) -> J {
        J::A(
            snapshot
                .table_snapshots
                .iter()
                .map(|t| obj! {"t": &t.table_name, "tablets": self.tablets(&t.table_tablets)})
                .collect(),
        )
    }
    fn op(&mut self, op: &TabletOp) -> J {
        let t = &op.table_name;
        match &op.op {
            None => obj! {"k": "none", "t": t},
            Some(Op::ListTablet(o)) => {
                obj! {"k": "list", "t": t, "f": enc(o.key_hash_from), "l": enc(o.key_hash_to)}
            }
            Some(Op::CheckTablet(o)) => {
                obj! {"k": "check", "t": t, "id": enc(o.tablet_id), "v": enc(o.tablet_version)}
            }
            Some(Op::UpdateTablet(o)) => {
                let m: Vec<J> = o.tablet_metadata.iter().map(|m| self.tablet(m)).collect();
                obj! {"k": "update", "t": t, "m": m}
            }
            Some(Op::AddTablet(_)) => obj! {"k": "add", "t": t},
            Some(Op::RemoveTablet(_)) => obj! {"k": "remove", "t": t},
        }
    }
    fn ops(&mut self, ops: &[TabletOp]) -> J {
        J::A(ops.iter().map(|o| self.op(o)).collect())
    }
    fn result(&mut self, r: &TabletOpResult) -> J {
        let st = match TabletOpStatus::try_from(r.status) {
            Ok(TabletOpStatus::Succeeded) => "ok",
            Ok(TabletOpStatus::Failed) => "fail",
            Ok(TabletOpStatus::Invalid) => "invalid",
            _ => "other",
        };
        let ex = |d: &mut Details, m: &Option<TabletMetadata>| {
            J::A(m.iter().map(|m| d.tablet(m)).collect())
        };
        let t = &r.table_name;
        match &r.op_result {
            None => obj! {"k": "none", "t": t, "st": st},
            Some(OpResult::ListTablet(o)) => obj! {
                "k": "list", "t": t, "st": st, "f": enc(o.key_hash_from), "l": enc(o.key_hash_to),
                "ms": self.tablets(&o.tablets)
            },
            Some(OpResult::CheckTablet(o)) => {
                obj! {"k": "check", "t": t, "st": st, "ex": ex(self, &o.existing_tablet)}
            }
            Some(OpResult::UpdateTablet(o)) => {
                obj! {"k": "update", "t": t, "st": st, "ex": ex(self, &o.existing_tablet)}
            }
            Some(_) => obj! {"k": "other", "t": t, "st": st},
        }
    }
}

const TABLES: [&str; 3] = ["A", "B", "users"];

type Layout = Vec<(String, Vec<TabletMetadata>)>;

struct Replica {
    actor: TabletStoreActor<Ids>,
    leader: Rc<Cell<bool>>,
    at: Option<usize>,
}

struct World {
    rec: Rec,
    details: Details,
    config: Bytes,
    layout: Layout,
    replicas: Vec<Replica>,
    next: u64,
    // What has been proposed and not been agreed on.
    pool: Vec<(u64, u64, Bytes)>,
    log: Vec<(u64, Bytes)>,
    snapshots: Vec<(Bytes, usize)>,
    // Metadata as it probably is, to choose sensible operations.
    guess: BTreeMap<(String, u32), u32>,
}

fn correlation(c: u64) -> u64 {
    // All of the 64 bits count.
    c.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

impl World {
    fn new(rec: &Rec, layout: Layout, replicas: usize, rng: &mut Rng) -> Self {
        let mut details = Details::default();
        let fresh = layout.iter().all(|(_, ms)| {
            ms.iter().all(|m| m.tablet_version == 0 && details.of(m) == 0)
        });
        let config = TabletStoreConfig {
            table_configs: layout
                .iter()
                .map(|(t, ms)| TableConfig {
                    table_name: t.clone(),
                    max_tablet_size: 1024,
                    min_tablet_size: 512,
                    initial_tablet_count: ms.len() as u32,
                })
                .collect(),
        };
        let snapshot = TabletStoreSnapshot {
            table_snapshots: layout
                .iter()
                .map(|(t, ms)| TableSnapshot { table_name: t.clone(), table_tablets: ms.clone() })
                .collect(),
        };
        rec.ev(obj! {"e": "cf", "tables": details.tables(&snapshot)});
        let mut w = World {
            rec: rec.clone(),
            details,
            config: config.encode_to_vec().into(),
            layout,
            replicas: vec![],
            next: 0,
            pool: vec![],
            log: vec![],
            snapshots: vec![],
            guess: BTreeMap::new(),
        };
        for (t, ms) in &w.layout {
            for m in ms {
                w.guess.insert((t.clone(), m.tablet_id), m.tablet_version);
            }
        }
        // Random numbers that repeat now and then.
        let mut r = Rng::new(rng.next());
        rand::set_source(Box::new(move || {
            if r.chance(30) { r.below(6) as u64 } else { r.next() }
        }));
        for n in 0..replicas {
            let ids = if n == 0 && fresh {
                w.layout.iter().map(|(_, ms)| ms.iter().map(|m| m.tablet_id).collect()).collect()
            } else {
                vec![]
            };
            let leader = Rc::new(Cell::new(false));
            let mut actor = TabletStoreActor::new(Ids(Rc::new(RefCell::new(ids))));
            actor
                .on_init(Box::new(Context {
                    logger: Logger::root(slog::Discard, slog::o!()),
                    id: n as u64 + 1,
                    config: w.config.clone(),
                    leader: leader.clone(),
                }))
                .expect("init");
            let confs: Vec<J> =
                w.layout.iter().map(|(t, ms)| obj! {"t": t, "n": ms.len()}).collect();
            let initial = TabletStoreSnapshot::decode(actor.on_save_snapshot().expect("save")).unwrap();
            let tables = w.details.tables(&initial);
            rec.ev(obj! {"e": "init", "confs": confs, "tables": tables});
            if n == 0 && !fresh {
                actor.on_load_snapshot(snapshot.encode_to_vec().into()).expect("load");
            }
            w.replicas.push(Replica { actor, leader, at: if n == 0 { Some(0) } else { None } });
        }
        w
    }

    fn command(&mut self, r: usize, leader: bool, hdr: &str, pl: &str, ops: Vec<TabletOp>) {
        self.next += 1;
        let c = self.next;
        let header: Bytes = match hdr {
            "ok" => TabletStoreInMessage {
                in_msg: Some(InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest {
                    sender_node_id: 9,
                })),
            }
            .encode_to_vec()
            .into(),
            "none" => Bytes::new(),
            _ => Bytes::from_static(b"\xff\xff\xff"),
        };
        let payload: Bytes = match pl {
            "ok" => TabletsRequest { tablet_ops: ops.clone() }.encode_to_vec().into(),
            _ => Bytes::from_static(b"\x0a\x7f broken"),
        };
        let replica = &mut self.replicas[r];
        replica.leader.set(leader);
        let outcome = replica
            .actor
            .on_process_command(Some(ActorCommand {
                correlation_id: correlation(c),
                header,
                payload: payload.clone(),
            }))
            .expect("process command");
        let (mut kind, mut corr, mut same) = ("other", true, true);
        if let (Some(event), 0) = (&outcome.event, outcome.commands.len()) {
            kind = "event";
            corr = event.correlation_id == correlation(c);
            same = event.contents.is_empty() && ops.is_empty()
                || TabletsRequest::decode(event.contents.clone())
                    .map_or(false, |e| e.tablet_ops == ops);
            self.pool.push((c, correlation(c), event.contents.clone()));
        } else if let (None, [answer]) = (&outcome.event, &outcome.commands[..]) {
            corr = answer.correlation_id == correlation(c);
            if let Ok(TabletStoreOutMessage { out_msg: Some(OutMsg::ExecuteTabletOpsError(e)) }) =
                TabletStoreOutMessage::decode(answer.header.clone())
            {
                kind = match ExecuteTabletOpsStatus::try_from(e.status) {
                    Ok(ExecuteTabletOpsStatus::Rejected) => "rejected",
                    Ok(ExecuteTabletOpsStatus::InvalidOperation) => "invalid",
                    _ => "other",
                };
            }
        }
        let ops = self.details.ops(&ops);
        self.rec.ev(obj! {"e": "cmd", "c": c, "r": r + 1, "ld": leader, "hdr": hdr, "pl": pl, "ops": ops,
            "kind": kind, "same": same, "corr": corr});
    }

    fn commit(&mut self, n: usize) {
        if n < self.pool.len() {
            let (c, correlation, contents) = self.pool.remove(n);
            self.log.push((correlation, contents.clone()));
            self.rec.ev(obj! {"e": "commit", "c": c});
            if let Ok(request) = TabletsRequest::decode(contents) {
                for op in request.tablet_ops {
                    if let Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) })) = op.op {
                        if let Some(v) = self.guess.get_mut(&(op.table_name, m.tablet_id)) {
                            if v.wrapping_add(1) == m.tablet_version {
                                *v = m.tablet_version;
                            }
                        }
                    }
                }
            }
        }
    }

    fn apply(&mut self, r: usize, own: bool) {
        let replica = &mut self.replicas[r];
        let Some(at) = replica.at else { return };
        let Some((correlation_id, contents)) = self.log.get(at).cloned() else { return };
        replica.leader.set(own);
        let outcome = replica
            .actor
            .on_apply_event(
                ActorEventContext { index: at as u64 + 1, owned: own },
                ActorEvent { correlation_id, contents },
            );
        replica.at = Some(at + 1);
        let commands = match outcome {
            Ok(o) => o.commands,
            Err(e) => panic!("replica stops: {:?}", e),
        };
        let n = commands.len();
        let (mut corr, mut ok, mut res, mut answered) = (false, false, J::A(vec![]), 0);
        if let [answer] = &commands[..] {
            corr = answer.correlation_id == correlation_id;
            let header = TabletStoreOutMessage::decode(answer.header.clone());
            let response = TabletsResponse::decode(answer.payload.clone());
            if let (
                Ok(TabletStoreOutMessage { out_msg: Some(OutMsg::ExecuteTabletOpsResponse(_)) }),
                Ok(response),
            ) = (header, response)
            {
                ok = response.status == TabletsRequestStatus::Succeeded as i32;
                res = J::A(response.tablet_results.iter().map(|r| self.details.result(r)).collect());
                answered = 1;
            }
        }
        let n = if n == 1 && answered == 0 { 99 } else { n };
        self.rec.ev(obj! {"e": "apply", "r": r + 1, "own": own, "n": n, "corr": corr, "ok": ok, "res": res});
    }

    fn save(&mut self, r: usize) {
        let Some(at) = self.replicas[r].at else { return };
        let bytes = self.replicas[r].actor.on_save_snapshot().expect("save");
        let snapshot = TabletStoreSnapshot::decode(bytes.clone()).expect("snapshot");
        self.snapshots.push((bytes, at));
        let tables = self.details.tables(&snapshot);
        self.rec.ev(obj! {"e": "save", "r": r + 1, "s": self.snapshots.len(), "tables": tables});
    }

    fn load(&mut self, r: usize, s: usize) {
        let Some((bytes, at)) = self.snapshots.get(s).cloned() else { return };
        // Replicas do not go back.
        if self.replicas[r].at.map_or(false, |have| have > at) {
            return;
        }
        let ok = self.replicas[r].actor.on_load_snapshot(bytes).is_ok();
        self.replicas[r].at = Some(at);
        self.rec.ev(obj! {"e": "load", "r": r + 1, "s": s + 1, "ok": ok});
    }

    fn position(&self, t: &str, rng: &mut Rng) -> u32 {
        let ids: Vec<u32> =
            self.guess.keys().filter(|(name, _)| name == t).map(|(_, id)| *id).collect();
        if ids.is_empty() || rng.chance(20) {
            return *rng.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, 77]);
        }
        let id = *rng.pick(&ids);
        match rng.below(4) {
            0 => id.wrapping_add(1),
            1 => id.wrapping_sub(1),
            _ => id,
        }
    }

    fn details_of(&self, rng: &mut Rng, m: &mut TabletMetadata) {
        let x = rng.below(1000) as u32;
        match rng.below(5) {
            0 => {}
            1 => m.deleted = true,
            2 => m.blob_uri = format!("uri-{}", x),
            _ => {
                m.blob_uri = format!("uri-{}", x);
                m.blob_size = x;
                m.blob_hash = vec![x as u8; 4].into();
                m.blob_encryption_key = vec![(x >> 4) as u8; 3].into();
            }
        }
    }

    fn update_op(&self, t: &str, id: u32, v: u32, rng: &mut Rng) -> TabletOp {
        let mut m = TabletMetadata { tablet_id: id, tablet_version: v, ..Default::default() };
        self.details_of(rng, &mut m);
        TabletOp {
            table_name: t.to_string(),
            op: Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) })),
        }
    }

    fn random_op(&self, rng: &mut Rng) -> TabletOp {
        let t = if rng.chance(4) {
            "unknown".to_string()
        } else {
            self.layout[rng.below(self.layout.len())].0.clone()
        };
        let id = self.position(&t, rng);
        let known = self.guess.get(&(t.clone(), id)).copied();
        let v = known.unwrap_or(0);
        let op = match rng.below(100) {
            0..=29 => {
                let to = if rng.chance(15) { id } else { self.position(&t, rng) };
                Some(Op::ListTablet(ListTabletOp { key_hash_from: id, key_hash_to: to }))
            }
            30..=54 => {
                let v = if rng.chance(70) { v } else { v.wrapping_add(rng.range(1, 2) as u32) };
                Some(Op::CheckTablet(CheckTabletOp { tablet_id: id, tablet_version: v }))
            }
            55..=94 => {
                let off = if rng.chance(70) { 1 } else { *rng.pick(&[0, 2, 3, u32::MAX]) };
                return self.update_op(&t, id, v.wrapping_add(off), rng);
            }
            95 => None,
            96 => Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: None })),
            97 | 98 => Some(Op::AddTablet(AddTabletOp {
                tablet_metadata: Some(TabletMetadata { tablet_id: id, ..Default::default() }),
            })),
            _ => Some(Op::RemoveTablet(RemoveTabletOp { tablet_id: id, tablet_version: v })),
        };
        TabletOp { table_name: t, op }
    }

    /// Operations that all succeed, as far as can be told.
    fn good_ops(&self, n: usize, rng: &mut Rng) -> Vec<TabletOp> {
        let mut all: Vec<(&(String, u32), &u32)> = self.guess.iter().collect();
        rng.shuffle(&mut all);
        all.into_iter()
            .take(n)
            .map(|((t, id), v)| match rng.below(5) {
                0 => TabletOp {
                    table_name: t.clone(),
                    op: Some(Op::CheckTablet(CheckTabletOp { tablet_id: *id, tablet_version: *v })),
                },
                _ => self.update_op(t, *id, v.wrapping_add(1), rng),
            })
            .collect()
    }

    fn finish(&mut self) {
        for r in 0..self.replicas.len() {
            for _ in 0..self.log.len() {
                self.apply(r, true);
            }
            self.save(r);
        }
        self.rec.ev(obj! {"e": "end"});
    }
}

fn random_layout(rng: &mut Rng) -> Layout {
    let fresh = rng.chance(50);
    let tables = rng.range(1, 3);
    let mut layout = vec![];
    for t in TABLES.iter().take(tables) {
        let mut ids: Vec<u32> = vec![];
        for _ in 0..*rng.pick(&[0usize, 1, 1, 2, 3, 4, 6, 9]) {
            let id = match rng.below(5) {
                0 => *rng.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]),
                1 if !ids.is_empty() => rng.pick(&ids).wrapping_add(1u32),
                _ => rng.next() as u32,
            };
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        let tablets = ids
            .iter()
            .map(|id| {
                let mut m = TabletMetadata { tablet_id: *id, ..Default::default() };
                if !fresh {
                    m.tablet_version = *rng.pick(&[0, 1, 5, u32::MAX - 2, u32::MAX - 1, u32::MAX]);
                    m.blob_uri = format!("first-{}", rng.below(9));
                }
                m
            })
            .collect();
        layout.push((t.to_string(), tablets));
    }
    layout
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let layout = random_layout(rng);
    let replicas = rng.range(1, 3);
    let mut w = World::new(rec, layout, replicas, rng);
    for _ in 0..rng.range(5, 45) {
        let r = rng.below(w.replicas.len());
        match rng.below(100) {
            0..=34 => {
                let ops = if rng.chance(40) {
                    let n = rng.range(0, 4);
                    w.good_ops(n, rng)
                } else {
                    (0..*rng.pick(&[0usize, 1, 1, 1, 2, 2, 3, 5])).map(|_| w.random_op(rng)).collect()
                };
                let ops = if rng.chance(10) && !ops.is_empty() {
                    // The same tablet twice.
                    let mut twice = ops.clone();
                    let again = ops[rng.below(ops.len())].clone();
                    twice.insert(rng.below(twice.len() + 1), again);
                    twice
                } else {
                    ops
                };
                let leader = rng.chance(92);
                let hdr = *rng.pick(&["ok"; 30].iter().copied().chain(["none", "bad"]).collect::<Vec<_>>());
                let pl = if rng.chance(4) { "bad" } else { "ok" };
                w.command(r, leader, hdr, pl, ops);
            }
            35..=59 => {
                let n = if rng.chance(70) { 0 } else { rng.below(w.pool.len().max(1)) };
                w.commit(n);
            }
            60..=89 => w.apply(r, rng.chance(70)),
            90..=94 => w.save(r),
            _ => {
                let s = rng.below(w.snapshots.len().max(1));
                w.load(r, s);
            }
        }
    }
    w.finish();
}

/// Positions and versions of the specification's models are small numbers.
fn pos(n: i64) -> u32 {
    [0, 1, 10, 1 << 31, u32::MAX - 1, u32::MAX][n as usize]
}

pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    let layout = script
        .get("tables")
        .items()
        .iter()
        .map(|t| {
            let tablets = t.get("ids").items().iter().map(|i| TabletMetadata {
                tablet_id: pos(i.int()),
                ..Default::default()
            });
            (t.get("t").text().to_string(), tablets.collect())
        })
        .collect();
    let mut w = World::new(rec, layout, 2, rng);
    for op in script.get("ops").items() {
        let num = |name: &str| op.get(name).int() as usize;
        match op.get("e").text() {
            "cmd" => {
                let ops = op
                    .get("ops")
                    .items()
                    .iter()
                    .map(|o| {
                        let t = o.get("t").text();
                        let kind = match o.get("k").text() {
                            "list" => Op::ListTablet(ListTabletOp {
                                key_hash_from: pos(o.get("f").int()),
                                key_hash_to: pos(o.get("l").int()),
                            }),
                            "check" => Op::CheckTablet(CheckTabletOp {
                                tablet_id: pos(o.get("id").int()),
                                tablet_version: o.get("v").int() as u32,
                            }),
                            "update" => {
                                return w.update_op(t, pos(o.get("id").int()), o.get("v").int() as u32, rng)
                            }
                            "add" => Op::AddTablet(AddTabletOp::default()),
                            other => panic!("script: {}", other),
                        };
                        TabletOp { table_name: t.to_string(), op: Some(kind) }
                    })
                    .collect();
                w.command(num("r") - 1, true, "ok", "ok", ops);
            }
            "commit" => w.commit(num("n") - 1),
            "apply" => w.apply(num("r") - 1, rng.chance(80)),
            "save" => w.save(num("r") - 1),
            "load" => w.load(num("r") - 1, num("s") - 1),
            other => panic!("script: {}", other),
        }
    }
    w.finish();
}
