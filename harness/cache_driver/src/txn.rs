//! Drives DefaultTabletTransactionManager on one or two nodes: transactions that read and write
//! tablets, concurrently with each other, with failures of storage, tablet store and network.

use crate::data::{decode, encode, Codec};
use crate::ring;
use crate::world::{manager, random_tables, Net, TableCf, TabletCf, World};
use std::cell::RefCell;
use std::rc::Rc;
use tcp_tablet_cache_service::transaction::{
    manager::DefaultTabletTransactionManager, TableQuery, TabletTransaction, TabletTransactionCommit,
    TabletTransactionContext, TabletTransactionManager, TabletTransactionOutcome,
};
use vcommon::{enc, obj, Rec, Rng, J};

struct Node {
    manager: DefaultTabletTransactionManager<i64>,
    open: Vec<(u64, Box<dyn TabletTransaction<i64>>)>,
    committing: Vec<(u64, Box<dyn TabletTransactionCommit>)>,
    procs: usize,
}

struct Run {
    rec: Rec,
    world: World,
    nodes: Vec<Node>,
    fresh: Rc<RefCell<i64>>,
    instant: u64,
}

/// What the handler of a process request does with the tablets it is given.
#[derive(Clone)]
enum Writes {
    /// The tablet number i (in the order of table and id) is written if bit i is set.
    Mask(u32),
    /// The given tablets are written.
    Ids(Vec<u32>),
}

impl Run {
    fn new(rec: &Rec, nodes: usize, cf: Vec<TableCf>) -> Run {
        let world = World::new(
            rec,
            nodes,
            cf,
            &|_, c| encode(c),
            Box::new(|b| decode(b).unwrap_or(-2)),
        );
        Run {
            rec: rec.clone(),
            nodes: (0..nodes)
                .map(|_| Node {
                    manager: manager(&world.cf, Box::new(Codec {})),
                    open: vec![],
                    committing: vec![],
                    procs: 0,
                })
                .collect(),
            world,
            fresh: Rc::new(RefCell::new(1000)),
            instant: 0,
        }
    }

    fn start(&mut self, n: usize) -> usize {
        let tx = self.nodes[n].manager.start_transaction();
        self.rec.ev(obj! {"e": "start", "n": n + 1, "x": tx.get_id()});
        self.nodes[n].open.push((tx.get_id(), tx));
        self.nodes[n].open.len() - 1
    }

    fn process(&mut self, n: usize, i: usize, queries: Vec<(u64, String, Vec<u32>)>, writes: Writes, again: bool) {
        let node = &mut self.nodes[n];
        node.procs += 1;
        let p = node.procs;
        let x = node.open[i].0;
        self.rec.ev(obj! {"e": "proc", "n": n + 1, "x": x, "p": p, "q": J::A(queries.iter().map(|(q, t, k)| obj! {
            "q": *q, "t": t.as_str(), "k": J::A(k.iter().map(|k| J::I(enc(*k))).collect())
        }).collect())});
        let rec = self.rec.clone();
        let fresh = self.fresh.clone();
        node.open[i].1.process(
            queries.into_iter().map(|(q, t, k)| TableQuery::create(q, t, k)).collect(),
            Box::new(move |id, mut tablets| {
                tablets.sort_by(|a, b| (a.0.get_table_name(), a.1.get_id()).cmp(&(b.0.get_table_name(), b.1.get_id())));
                let mut seen = Vec::new();
                let mut wrote = Vec::new();
                for (i, (query, tablet)) in tablets.iter_mut().enumerate() {
                    let table = query.get_table_name().clone();
                    let c = *tablet.get_contents();
                    seen.push(obj! {"q": query.get_id(), "t": table.as_str(),
                        "k": J::A(query.get_key_hashes().iter().map(|k| J::I(enc(*k))).collect()),
                        "id": enc(tablet.get_id()), "c": c});
                    let write = match &writes {
                        Writes::Mask(mask) => mask >> (i % 32) & 1 == 1,
                        Writes::Ids(ids) => ids.contains(&tablet.get_id()),
                    };
                    if write {
                        let new = if again && c != 0 {
                            c
                        } else {
                            *fresh.borrow_mut() += 1;
                            *fresh.borrow()
                        };
                        tablet.set_contents(new);
                        wrote.push(obj! {"t": table.as_str(), "id": enc(tablet.get_id()), "c": new});
                    }
                }
                rec.ev(obj! {"e": "hdl", "n": n + 1, "x": id, "p": p, "s": J::A(seen), "w": J::A(wrote)});
            }),
        );
    }

    fn take(&mut self, n: usize) {
        let out = self.nodes[n].manager.take_out_messages();
        self.world.take_out(n, out);
    }

    fn tick(&mut self, n: usize) {
        self.instant += 10;
        self.nodes[n].manager.make_progress(self.instant);
        self.rec.ev(obj! {"e": "tick", "n": n + 1});
        self.take(n);
    }

    /// Commits if nothing is pending.
    fn commit(&mut self, n: usize, i: usize) -> bool {
        if self.nodes[n].open[i].1.has_pending_process() {
            return false;
        }
        let (x, tx) = self.nodes[n].open.remove(i);
        self.rec.ev(obj! {"e": "commit", "n": n + 1, "x": x});
        let commit = tx.commit();
        self.nodes[n].committing.push((x, commit));
        self.take(n);
        self.poll(n);
        true
    }

    fn abort(&mut self, n: usize, i: usize) {
        let (x, tx) = self.nodes[n].open.remove(i);
        self.rec.ev(obj! {"e": "abort", "n": n + 1, "x": x});
        tx.abort();
    }

    fn poll(&mut self, n: usize) -> Option<bool> {
        let mut last = None;
        let mut i = 0;
        while i < self.nodes[n].committing.len() {
            let (x, commit) = &mut self.nodes[n].committing[i];
            match commit.check_result() {
                Some(outcome) => {
                    let ok = outcome == TabletTransactionOutcome::Succeeded;
                    // The outcome does not change when it is asked for again.
                    let again = commit.check_result() == Some(outcome);
                    self.rec.ev(obj! {"e": "out", "n": n + 1, "x": *x, "ok": ok, "again": again});
                    last = Some(ok);
                    self.nodes[n].committing.remove(i);
                }
                None => i += 1,
            }
        }
        last
    }

    fn answer(&mut self, n: usize, c: u64, kind: &str) {
        if let Some(message) = self.world.answer(n, c, kind) {
            self.nodes[n].manager.process_in_message(message);
            self.poll(n);
        }
    }

    fn calm_round(&mut self) -> Option<bool> {
        let mut last = None;
        for n in 0..self.nodes.len() {
            self.tick(n);
            for c in self.world.nets[n].keys().copied().collect::<Vec<u64>>() {
                if let Some(message) = self.world.answer(n, c, "ok") {
                    self.nodes[n].manager.process_in_message(message);
                    last = self.poll(n).or(last);
                }
            }
            let mut i = 0;
            while i < self.nodes[n].open.len() {
                if !self.commit(n, i) {
                    i += 1;
                }
            }
        }
        last
    }

    fn finish(&mut self) {
        for _ in 0..60 {
            if self.nodes.iter().all(|n| n.open.is_empty() && n.committing.is_empty()) {
                break;
            }
            self.calm_round();
        }
        self.rec.ev(obj! {"e": "end"});
        if self.nodes.iter().any(|n| !n.open.is_empty() || !n.committing.is_empty()) {
            return;
        }
        // Nothing else is going on: transactions over all tablets succeed, whichever of the keys
        // of a tablet they ask for. The nodes take turns, hence run into what the other one did.
        let nodes = self.nodes.len();
        for turn in 0..(if nodes > 1 { 2 * nodes + 1 } else { 2 }) {
            let n = turn % nodes;
            let first_keys = turn < 2 * nodes;
            let mut ok = false;
            for attempt in 0..3u64 {
                let i = self.start(n);
                let queries = self
                    .world
                    .cf
                    .iter()
                    .enumerate()
                    .map(|(q, t)| {
                        let mut ids: Vec<u32> = t.tablets.iter().map(|x| x.id).collect();
                        ids.sort();
                        let keys = if first_keys {
                            (0..ids.len()).map(|i| ids[(i + ids.len() - 1) % ids.len()].wrapping_add(1)).collect()
                        } else {
                            ids
                        };
                        (q as u64 + 10 + attempt, t.name.clone(), keys)
                    })
                    .collect();
                self.process(n, i, queries, Writes::Mask(0b0110_1011 >> n), false);
                for _ in 0..30 {
                    self.calm_round();
                    if self.nodes[n].open.is_empty() && self.nodes[n].committing.is_empty() {
                        break;
                    }
                }
                // The last outcome that was reported is that of this transaction.
                let done = self.nodes[n].open.is_empty() && self.nodes[n].committing.is_empty();
                ok = done && self.last_outcome();
                if ok || !done {
                    break;
                }
            }
            self.rec.ev(obj! {"e": "settled", "n": n + 1, "ok": ok});
            if !ok {
                return;
            }
        }
    }

    fn last_outcome(&self) -> bool {
        self.rec.last(|e| e.get("e").text() == "out").map_or(false, |e| e.get("ok").flag())
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let nodes = if rng.chance(60) { 2 } else { 1 };
    let mut blob = 0;
    let tables = rng.range(1, 2);
    let cf = random_tables(rng, tables, 4, &mut |rng: &mut Rng| {
        if rng.chance(35) {
            (0, 0)
        } else {
            blob += 1;
            // Some blobs have the same contents.
            (blob, if rng.chance(25) { 5 } else { 100 + blob })
        }
    });
    let hostile = rng.chance(50);
    let repeats = rng.chance(20);
    let mut run = Run::new(rec, nodes, cf);
    let steps = rng.range(10, 70);
    let mut started = 0;
    for _ in 0..steps {
        let n = rng.below(nodes);
        let wish = rng.below(1000);
        match rng.below(14) {
            0 | 1 if started < 8 => {
                started += 1;
                let i = run.start(n);
                if rng.chance(80) {
                    process_some(&mut run, rng, n, i, repeats);
                }
            }
            2 if !run.nodes[n].open.is_empty() => {
                let i = wish % run.nodes[n].open.len();
                process_some(&mut run, rng, n, i, repeats);
            }
            3 | 4 if !run.nodes[n].open.is_empty() => {
                let i = wish % run.nodes[n].open.len();
                run.commit(n, i);
            }
            5 if !run.nodes[n].open.is_empty() && rng.chance(30) => {
                let i = wish % run.nodes[n].open.len();
                run.abort(n, i);
            }
            6 => {
                let kind = *rng.pick(&["ops", "list"]);
                if let Some(c) = run.world.pick(n, kind, wish) {
                    run.world.exec(n, c);
                }
            }
            7 | 8 | 9 | 10 => {
                let kind = *rng.pick(&["load", "load", "store", "ops", "list"]);
                if let Some(c) = run.world.pick(n, kind, wish) {
                    let how = if !hostile || rng.chance(75) {
                        "ok"
                    } else {
                        match kind {
                            "load" => *rng.pick(&["fail", "corrupt"]),
                            "store" => "fail",
                            _ => *rng.pick(&["fail", "partial"]),
                        }
                    };
                    if kind == "ops" && rng.chance(40) {
                        run.world.exec(n, c);
                    }
                    run.answer(n, c, how);
                }
            }
            _ => run.tick(n),
        }
    }
    run.finish();
}

fn process_some(run: &mut Run, rng: &mut Rng, n: usize, i: usize, repeats: bool) {
    let mut queries = Vec::new();
    for t in run.world.cf.clone() {
        if !queries.is_empty() && rng.chance(50) {
            continue;
        }
        let ids: Vec<u32> = t.tablets.iter().map(|x| x.id).collect();
        let count = if rng.chance(5) { 0 } else { rng.range(1, 3) };
        let keys: Vec<u32> = (0..count)
            .map(|_| if rng.chance(70) { *rng.pick(&ids) } else { ring::interesting(rng, t.region, &ids) })
            .collect();
        queries.push((rng.below(5) as u64 + 10 * queries.len() as u64, t.name.clone(), keys));
    }
    if rng.chance(3) {
        queries.clear();
    }
    let mask = match rng.below(4) {
        0 => 0,
        1 => u32::MAX,
        _ => rng.next() as u32,
    };
    run.process(n, i, queries, Writes::Mask(mask), repeats && rng.chance(40));
}

const SCRIPT_IDS: [u32; 3] = [7, 0x8000_0000, u32::MAX - 1];

pub fn script(rec: &Rec, script: &J, _rng: &mut Rng) {
    let cf = vec![TableCf {
        name: "A".to_string(),
        region: u32::MAX,
        tablets: SCRIPT_IDS
            .iter()
            .enumerate()
            .map(|(i, id)| TabletCf { id: *id, v: 0, u: i as i64, c: if i == 0 { 0 } else { 100 + i as i64 } })
            .collect(),
    }];
    let mut run = Run::new(rec, 2, cf);
    let ids = |j: &J| -> Vec<u32> { j.items().iter().map(|i| SCRIPT_IDS[i.int() as usize - 1]).collect() };
    for op in script.get("ops").items() {
        let n = op.get("n").int() as usize - 1;
        let wish = op.find("i").map_or(0, |i| i.int() as usize);
        match op.get("e").text() {
            "start" => {
                run.start(n);
            }
            "proc" if !run.nodes[n].open.is_empty() => {
                let i = wish % run.nodes[n].open.len();
                run.process(n, i, vec![(1, "A".to_string(), ids(op.get("k")))], Writes::Ids(ids(op.get("w"))), false);
            }
            "commit" if !run.nodes[n].open.is_empty() => {
                let i = wish % run.nodes[n].open.len();
                run.commit(n, i);
            }
            "abort" if !run.nodes[n].open.is_empty() => {
                let i = wish % run.nodes[n].open.len();
                run.abort(n, i);
            }
            "exec" => {
                if let Some(c) = run.world.pick(n, "ops", wish) {
                    run.world.exec(n, c);
                }
            }
            "calm" => {
                // Everything but commits gets through.
                for _ in 0..op.get("i").int() {
                    run.tick(n);
                    let all: Vec<u64> = run.world.nets[n]
                        .iter()
                        .filter(|(_, x)| !matches!(x, Net::Ops(_, true, _)))
                        .map(|(c, _)| *c)
                        .collect();
                    for c in all {
                        run.answer(n, c, "ok");
                    }
                }
            }
            "tick" => run.tick(n),
            "answer" => {
                if let Some(c) = run.world.pick(n, op.get("kind").text(), wish) {
                    run.answer(n, c, op.get("how").text());
                }
            }
            _ => {}
        }
    }
    run.finish();
}
