//! Drives SimpleKeyValueStore over the real transaction manager on one or two nodes.

use crate::ring;
use crate::world::{manager, TableCf, TabletCf, World};
use prost::bytes::Bytes;
use prost::Message;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::OnceLock;
use tcp_tablet_cache_service::apps::tablet_cache::service::{GetKeyRequest, PutKeyRequest, StoreConfig, TabletContents};
use tcp_tablet_cache_service::store::{KeyValueRequest, KeyValueResponse, KeyValueStore, SimpleKeyValueStore};
use tcp_tablet_cache_service::transaction::{
    data::BytesTabletDataSerializer, manager::DefaultTabletTransactionManager, InMessage, OutMessage, ProcessHandler,
    ResolveHandler, TableQuery,
    TabletTransaction, TabletTransactionCommit, TabletTransactionContext, TabletTransactionManager,
    TabletTransactionOutcome,
};
use vcommon::{enc, obj, Rec, Rng, J};

const TABLE: &str = "A";
const ABSENT: i64 = -1;
const UNREADABLE: i64 = -6;

fn to_value(v: i64) -> Bytes {
    if v == 0 {
        Bytes::new()
    } else {
        Bytes::from(v.to_string())
    }
}

fn from_value(b: &[u8]) -> i64 {
    if b.is_empty() {
        return 0;
    }
    std::str::from_utf8(b).ok().and_then(|t| t.parse().ok()).unwrap_or(UNREADABLE)
}

fn hashes(q: &TableQuery) -> J {
    J::A(q.get_key_hashes().iter().map(|k| J::I(enc(*k))).collect())
}

/// Finds out where the store puts keys by asking it.
struct Capture(Rc<RefCell<Vec<u32>>>);

impl TabletTransactionContext<Bytes> for Capture {
    fn resolve(&mut self, queries: Vec<TableQuery>, _handler: Box<ResolveHandler>) {
        for q in queries {
            self.0.borrow_mut().extend(q.get_key_hashes().iter().copied());
        }
    }
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
        panic!("a transaction without a known tablet")
    }
}

fn new_store(minr: u32, minp: u32) -> SimpleKeyValueStore {
    let mut store = SimpleKeyValueStore::create();
    store.init(
        slog::Logger::root(slog::Discard, slog::o!()),
        StoreConfig { table_name: TABLE.to_string(), min_pending_before_resolve: minr, min_pending_before_process: minp },
    );
    store
}

fn places(keys: &[String]) -> Vec<u32> {
    let mut all = Vec::new();
    for chunk in keys.chunks(500) {
        let mut store = new_store(0, 0);
        let seen = Rc::new(RefCell::new(Vec::new()));
        let mut context = Capture(seen.clone());
        for key in chunk {
            for _ in 0..5 {
                store.process_request(KeyValueRequest::Get(1, GetKeyRequest { key: key.clone() }));
                store.make_progress(0, &mut context);
                if !seen.borrow().is_empty() {
                    break;
                }
            }
            all.push(seen.borrow().first().copied().unwrap_or(0));
            seen.borrow_mut().clear();
        }
    }
    all
}

/// Keys with their places, two of them with the same place if there are such.
fn pool() -> &'static (Vec<(String, u32)>, Option<(String, String, u32)>) {
    static POOL: OnceLock<(Vec<(String, u32)>, Option<(String, String, u32)>)> = OnceLock::new();
    POOL.get_or_init(|| {
        let keys: Vec<String> = (0..140_000).map(|i| format!("k{}", i)).collect();
        let places = places(&keys);
        let mut at: HashMap<u32, &String> = HashMap::new();
        let mut twins = None;
        for (k, h) in keys.iter().zip(&places) {
            if let Some(other) = at.insert(*h, k) {
                twins = Some((other.clone(), k.clone(), *h));
                break;
            }
        }
        (keys.into_iter().zip(places).take(400).collect(), twins)
    })
}

/// Passes calls on to the transaction manager, recording them.
struct Spy<'a> {
    n: usize,
    rec: Rec,
    inner: &'a mut DefaultTabletTransactionManager<Bytes>,
}

struct SpyTransaction {
    n: usize,
    rec: Rec,
    inner: Box<dyn TabletTransaction<Bytes>>,
}

struct SpyCommit {
    n: usize,
    x: u64,
    told: bool,
    rec: Rec,
    inner: Box<dyn TabletTransactionCommit>,
}

impl TabletTransactionContext<Bytes> for Spy<'_> {
    fn resolve(&mut self, queries: Vec<TableQuery>, mut handler: Box<ResolveHandler>) {
        let n = self.n;
        for q in &queries {
            self.rec.ev(obj! {"e": "rsv", "n": n + 1, "q": q.get_id(), "h": hashes(q)});
        }
        let rec = self.rec.clone();
        self.inner.resolve(
            queries,
            Box::new(move |results| {
                for (q, t) in &results {
                    rec.ev(obj! {"e": "rsd", "n": n + 1, "q": q.get_id(), "id": enc(t.get_id()), "h": hashes(q)});
                }
                handler(results)
            }),
        );
    }
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
        Box::new(SpyTransaction { n: self.n, rec: self.rec.clone(), inner: self.inner.start_transaction() })
    }
}

impl TabletTransaction<Bytes> for SpyTransaction {
    fn get_id(&self) -> u64 {
        self.inner.get_id()
    }
    fn process(&mut self, queries: Vec<TableQuery>, handler: Box<ProcessHandler<Bytes>>) {
        self.rec.ev(obj! {"e": "proc", "n": self.n + 1, "x": self.inner.get_id(),
            "qs": J::A(queries.iter().map(hashes).collect())});
        self.inner.process(queries, handler)
    }
    fn has_pending_process(&self) -> bool {
        self.inner.has_pending_process()
    }
    fn commit(self: Box<Self>) -> Box<dyn TabletTransactionCommit> {
        let x = self.inner.get_id();
        Box::new(SpyCommit { n: self.n, x, told: false, rec: self.rec.clone(), inner: self.inner.commit() })
    }
    fn abort(self: Box<Self>) {
        self.rec.ev(obj! {"e": "out", "n": self.n + 1, "x": self.inner.get_id(), "ok": false});
        self.inner.abort()
    }
}

impl TabletTransactionCommit for SpyCommit {
    fn check_result(&mut self) -> Option<TabletTransactionOutcome> {
        let outcome = self.inner.check_result();
        if let (Some(o), false) = (outcome, self.told) {
            self.told = true;
            let ok = o == TabletTransactionOutcome::Succeeded;
            self.rec.ev(obj! {"e": "out", "n": self.n + 1, "x": self.x, "ok": ok});
        }
        outcome
    }
}

/// A node that serves clients.
pub trait Serve {
    fn request(&mut self, request: KeyValueRequest);
    fn tick(&mut self, rec: &Rec, n: usize, instant: u64);
    fn process(&mut self, message: InMessage);
    /// What it wants from others and what it answers to clients since the last time.
    fn take(&mut self) -> (Vec<OutMessage>, Vec<KeyValueResponse>);
    /// Does something else happen to it? Otherwise only ticks make it act.
    fn eager(&self) -> bool {
        false
    }
    /// Something it should not be given, as an answer to a request or not.
    fn hostile(&mut self, _answer: Option<u64>, _rng: &mut Rng) -> bool {
        true
    }
}

struct Node {
    store: SimpleKeyValueStore,
    manager: DefaultTabletTransactionManager<Bytes>,
}

impl Serve for Node {
    fn request(&mut self, request: KeyValueRequest) {
        self.store.process_request(request);
    }
    fn tick(&mut self, rec: &Rec, n: usize, instant: u64) {
        rec.ev(obj! {"e": "tick", "n": n + 1});
        let mut spy = Spy { n, rec: rec.clone(), inner: &mut self.manager };
        self.store.make_progress(instant, &mut spy);
        rec.ev(obj! {"e": "tack", "n": n + 1});
        self.manager.make_progress(instant);
    }
    fn process(&mut self, message: InMessage) {
        self.manager.process_in_message(message);
    }
    fn take(&mut self) -> (Vec<OutMessage>, Vec<KeyValueResponse>) {
        (self.manager.take_out_messages(), self.store.take_responses())
    }
}

/// Makes nodes for a world: how many, the thresholds.
pub type Maker<'a> = &'a dyn Fn(&mut World, usize, (u32, u32)) -> Vec<Box<dyn Serve>>;

fn local(world: &mut World, nodes: usize, (minr, minp): (u32, u32)) -> Vec<Box<dyn Serve>> {
    (0..nodes)
        .map(|_| {
            Box::new(Node {
                store: new_store(minr, minp),
                manager: manager(&world.cf, Box::new(BytesTabletDataSerializer {})),
            }) as Box<dyn Serve>
        })
        .collect()
}

struct Run {
    rec: Rec,
    world: World,
    nodes: Vec<Box<dyn Serve>>,
    down: BTreeSet<usize>,
    minr: u32,
    minp: u32,
    keys: Vec<String>,
    /// Keys per tablet that only serve to fill batches.
    fillers: Vec<Vec<usize>>,
    /// Unanswered: node, key.
    open: BTreeMap<u64, (usize, usize)>,
    next: u64,
    instant: u64,
}

impl Run {
    /// Places: where keys are; tablets: id, version, is stored.
    fn new(
        rec: &Rec,
        nodes: usize,
        (minr, minp): (u32, u32),
        region: u32,
        mut keys: Vec<(String, u32)>,
        tablets: Vec<(u32, u32, bool)>,
        initial: &dyn Fn(usize) -> i64,
        make: Maker,
    ) -> Run {
        let ids: Vec<u32> = tablets.iter().map(|t| t.0).collect();
        let main = keys.len();
        let mut fillers = Vec::new();
        for id in &ids {
            let mut mine: Vec<usize> = Vec::new();
            for (k, h) in &pool().0 {
                if mine.len() < 4 && ring::owner(&ids, *h) == *id && !keys[..main].iter().any(|x| x.0 == *k) {
                    mine.push(keys.len());
                    keys.push((k.clone(), *h));
                }
            }
            if mine.is_empty() {
                mine = (0..main).filter(|i| ring::owner(&ids, keys[*i].1) == *id).collect();
            }
            fillers.push(mine);
        }
        let mut dictionaries: Vec<TabletContents> = vec![TabletContents::default(); tablets.len()];
        let mut values = Vec::new();
        for (i, (k, h)) in keys.iter().enumerate() {
            let t = ids.iter().position(|id| *id == ring::owner(&ids, *h)).unwrap();
            let v = if i < main && tablets[t].2 { initial(i) } else { ABSENT };
            if v != ABSENT {
                dictionaries[t].dictionary.insert(k.clone(), to_value(v));
            }
            values.push(v);
        }
        let cf = vec![TableCf {
            name: TABLE.to_string(),
            region,
            tablets: tablets
                .iter()
                .enumerate()
                .map(|(i, (id, v, stored))| TabletCf { id: *id, v: *v, u: if *stored { i as i64 + 1 } else { 0 }, c: i as i64 })
                .collect(),
        }];
        let mut world =
            World::new(rec, nodes, cf, &|_, c| dictionaries[c as usize].encode_to_vec().into(), Box::new(|_| 0));
        world.corrupt = Box::new(|b| match TabletContents::decode(b.clone()) {
            Ok(mut c) => {
                match c.dictionary.keys().next().cloned() {
                    Some(k) if b.len() % 2 == 0 => c.dictionary.remove(&k),
                    Some(k) => c.dictionary.insert(k, to_value(7)),
                    None => c.dictionary.insert("k0".to_string(), to_value(7)),
                };
                c.encode_to_vec().into()
            }
            _ => Bytes::new(),
        });
        world.describe = Some(Box::new(|b| match TabletContents::decode(b.clone()) {
            Ok(c) => {
                let sorted: BTreeMap<_, _> = c.dictionary.iter().collect();
                J::A(sorted.iter().map(|(k, v)| obj! {"k": k.as_str(), "v": from_value(v)}).collect())
            }
            _ => J::A(vec![obj! {"k": "unreadable", "v": 0i64}]),
        }));
        rec.ev(obj! {"e": "kv", "minr": minr, "minp": minp, "keys": J::A(keys.iter().zip(&values).map(|((k, h), v)|
            obj! {"k": k.as_str(), "h": enc(*h), "v": *v}).collect())});
        Run {
            rec: rec.clone(),
            nodes: make(&mut world, nodes, (minr, minp)),
            down: BTreeSet::new(),
            world,
            minr,
            minp,
            keys: keys.into_iter().map(|(k, _)| k).collect(),
            fillers,
            open: BTreeMap::new(),
            next: 0,
            instant: 0,
        }
    }

    fn request(&mut self, n: usize, key: usize, put: Option<i64>) {
        self.next += 1;
        let r = self.next;
        self.open.insert(r, (n, key));
        let key = self.keys[key].clone();
        self.rec.ev(obj! {"e": "req", "n": n + 1, "r": r, "k": key.as_str(),
            "op": if put.is_some() { "put" } else { "get" }, "v": put.unwrap_or(ABSENT)});
        self.nodes[n].request(match put {
            Some(v) => KeyValueRequest::Put(r, PutKeyRequest { key, value: to_value(v) }),
            None => KeyValueRequest::Get(r, GetKeyRequest { key }),
        });
        if self.nodes[n].eager() {
            self.handle(n);
        }
    }

    fn handle(&mut self, n: usize) {
        let (out, responses) = self.nodes[n].take();
        self.world.take_out(n, out);
        for response in responses {
            let (r, op, x, v) = match response {
                KeyValueResponse::Put(r, p) => (r, "put", p.existed, ABSENT),
                KeyValueResponse::Get(r, g) => {
                    let v = match (g.existed, from_value(&g.value)) {
                        (false, 0) => ABSENT,
                        (false, _) => UNREADABLE,
                        (true, v) => v,
                    };
                    (r, "get", g.existed, v)
                }
            };
            self.open.remove(&r);
            self.rec.ev(obj! {"e": "resp", "n": n + 1, "r": r, "op": op, "x": x, "v": v});
        }
    }

    fn tick(&mut self, n: usize) {
        if self.down.contains(&n) {
            return;
        }
        self.instant += 10;
        let instant = self.instant;
        self.nodes[n].tick(&self.rec, n, instant);
        self.handle(n);
    }

    fn answer(&mut self, n: usize, c: u64, kind: &str) {
        if let Some(message) = self.world.answer(n, c, kind) {
            if self.down.contains(&n) {
                return;
            }
            self.nodes[n].process(message);
            if self.nodes[n].eager() {
                self.handle(n);
            }
        }
    }

    /// A node is given something that makes no sense, in place of an answer or at any time.
    fn hostile(&mut self, n: usize, answer: Option<u64>, rng: &mut Rng) {
        if self.down.contains(&n) {
            return;
        }
        if let Some(c) = answer {
            let _ = self.world.answer(n, c, "fail");
        }
        let ok = self.nodes[n].hostile(answer, rng);
        self.rec.ev(obj! {"e": "hostile", "n": n + 1, "ok": ok});
        self.handle(n);
    }

    /// A node is gone, but not what it has sent.
    fn crash(&mut self, n: usize) {
        self.down.insert(n);
        self.open.retain(|_, o| o.0 != n);
        self.rec.ev(obj! {"e": "crash", "n": n + 1});
    }

    fn finish(&mut self) {
        let last = self.next;
        for round in 0..80 {
            if !self.open.keys().any(|r| *r <= last) {
                break;
            }
            let waiting: BTreeSet<usize> = self.open.iter().filter(|(r, _)| **r <= last).map(|(_, (n, _))| *n).collect();
            if round % 8 == 2 {
                // More requests come in, so that no batch waits for its last request.
                for n in &waiting {
                    let mut made = 0;
                    for t in 0..self.fillers.len() {
                        let mine = self.fillers[t].clone();
                        for i in 0..self.minp as usize {
                            if let Some(k) = mine.get(i % mine.len().max(1)) {
                                self.request(*n, *k, None);
                                made += 1;
                            }
                        }
                    }
                    let some = self.fillers.iter().flatten().next().copied();
                    while made < self.minr {
                        self.request(*n, some.unwrap_or(0), None);
                        made += 1;
                    }
                }
            }
            for n in 0..self.nodes.len() {
                self.tick(n);
                for c in self.world.nets[n].keys().copied().collect::<Vec<u64>>() {
                    self.answer(n, c, "ok");
                }
            }
        }
        self.rec.ev(obj! {"e": "end", "last": last});
    }

    fn load(&self, n: usize, key: usize) -> usize {
        self.open.values().filter(|o| **o == (n, key)).count()
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let nodes = if rng.chance(60) { 2 } else { 1 };
    random_with(rec, rng, nodes, false, &local)
}

/// Full: nodes can be given hostile messages and crash, and no tablet has been stored as version 0.
pub fn random_with(rec: &Rec, rng: &mut Rng, nodes: usize, full: bool, make: Maker) {
    let (all, twins) = pool();
    let mut keys: Vec<(String, u32)> = Vec::new();
    if let (Some((a, b, h)), true) = (twins, rng.chance(25)) {
        keys.push((a.clone(), *h));
        keys.push((b.clone(), *h));
    }
    let wanted = keys.len() + rng.range(1, 3);
    while keys.len() < wanted {
        let k = rng.pick(all).clone();
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let main = keys.len();
    let region = if rng.chance(60) { u32::MAX } else { *rng.pick(&ring::REGION_SIZES) };
    let places: Vec<u32> = keys.iter().map(|k| k.1).collect();
    let mut ids: Vec<u32> = Vec::new();
    let count = rng.range(1, 3);
    while ids.len() < count {
        let id = match rng.below(4) {
            0 => ring::interesting(rng, region, &ids),
            1 => *rng.pick(&places),
            2 => rng.pick(&places).wrapping_sub(1),
            _ => rng.next() as u32,
        };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let tablets = ids
        .iter()
        .map(|id| {
            let stored = rng.chance(60);
            (*id, if stored { rng.below(3) as u32 + full as u32 } else { 0 }, stored)
        })
        .collect();
    let start: Vec<i64> = (0..main).map(|i| if rng.chance(50) { 10 + i as i64 } else { ABSENT }).collect();
    let thresholds = (rng.below(4) as u32, rng.below(4) as u32);
    let mut run = Run::new(rec, nodes, thresholds, region, keys, tablets, &|i| start[i], make);
    let hostile = rng.chance(50);
    let steps = rng.range(15, 70);
    let mut value = 100;
    for _ in 0..steps {
        let n = rng.below(nodes);
        let wish = rng.below(1000);
        if full && rng.chance(10) {
            let kind = *rng.pick(&["ops", "list"]);
            let answer = if hostile && rng.chance(40) { run.world.pick(n, kind, wish) } else { None };
            run.hostile(n, answer, rng);
        }
        if full && nodes > 1 && run.down.len() + 1 < nodes && rng.chance(2) {
            run.crash(n);
        }
        match rng.below(12) {
            0 | 1 | 2 if run.next < 14 => {
                let key = rng.below(main);
                if !run.down.contains(&n) && run.load(n, key) < 3 {
                    let put = if rng.chance(60) {
                        value += 1;
                        Some(if rng.chance(10) { 0 } else if rng.chance(20) { 100 } else { value })
                    } else {
                        None
                    };
                    run.request(n, key, put);
                }
            }
            3 => {
                let kind = *rng.pick(&["ops", "list"]);
                if let Some(c) = run.world.pick(n, kind, wish) {
                    run.world.exec(n, c);
                }
            }
            4 | 5 | 6 | 7 => {
                let kind = *rng.pick(&["load", "store", "ops", "ops", "ops", "list"]);
                if let Some(c) = run.world.pick(n, kind, wish) {
                    let how = if !hostile || rng.chance(70) {
                        "ok"
                    } else {
                        match kind {
                            "load" => *rng.pick(&["fail", "corrupt"]),
                            "store" => "fail",
                            _ => *rng.pick(&["fail", "partial"]),
                        }
                    };
                    if kind == "ops" && rng.chance(40) {
                        run.world.exec(n, c);
                    }
                    run.answer(n, c, how);
                }
            }
            8 | 9 => {
                // Everything but commits gets through.
                for _ in 0..rng.range(1, 4) {
                    run.tick(n);
                    for kind in ["list", "load", "store"] {
                        while let Some(c) = run.world.pick(n, kind, 0) {
                            let how = if hostile && rng.chance(8) { "fail" } else { "ok" };
                            run.answer(n, c, how);
                        }
                    }
                }
                run.tick(n);
            }
            _ => run.tick(n),
        }
    }
    run.finish();
}

/// Behaviours of the design: keys 1 and 2 share a tablet, key 3 has another one.
pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    script_with(rec, script, rng, &local)
}

pub fn script_with(rec: &Rec, script: &J, rng: &mut Rng, make: Maker) {
    let (all, _) = pool();
    let mut keys: Vec<(String, u32)> = all[..3].to_vec();
    keys.sort_by_key(|k| k.1);
    let tablets = vec![(keys[1].1, 0, false), (keys[2].1, 1, true)];
    let minr = script.find("minr").map_or(1, |x| x.int()) as u32;
    let minp = script.find("minp").map_or(1, |x| x.int()) as u32;
    let mut run = Run::new(rec, 2, (minr, minp), u32::MAX, keys, tablets, &|i| if i == 2 { 50 } else { ABSENT }, make);
    for op in script.get("ops").items() {
        let n = op.get("n").int() as usize - 1;
        match op.get("e").text() {
            "get" | "put" if run.down.contains(&n) => {}
            "get" => run.request(n, op.get("k").int() as usize - 1, None),
            "put" => run.request(n, op.get("k").int() as usize - 1, Some(op.get("v").int())),
            "tick" => run.tick(n),
            "exec" => {
                if let Some(c) = run.world.pick(n, "ops", 0) {
                    run.world.exec(n, c);
                }
            }
            "calm" => {
                // Everything but commits gets through.
                for _ in 0..op.get("i").int() {
                    run.tick(n);
                    for kind in ["list", "load", "store"] {
                        while let Some(c) = run.world.pick(n, kind, 0) {
                            run.answer(n, c, "ok");
                        }
                    }
                }
                run.tick(n);
            }
            "answer" => {
                if let Some(c) = run.world.pick(n, op.get("kind").text(), 0) {
                    run.answer(n, c, op.get("how").text());
                }
            }
            "crash" => run.crash(n),
            "hostile" => run.hostile(n, None, rng),
            "garble" => {
                if let Some(c) = run.world.pick(n, op.get("kind").text(), 0) {
                    run.hostile(n, Some(c), rng);
                }
            }
            _ => {}
        }
    }
    run.finish();
}
