//! A cluster of replicas of the atomic counter: the real driver, consensus adapter, log storage,
//! snapshot transfer, secure channels and actor of every replica, connected by a network under
//! the control of the driver.

use crate::session;
use oak_proto_rust::oak::attestation::v1::ReferenceValues;
use prost::bytes::Bytes;
use prost::Message;
use raft::eraftpb::{
    ConfChange, ConfChangeType, ConfState, Entry as RaftEntry, EntryType, Message as RaftMessage, MessageType,
};
use raft::{Config as RaftConfig, Error as RaftError, SnapshotStatus};
use slog::{o, Drain, Logger, OwnedKVList, Record, KV};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use tcp_atomic_counter_service::actor::CounterActor;
use tcp_atomic_counter_service::apps::atomic_counter::service::*;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::DefaultCommunicationModule;
use tcp_runtime::consensus::{Raft, RaftLightReady, RaftReady, RaftSimple, RaftState};
use tcp_runtime::driver::Driver;
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::model::*;
use tcp_runtime::platform::{Application, Host};
use tcp_runtime::snapshot::{
    DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender,
};
use tcp_runtime::storage::MemoryStorage;
use vcommon::{obj, Rec, Rng, J};

const MARK: &str = "PLAINTEXT-";

/// What the taps in the replicas know and record.
pub struct Shared {
    rec: Rec,
    next_uid: u64,
    // Length of the applied history per replica.
    applied: BTreeMap<u64, usize>,
    app_events: usize,
    // The largest instant a replica has been given.
    given: BTreeMap<u64, u64>,
}

type Sh = Rc<RefCell<Shared>>;

impl Shared {
    fn ev(&mut self, e: J) {
        self.app_events += 1;
        self.rec.ev(e);
    }
}

fn counters(snapshot: &[u8]) -> J {
    let s = CounterSnapshot::decode(snapshot).expect("counter snapshot");
    J::A(s
        .values
        .iter()
        .map(|(k, v)| obj! {"k": k, "v": v.value, "p": payload_id(&v.payload)})
        .collect())
}

fn payload_id(payload: &[u8]) -> i64 {
    if payload.is_empty() {
        return 0;
    }
    let text = std::str::from_utf8(payload).unwrap_or("");
    text.strip_prefix(MARK)
        .and_then(|t| t.split('-').next())
        .and_then(|t| t.parse().ok())
        .unwrap_or(-1)
}

struct SharedContext(Rc<Box<dyn ActorContext>>, bool);

impl ActorContext for SharedContext {
    fn logger(&self) -> &Logger {
        self.0.logger()
    }
    fn id(&self) -> u64 {
        self.0.id()
    }
    fn instant(&self) -> u64 {
        self.0.instant()
    }
    fn config(&self) -> Bytes {
        self.0.config()
    }
    fn leader(&self) -> bool {
        // The counter only works in a leader; nobody leads an ephemeral replica.
        self.1 || self.0.leader()
    }
}

/// The actor of a replica with a record of what is asked of it.
struct Tap {
    sh: Sh,
    r: u64,
    eph: bool,
    config: Bytes,
    lead: Rc<RefCell<bool>>,
    inner: CounterActor,
    context: Option<Rc<Box<dyn ActorContext>>>,
    // Index and id of the applied entries.
    hist: Vec<(u64, u64)>,
}

impl Tap {
    /// What the application is told about itself.
    fn told(&self) {
        let context = self.context.as_ref().unwrap();
        let mut sh = self.sh.borrow_mut();
        let given = *sh.given.get(&self.r).unwrap_or(&0);
        sh.ev(obj! {"e": "told", "r": self.r, "id": context.id(), "cfg": context.config() == self.config,
                    "now": context.instant(), "given": given, "lead": context.leader(), "is": *self.lead.borrow()});
    }

    fn state(&mut self) -> J {
        counters(&self.inner.on_save_snapshot().unwrap())
    }
}

impl Actor for Tap {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        let context = Rc::new(context);
        self.context = Some(context.clone());
        self.sh.borrow_mut().applied.insert(self.r, 0);
        self.told();
        self.inner.on_init(Box::new(SharedContext(context, self.eph)))
    }

    fn on_shutdown(&mut self) {
        self.sh.borrow_mut().ev(obj! {"e": "shut", "r": self.r});
        self.inner.on_shutdown()
    }

    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        let inner = self.inner.on_save_snapshot()?;
        self.sh.borrow_mut().ev(obj! {"e": "save", "r": self.r, "vals": counters(&inner)});
        let mut b = (self.hist.len() as u64).to_le_bytes().to_vec();
        for (i, u) in &self.hist {
            b.extend_from_slice(&i.to_le_bytes());
            b.extend_from_slice(&u.to_le_bytes());
        }
        b.extend_from_slice(&inner);
        Ok(b.into())
    }

    fn on_load_snapshot(&mut self, snapshot: Bytes) -> Result<(), ActorError> {
        let word = |n: usize| -> Option<u64> {
            Some(u64::from_le_bytes(snapshot.get(n * 8..n * 8 + 8)?.try_into().unwrap()))
        };
        let mut hist = Vec::new();
        let parsed = (|| {
            let len = word(0)? as usize;
            for n in 0..len {
                hist.push((word(1 + 2 * n)?, word(2 + 2 * n)?));
            }
            let inner = snapshot.get(8 + 16 * len..)?;
            CounterSnapshot::decode(inner).ok()?;
            Some(snapshot.slice(8 + 16 * len..))
        })();
        let Some(inner) = parsed else {
            self.sh.borrow_mut().ev(obj! {"e": "garbled", "r": self.r});
            return Err(ActorError::SnapshotLoading);
        };
        let vals = counters(&inner);
        self.inner.on_load_snapshot(inner)?;
        let st = self.state();
        let h: Vec<J> = hist.iter().map(|(i, u)| J::A(vec![J::from(*i), J::from(*u)])).collect();
        self.hist = hist;
        let mut sh = self.sh.borrow_mut();
        sh.applied.insert(self.r, self.hist.len());
        sh.ev(obj! {"e": "load", "r": self.r, "h": h, "vals": vals, "st": st});
        Ok(())
    }

    fn on_process_command(
        &mut self,
        command: Option<ActorCommand>,
    ) -> Result<CommandOutcome, ActorError> {
        let Some(c) = command else { return self.inner.on_process_command(None) };
        self.told();
        let lead = self.eph || self.context.as_ref().unwrap().leader();
        let mut e = vec![
            ("e".to_string(), J::from("cmd")),
            ("r".to_string(), J::from(self.r)),
            ("c".to_string(), J::from(c.correlation_id)),
            ("lead".to_string(), J::from(lead)),
        ];
        let mut ok = false;
        if let Ok(AtomicCounterInMessage {
            msg: Some(atomic_counter_in_message::Msg::CounterRequest(q)),
        }) = AtomicCounterInMessage::decode(c.header.clone())
        {
            if let Some(counter_request::Op::CompareAndSwap(op)) = q.op {
                ok = true;
                e.push(("k".to_string(), J::from(q.name)));
                e.push(("ex".to_string(), J::from(op.expected_value)));
                e.push(("nw".to_string(), J::from(op.new_value)));
                e.push(("p".to_string(), J::from(payload_id(&q.payload))));
            }
        }
        e.push(("ok".to_string(), J::from(ok)));
        self.sh.borrow_mut().ev(J::O(e));
        let mut outcome = self.inner.on_process_command(Some(c))?;
        if let Some(event) = &mut outcome.event {
            let mut sh = self.sh.borrow_mut();
            sh.next_uid += 1;
            let u = sh.next_uid;
            sh.ev(obj! {"e": "prop", "r": self.r, "c": event.correlation_id, "u": u});
            let mut b = u.to_le_bytes().to_vec();
            b.extend_from_slice(&event.contents);
            event.contents = b.into();
        }
        Ok(outcome)
    }

    fn on_apply_event(
        &mut self,
        context: ActorEventContext,
        mut event: ActorEvent,
    ) -> Result<EventOutcome, ActorError> {
        let u = u64::from_le_bytes(event.contents[..8].try_into().unwrap());
        event.contents = event.contents.slice(8..);
        self.hist.push((context.index, u));
        {
            let mut sh = self.sh.borrow_mut();
            sh.applied.insert(self.r, self.hist.len());
            sh.ev(obj! {"e": "apply", "r": self.r, "i": context.index, "own": context.owned,
                        "u": u, "c": event.correlation_id});
        }
        self.inner.on_apply_event(context, event)
    }

    fn get_reference_values(&self) -> ReferenceValues {
        self.inner.get_reference_values()
    }
}

/// Consensus with a record of the configurations it is told to use.
struct TapRaft {
    sh: Sh,
    r: u64,
    inner: RaftSimple<MemoryStorage>,
    lead: Rc<RefCell<bool>>,
    // Committed changes of the configuration that have not been applied.
    changes: VecDeque<u64>,
}

impl TapRaft {
    fn note(&self) {
        *self.lead.borrow_mut() = self.inner.initialized() && self.inner.leader();
    }
    fn committed(&mut self, entries: Vec<RaftEntry>) {
        for e in entries {
            if e.entry_type() == EntryType::EntryConfChange {
                self.changes.push_back(e.index);
            }
        }
    }
}

impl Raft for TapRaft {
    type S = MemoryStorage;
    fn initialized(&self) -> bool {
        self.inner.initialized()
    }
    fn leader(&self) -> bool {
        self.inner.leader()
    }
    fn state(&self) -> RaftState {
        *self.lead.borrow_mut() = self.inner.leader();
        self.inner.state()
    }
    fn mut_store(&mut self) -> &mut MemoryStorage {
        self.inner.mut_store()
    }
    fn init(
        &mut self,
        replica_id: u64,
        config: &RaftConfig,
        snapshot: Bytes,
        leader: bool,
        store: MemoryStorage,
        logger: &Logger,
    ) -> Result<(), RaftError> {
        let result = self.inner.init(replica_id, config, snapshot, leader, store, logger);
        self.note();
        result
    }
    fn make_step(&mut self, message: RaftMessage) -> Result<(), RaftError> {
        let result = self.inner.make_step(message);
        self.note();
        result
    }
    fn make_proposal(&mut self, proposal: Bytes) -> Result<(), RaftError> {
        let result = self.inner.make_proposal(proposal);
        self.note();
        result
    }
    fn make_config_change_proposal(&mut self, c: ConfChange) -> Result<(), RaftError> {
        let result = self.inner.make_config_change_proposal(c);
        self.note();
        result
    }
    fn make_tick(&mut self) {
        self.inner.make_tick();
        self.note();
    }
    fn apply_config_change(&mut self, c: &ConfChange) -> Result<ConfState, RaftError> {
        let index = self.changes.pop_front().unwrap_or(0);
        let state = self.inner.apply_config_change(c);
        self.note();
        let state = state?;
        let mut v = state.voters.clone();
        v.sort();
        self.sh.borrow_mut().ev(obj! {"e": "conf", "r": self.r,
            "add": c.change_type() == ConfChangeType::AddNode, "n": c.node_id, "v": v, "i": index,
            "lead": self.inner.leader()});
        Ok(state)
    }
    fn has_ready(&self) -> bool {
        self.inner.has_ready()
    }
    fn get_ready(&mut self) -> RaftReady {
        let ready = self.inner.get_ready();
        self.note();
        let mut copy = ready.clone();
        self.committed(copy.take_committed_entries());
        if let Some(h) = ready.hard_state() {
            self.sh.borrow_mut().ev(obj! {"e": "hard", "r": self.r, "term": h.term, "vote": h.vote,
                                          "commit": h.commit});
        }
        let mut messages = copy.take_messages();
        messages.append(&mut copy.take_persisted_messages());
        if let Some(m) = messages
            .iter()
            .find(|m| matches!(m.msg_type(), MessageType::MsgRequestVote | MessageType::MsgRequestPreVote))
        {
            self.sh.borrow_mut().ev(obj! {"e": "camp", "r": self.r, "term": m.term});
        }
        ready
    }
    fn advance_ready(&mut self, ready: RaftReady) -> RaftLightReady {
        let light = self.inner.advance_ready(ready);
        self.note();
        self.committed(light.clone().take_committed_entries());
        light
    }
    fn advance_apply(&mut self) {
        self.inner.advance_apply();
        self.note();
    }
    fn report_snapshot(&mut self, replica_id: u64, status: SnapshotStatus) {
        self.inner.report_snapshot(replica_id, status)
    }
}

/// Keeps what a released build would log: information and everything more severe.
struct LogTap(Arc<Mutex<Vec<String>>>);

struct Fmt(String);

impl slog::Serializer for Fmt {
    fn emit_arguments(&mut self, key: slog::Key, val: &core::fmt::Arguments) -> slog::Result {
        self.0.push_str(&format!("{}={} ", key, val));
        Ok(())
    }
}

impl Drain for LogTap {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, record: &Record, values: &OwnedKVList) -> Result<(), slog::Never> {
        if record.level().is_at_least(slog::Level::Info) {
            let mut f = Fmt(format!("{} ", record.msg()));
            let _ = record.kv().serialize(record, &mut f);
            let _ = values.serialize(record, &mut f);
            if f.0.contains(MARK) {
                self.0.lock().unwrap().push(f.0);
            } else if std::env::var("RT_LOG").is_ok() {
                eprintln!("{}", f.0);
            }
        }
        Ok(())
    }
}

#[derive(Default)]
pub struct FakeHost {
    pub out: Vec<OutMessage>,
}

impl Host for FakeHost {
    fn send_messages(&mut self, mut messages: Vec<OutMessage>) {
        self.out.append(&mut messages);
    }
    fn public_signing_key(&self) -> Vec<u8> {
        vec![]
    }
}

type D = Driver<TapRaft, MemoryStorage, DefaultSnapshotProcessor, Tap, DefaultCommunicationModule>;

struct Replica {
    driver: D,
    instant: u64,
    lead: Rc<RefCell<bool>>,
    up: bool,
    lame: bool,
    leaks: Arc<Mutex<Vec<String>>>,
}

struct Flight {
    from: u64,
    to: u64,
    msg: in_message::Msg,
}

pub struct Params {
    eph: bool,
    tick: u64,
    election: u32,
    heartbeat: u32,
    max_size: u64,
    snapshot_count: u64,
    chunk: u64,
    pending: u32,
    retry: u64,
    init: Vec<(String, i64)>,
    // Replicas other than the first start with other counters.
    strangers: bool,
}

impl Params {
    /// Handshakes time out after a number of calls and a transfer to somebody who does not answer
    /// keeps its share of the pending chunks: with enough of both the cluster makes progress.
    fn paced(&self) -> bool {
        self.heartbeat > 2 && self.chunk >= 20 && self.pending >= 1000
    }
    fn random(rng: &mut Rng) -> Self {
        let heartbeat = *rng.pick(&[1, 2, 5, 5]) as u32;
        let mut init = Vec::new();
        for k in 0..rng.range(0, 2) {
            init.push((format!("k{}", k), rng.range(0, 2) as i64));
        }
        Params {
            eph: false,
            tick: *rng.pick(&[1, 100]),
            election: heartbeat * rng.range(3, if heartbeat > 2 { 4 } else { 8 }) as u32,
            heartbeat,
            max_size: *rng.pick(&[0, 0, 150, 1 << 20]),
            snapshot_count: rng.range(1, 9) as u64,
            chunk: *rng.pick(&[7, 20, 64, 200, 5000]),
            pending: *rng.pick(&[1, 2, 3, 1000, 1000, 1000]),
            retry: rng.range(1, 3) as u64,
            init,
            strangers: rng.chance(30),
        }
    }
}

pub struct World {
    sh: Sh,
    p: Params,
    reps: BTreeMap<u64, Replica>,
    net: Vec<Flight>,
    old: Vec<Flight>,
    blocked: HashSet<(u64, u64)>,
    // Replicas whose consensus messages get lost, but nothing else.
    mute: HashSet<u64>,
    // Snapshot chunks nobody has answered yet: sender, receiver, delivery.
    chunks: BTreeSet<(u64, u64, u64)>,
    chunk_age: BTreeMap<(u64, u64, u64), u64>,
    now: u64,
    next_c: u64,
    believed: HashMap<String, i64>,
    asked: HashMap<u64, (String, i64, i64)>,
    change_id: u64,
    answered: HashSet<u64>,
    tampers: usize,
    healing: bool,
    // The next call has to answer something.
    expecting: bool,
    // Replicas are given messages before they are started.
    early: bool,
    // Nobody who has been removed goes on taking part.
    calm: bool,
    // Replicas that have been stopped.
    gone: HashSet<u64>,
    calls: u64,
    // Every so many calls the host hands in an instant that is over.
    backwards: u64,
}

impl World {
    pub fn new(rec: &Rec, p: Params) -> Self {
        session::reset();
        let init: Vec<J> = p.init.iter().map(|(k, v)| obj! {"k": k, "v": *v}).collect();
        rec.ev(obj! {"e": "cf", "init": init, "eph": p.eph});
        let believed = p.init.iter().cloned().collect();
        World {
            sh: Rc::new(RefCell::new(Shared {
                rec: rec.clone(),
                next_uid: 0,
                applied: BTreeMap::new(),
                app_events: 0,
                given: BTreeMap::new(),
            })),
            p,
            reps: BTreeMap::new(),
            net: Vec::new(),
            old: Vec::new(),
            blocked: HashSet::new(),
            mute: HashSet::new(),
            chunks: BTreeSet::new(),
            chunk_age: BTreeMap::new(),
            now: 0,
            next_c: 0,
            believed,
            asked: HashMap::new(),
            change_id: 0,
            answered: HashSet::new(),
            tampers: 0,
            healing: false,
            expecting: false,
            early: false,
            calm: true,
            gone: HashSet::new(),
            calls: 0,
            backwards: 0,
        }
    }

    fn ev(&self, e: J) {
        self.sh.borrow_mut().ev(e);
    }

    fn create(&mut self, r: u64, config: Bytes) -> Replica {
        let leaks = Arc::new(Mutex::new(Vec::new()));
        let logger = Logger::root(LogTap(leaks.clone()).fuse(), o!());
        let lead = Rc::new(RefCell::new(false));
        let driver = Driver::new(
            TapRaft { sh: self.sh.clone(), r, inner: RaftSimple::new(), lead: lead.clone(), changes: VecDeque::new() },
            Box::new(|logger, diff| MemoryStorage::new(logger, diff)),
            DefaultSnapshotProcessor::new(
                Box::new(DefaultSnapshotSender::new()),
                Box::new(DefaultSnapshotReceiver::new()),
            ),
            Tap {
                sh: self.sh.clone(),
                r,
                eph: self.p.eph,
                config,
                lead: lead.clone(),
                inner: CounterActor::new_with_reference_values(session::reference_values(1)),
                context: None,
                hist: Vec::new(),
            },
            DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(
                Box::new(session::Factory::default()),
            ))),
            Some(logger),
        );
        Replica { driver, instant: self.now, lead, up: true, lame: false, leaks }
    }

    /// Only the first replica determines the initial counters: the others get its snapshot.
    fn initial(&self, r: u64, leader: bool) -> BTreeMap<String, i64> {
        let mut init: BTreeMap<String, i64> = self.p.init.iter().cloned().collect();
        if !leader && !self.p.eph && self.p.strangers {
            init.insert(format!("x{}", r), r as i64);
            init.insert("k0".to_string(), 3);
        }
        init
    }

    fn start_request(&self, r: u64, leader: bool) -> in_message::Msg {
        in_message::Msg::StartReplica(StartReplicaRequest {
            is_leader: leader,
            replica_id_hint: r,
            raft_config: if self.p.eph {
                None
            } else {
                Some(tcp_proto::runtime::endpoint::RaftConfig {
                    tick_period: self.p.tick,
                    election_tick: self.p.election,
                    heartbeat_tick: self.p.heartbeat,
                    max_size_per_msg: self.p.max_size,
                    snapshot_config: Some(SnapshotConfig {
                        snapshot_count: self.p.snapshot_count,
                        chunk_size: self.p.chunk,
                        max_pending_chunks: self.p.pending,
                    }),
                    handshake_retry_tick: self.p.retry,
                })
            },
            app_config: CounterConfig { initial_values: self.initial(r, leader) }
                .encode_to_vec()
                .into(),
            is_ephemeral: self.p.eph,
            endorsements: Some(session::endorsements(1)),
        })
    }

    pub fn start(&mut self, r: u64, leader: bool) {
        let config = CounterConfig { initial_values: self.initial(r, leader) }.encode_to_vec().into();
        let replica = self.create(r, config);
        self.reps.insert(r, replica);
        if self.early {
            self.reps.get_mut(&r).unwrap().up = false;
            let mut rng = Rng::new(r + self.now);
            for _ in 0..3 {
                self.untimely(r, &mut rng);
            }
            self.reps.get_mut(&r).unwrap().up = true;
        }
        self.ev(obj! {"e": "start", "r": r, "lead": leader});
        let m = self.start_request(r, leader);
        self.receive(r, Some(m));
        // Sessions prove what the host has been given as endorsements of the replica, and compare
        // with the reference values of the application.
        let told = session::last_told();
        if told != Some((session::reference_values(1), session::endorsements(1))) && self.reps[&r].up {
            self.ev(obj! {"e": "leak", "r": r, "what": "sessions are not attested as configured"});
        }
    }

    /// Hands a message, or the passing of time, to a replica.
    fn receive(&mut self, r: u64, msg: Option<in_message::Msg>) {
        let Some(rep) = self.reps.get_mut(&r) else { return };
        if !rep.up {
            return;
        }
        let before = self.sh.borrow().app_events;
        let mut host = FakeHost::default();
        let what = format!("{:?}", msg).chars().take(60).collect::<String>();
        // The host may not always know what time it is.
        self.calls += 1;
        let instant = if self.backwards > 0 && self.calls % self.backwards == 0 { rep.instant / 2 } else { rep.instant };
        self.sh.borrow_mut().given.entry(r).and_modify(|t| *t = instant.max(*t)).or_insert(instant);
        session::take_times();
        let res = rep.driver.receive_message(&mut host, instant, msg.map(|m| InMessage { msg: Some(m) }));
        let leaks = std::mem::take(&mut *rep.leaks.lock().unwrap());
        if let Err(e) = res {
            rep.up = false;
            self.ev(obj! {"e": "err", "r": r, "what": format!("{:?} {}", e, what)});
        }
        for t in session::take_times() {
            let given = self.sh.borrow().given[&r];
            self.ev(obj! {"e": "att", "r": r, "now": t, "given": given});
        }
        if !leaks.is_empty() {
            self.ev(obj! {"e": "leak", "r": r, "what": leaks[0].chars().take(200).collect::<String>()});
        }
        for m in host.out {
            self.sent(r, m.msg.unwrap());
        }
        let asked = std::mem::take(&mut self.expecting);
        if asked || self.sh.borrow().app_events != before {
            self.ev(obj! {"e": "done", "r": r});
        }
    }

    fn check_sealed(&self, r: u64, kind: &str, p: &Option<Payload>, plain: &[u8]) {
        let ok = plain.is_empty()
            && p.as_ref().map_or(false, |p| session::sealed(&p.nonce, &p.contents));
        if !ok {
            self.ev(obj! {"e": "leak", "r": r, "what": kind});
        }
    }

    fn sent(&mut self, r: u64, m: out_message::Msg) {
        use out_message::Msg as O;
        match m {
            O::StartReplica(s) => self.ev(obj! {"e": "started", "r": r, "id": s.replica_id}),
            O::StopReplica(_) => self.ev(obj! {"e": "stopped", "r": r}),
            O::Log(_) => {}
            O::ChangeCluster(c) => {
                let st = match c.change_status {
                    1 => "pending",
                    2 => "rejected",
                    _ => "unspecified",
                };
                self.ev(obj! {"e": "chgr", "r": r, "id": c.change_id, "st": st});
            }
            O::CheckCluster(c) => {
                let mut v = c.cluster_replica_ids.clone();
                v.sort();
                self.ev(obj! {"e": "chk", "r": r, "lead": c.leader_replica_id, "term": c.leader_term,
                              "v": v, "pend": c.has_pending_changes});
            }
            O::GetReplicaState(s) => {
                self.ev(obj! {"e": "rst", "r": r, "applied": s.applied_index});
            }
            O::DeliverAppMessage(a) => {
                let mut st = "garbled";
                let (mut old, mut new) = (0i64, 0i64);
                let mut full = false;
                if let Ok(AtomicCounterOutMessage {
                    msg: Some(atomic_counter_out_message::Msg::CounterResponse(q)),
                }) = AtomicCounterOutMessage::decode(a.message_header)
                {
                    st = match CounterStatus::try_from(q.status) {
                        Ok(CounterStatus::Success) => "ok",
                        Ok(CounterStatus::Rejected) => "rej",
                        Ok(CounterStatus::InvalidArgumentError) => "arg",
                        Ok(CounterStatus::InvalidOperationError) => "inv",
                        _ => "unspecified",
                    };
                    if let Some(counter_response::Op::CompareAndSwap(op)) = q.op {
                        full = true;
                        old = op.old_value;
                        new = op.new_value;
                        if let Some((k, _, _)) = self.asked.get(&a.correlation_id) {
                            self.believed.insert(k.clone(), if st == "ok" { new } else { old });
                        }
                        self.answered.insert(a.correlation_id);
                    }
                }
                self.ev(obj! {"e": "resp", "r": r, "c": a.correlation_id, "st": st, "old": old,
                              "new": new, "full": full});
            }
            O::SecureChannelHandshake(h) => {
                let to = h.recipient_replica_id;
                let leak = h.encode_to_vec().windows(MARK.len()).any(|w| w == MARK.as_bytes());
                if leak {
                    self.ev(obj! {"e": "leak", "r": r, "what": "handshake"});
                }
                self.post(r, to, in_message::Msg::SecureChannelHandshake(h));
            }
            #[allow(deprecated)]
            O::DeliverSystemMessage(m) => {
                self.check_sealed(r, "system message", &m.payload, &m.message_contents);
                let to = m.recipient_replica_id;
                self.post(r, to, in_message::Msg::DeliverSystemMessage(m));
            }
            #[allow(deprecated)]
            O::DeliverSnapshotRequest(m) => {
                self.check_sealed(r, "snapshot request", &m.payload, &m.payload_contents);
                let to = m.recipient_replica_id;
                self.chunks.insert((r, to, m.delivery_id));
                self.chunk_age.insert((r, to, m.delivery_id), self.now);
                self.post(r, to, in_message::Msg::DeliverSnapshotRequest(m));
            }
            #[allow(deprecated)]
            O::DeliverSnapshotResponse(m) => {
                self.check_sealed(r, "snapshot response", &m.payload, &m.payload_contents);
                let to = m.recipient_replica_id;
                self.post(r, to, in_message::Msg::DeliverSnapshotResponse(m));
            }
        }
    }

    fn post(&mut self, from: u64, to: u64, msg: in_message::Msg) {
        self.net.push(Flight { from, to, msg });
    }

    fn deliver(&mut self, f: Flight) {
        if std::env::var("RT_LOG").is_ok() {
            eprintln!("-- {} {}->{} {}", self.now / self.p.tick, f.from, f.to,
                      format!("{:?}", f.msg).chars().take(40).collect::<String>());
        }
        // In the end the host reports every chunk as failed after a while: an answer that it has
        // delivered may not have been accepted.
        if let (in_message::Msg::DeliverSnapshotResponse(m), false) = (&f.msg, self.healing) {
            if m.delivery_id % 4 != 0 {
                self.chunks.remove(&(f.to, f.from, m.delivery_id));
            }
        }
        self.receive(f.to, Some(f.msg));
    }

    /// The untrusted host damages a message.
    fn tamper(&mut self, f: &mut Flight, rng: &mut Rng) {
        self.tampers += 1;
        let flip = |b: &Bytes, rng: &mut Rng| -> Bytes {
            let mut v = b.to_vec();
            match rng.below(3) {
                0 if !v.is_empty() => {
                    let i = rng.below(v.len());
                    v[i] ^= 1 << rng.below(8);
                }
                1 => {
                    v.truncate(v.len() / 2);
                }
                _ => v.push(7),
            }
            v.into()
        };
        let payload = |p: &mut Option<Payload>, rng: &mut Rng| {
            if let Some(p) = p {
                if rng.chance(80) {
                    p.contents = flip(&p.contents, rng);
                } else {
                    p.nonce = flip(&p.nonce, rng);
                }
            }
        };
        match &mut f.msg {
            in_message::Msg::DeliverSystemMessage(m) => payload(&mut m.payload, rng),
            in_message::Msg::DeliverSnapshotRequest(m) => payload(&mut m.payload, rng),
            in_message::Msg::DeliverSnapshotResponse(m) => payload(&mut m.payload, rng),
            in_message::Msg::SecureChannelHandshake(m) => m.encryption = None,
            _ => {}
        }
    }

    fn misroute(&mut self, f: &mut Flight, rng: &mut Rng) {
        self.tampers += 1;
        let ids: Vec<u64> = self.reps.keys().cloned().collect();
        let other = *rng.pick(&ids);
        // The envelope is under the control of the host.
        let lie = rng.below(3);
        let set = |s: &mut u64, t: &mut u64| match lie {
            0 => *s = other,
            1 => *t = other,
            _ => {}
        };
        match &mut f.msg {
            in_message::Msg::DeliverSystemMessage(m) => set(&mut m.sender_replica_id, &mut m.recipient_replica_id),
            in_message::Msg::DeliverSnapshotRequest(m) => set(&mut m.sender_replica_id, &mut m.recipient_replica_id),
            in_message::Msg::DeliverSnapshotResponse(m) => set(&mut m.sender_replica_id, &mut m.recipient_replica_id),
            in_message::Msg::SecureChannelHandshake(m) => set(&mut m.sender_replica_id, &mut m.recipient_replica_id),
            _ => {}
        }
        if lie == 2 {
            f.to = other;
        }
    }

    fn copy(f: &Flight) -> Flight {
        Flight { from: f.from, to: f.to, msg: f.msg.clone() }
    }

    /// Delivers the n-th message of the network, or loses, repeats or damages it.
    fn deliver_nth(&mut self, n: usize, faults: &Faults, rng: &mut Rng) {
        let mut f = self.net.remove(n);
        let muted = self.mute.contains(&f.from) && matches!(f.msg, in_message::Msg::DeliverSystemMessage(_));
        if muted || self.blocked.contains(&(f.from, f.to)) || rng.chance(faults.loss) {
            return;
        }
        if rng.chance(faults.replay) {
            self.old.push(World::copy(&f));
        }
        if rng.chance(faults.dup) {
            self.net.push(World::copy(&f));
        }
        if rng.chance(faults.tamper) {
            self.tamper(&mut f, rng);
        }
        if rng.chance(faults.misroute) {
            self.misroute(&mut f, rng);
        }
        self.deliver(f);
    }

    /// What two replicas have to say to each other.
    fn exchange(&mut self, a: u64, b: u64, rng: &mut Rng) {
        let none = Faults::none();
        for _ in 0..60 {
            let next = self.net.iter().position(|f| (f.from, f.to) == (a, b) || (f.from, f.to) == (b, a));
            match next {
                Some(n) => self.deliver_nth(n, &none, rng),
                None => return,
            }
        }
    }

    /// A message at a time when it may not do anything.
    fn untimely(&mut self, r: u64, rng: &mut Rng) {
        let started = self.reps[&r].up;
        let (c, id) = (1_000_000 + r, 1_000_000);
        // A replica without replication has no peers, and no cluster that changes.
        let what = match (started, self.p.eph) {
            _ if self.gone.contains(&r) => *rng.pick(&[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12, 12, 12, 12, 12]),
            (true, false) => 0,
            (true, true) => *rng.pick(&[0, 2, 3, 5, 7, 8, 9, 10]),
            (false, _) => *rng.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 12]),
        };
        let mut time_only = false;
        let msg = match what {
            0 => self.start_request(r, rng.chance(50)),
            2 => in_message::Msg::ChangeCluster(ChangeClusterRequest { change_id: id, replica_id: 2, change_type: 1 }),
            3 => in_message::Msg::CheckCluster(CheckClusterRequest {}),
            4 => in_message::Msg::GetReplicaState(GetReplicaStateRequest {}),
            5 => in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure { sender_replica_id: 1, delivery_id: 1 }),
            6 => in_message::Msg::DeliverAppMessage(DeliverAppMessage {
                correlation_id: c,
                message_header: Bytes::new(),
                message_payload: Bytes::new(),
            }),
            7 => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                recipient_replica_id: r,
                sender_replica_id: 1,
                ..Default::default()
            }),
            8 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
                recipient_replica_id: r,
                sender_replica_id: 1,
                delivery_id: 1,
                payload: if rng.chance(50) { None } else { Some(Payload::default()) },
                ..Default::default()
            }),
            9 => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
                recipient_replica_id: r,
                sender_replica_id: 1,
                delivery_id: 1,
                payload: if rng.chance(50) { None } else { Some(Payload::default()) },
                ..Default::default()
            }),
            10 => in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
                recipient_replica_id: r,
                sender_replica_id: 1,
                encryption: None,
            }),
            11 => in_message::Msg::StopReplica(StopReplicaRequest {}),
            _ => {
                time_only = true;
                in_message::Msg::CheckCluster(CheckClusterRequest {})
            }
        };
        let before = self.sh.borrow().app_events;
        let instant = self.reps[&r].instant;
        self.sh.borrow_mut().given.entry(r).and_modify(|t| *t = instant.max(*t)).or_insert(instant);
        let mut host = FakeHost::default();
        let rep = self.reps.get_mut(&r).unwrap();
        let msg = match (time_only, rng.chance(50)) {
            (false, _) => Some(InMessage { msg: Some(msg) }),
            (true, true) => Some(InMessage { msg: None }),
            (true, false) => None,
        };
        let _ = rep.driver.receive_message(&mut host, instant, msg);
        let quiet = self.sh.borrow().app_events == before
            && host.out.iter().all(|m| matches!(m.msg, Some(out_message::Msg::Log(_))));
        self.ev(obj! {"e": "late", "r": r, "quiet": quiet});
    }

    pub fn tick(&mut self, r: u64) {
        let now = self.now;
        let Some(rep) = self.reps.get_mut(&r) else { return };
        rep.instant = rep.instant.max(now);
        self.receive(r, None);
    }

    /// Time passes for everybody and messages are delivered in order.
    pub fn round(&mut self, faults: &Faults, rng: &mut Rng) {
        self.now += self.p.tick;
        let mut batch = std::mem::take(&mut self.net);
        if rng.chance(faults.reorder) {
            rng.shuffle(&mut batch);
        }
        let keep = if rng.chance(faults.delay) { rng.below(batch.len() + 1) } else { 0 };
        let later: Vec<Flight> = batch.split_off(batch.len() - keep);
        for f in batch {
            self.net.push(f);
            let n = self.net.len() - 1;
            self.deliver_nth(n, faults, rng);
        }
        self.net.extend(later);
        if rng.chance(faults.replay) && !self.old.is_empty() {
            let n = rng.below(self.old.len());
            let f = self.old.remove(n);
            self.tampers += 1;
            self.deliver(f);
        }
        let ids: Vec<u64> = self.reps.keys().cloned().collect();
        for r in ids {
            if !rng.chance(faults.lag) {
                self.tick(r);
            }
        }
        self.expire(8);
    }

    /// The host reports chunks that nobody has answered.
    fn expire(&mut self, age: u64) {
        let limit = self.p.tick * age;
        let late: Vec<(u64, u64, u64)> =
            self.chunks.iter().filter(|c| self.chunk_age[c] + limit <= self.now).cloned().collect();
        for c in late {
            self.fail_chunk(c);
        }
    }

    fn fail_chunk(&mut self, c: (u64, u64, u64)) {
        if std::env::var("RT_LOG").is_ok() {
            eprintln!("-- {} failed {:?}", self.now / self.p.tick, c);
        }
        self.chunks.remove(&c);
        self.receive(
            c.0,
            Some(in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure {
                sender_replica_id: c.1,
                delivery_id: c.2,
            })),
        );
    }

    pub fn command(&mut self, r: u64, rng: &mut Rng) -> u64 {
        let k = format!("k{}", rng.below(3));
        let cur = *self.believed.get(&k).unwrap_or(&0);
        let ex = if rng.chance(75) { cur } else { rng.range(0, 3) as i64 };
        let nw = if rng.chance(80) { rng.range(0, 3) as i64 } else { ex };
        self.command_with(r, k, ex, nw, rng)
    }

    fn command_with(&mut self, r: u64, k: String, ex: i64, nw: i64, rng: &mut Rng) -> u64 {
        self.next_c += 1;
        let c = self.next_c;
        self.asked.insert(c, (k.clone(), ex, nw));
        let filler = "x".repeat(*rng.pick(&[0, 5, 60]));
        let payload = if rng.chance(80) { format!("{}{}-{}", MARK, c, filler) } else { String::new() };
        let header = AtomicCounterInMessage {
            msg: Some(atomic_counter_in_message::Msg::CounterRequest(CounterRequest {
                name: k,
                op: Some(counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest {
                    expected_value: ex,
                    new_value: nw,
                })),
                context: Bytes::from(vec![1, 2, 3]),
                payload: payload.into_bytes().into(),
            })),
        };
        self.app(r, c, header.encode_to_vec());
        c
    }

    fn app(&mut self, r: u64, c: u64, header: Vec<u8>) {
        self.receive(
            r,
            Some(in_message::Msg::DeliverAppMessage(DeliverAppMessage {
                correlation_id: c,
                message_header: header.into(),
                message_payload: Bytes::new(),
            })),
        );
    }

    pub fn bad_command(&mut self, r: u64, rng: &mut Rng) {
        self.next_c += 1;
        let c = self.next_c;
        let header = match rng.below(3) {
            0 => vec![],
            1 => vec![0xff, 0xff, 0xff],
            _ => AtomicCounterInMessage {
                msg: Some(atomic_counter_in_message::Msg::CounterRequest(CounterRequest {
                    name: "k0".to_string(),
                    ..Default::default()
                })),
            }
            .encode_to_vec(),
        };
        self.app(r, c, header);
    }

    pub fn change(&mut self, r: u64, add: bool, n: u64, bad: bool) {
        let Some(rep) = self.reps.get(&r) else { return };
        if !rep.up {
            return;
        }
        let lead = *rep.lead.borrow();
        self.change_id += 1;
        let kind = if bad { 0 } else if add { 1 } else { 2 };
        self.ev(obj! {"e": "chg", "r": r, "id": self.change_id, "kind": kind as i64, "n": n, "lead": lead});
        self.expecting = true;
        self.receive(
            r,
            Some(in_message::Msg::ChangeCluster(ChangeClusterRequest {
                change_id: self.change_id,
                replica_id: n,
                change_type: kind,
            })),
        );
    }

    pub fn stop(&mut self, r: u64, gracefully: bool) {
        let Some(rep) = self.reps.get(&r) else { return };
        if !rep.up {
            return;
        }
        if gracefully {
            self.ev(obj! {"e": "stop", "r": r});
            self.receive(r, Some(in_message::Msg::StopReplica(StopReplicaRequest {})));
        } else {
            self.ev(obj! {"e": "crash", "r": r});
        }
        self.reps.get_mut(&r).unwrap().up = false;
        self.chunks.retain(|c| c.0 != r);
        if gracefully {
            self.gone.insert(r);
            self.after(r);
        }
    }

    /// The host goes on to call a replica that has been stopped.
    fn after(&mut self, r: u64) {
        let mut rng = Rng::new(r + 31 * self.now);
        if rng.chance(40) {
            return;
        }
        let long = if rng.chance(50) { 3 * self.p.election } else { 3 };
        for _ in 0..rng.range(1, long as usize) {
            self.reps.get_mut(&r).unwrap().instant += self.p.tick;
            self.untimely(r, &mut rng);
        }
    }

    pub fn lame(&mut self, r: u64) {
        let Some(rep) = self.reps.get_mut(&r) else { return };
        if !rep.up || rep.lame {
            return;
        }
        rep.lame = true;
        self.ev(obj! {"e": "lame", "r": r});
        self.receive(r, Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})));
    }

    pub fn leaders(&self) -> Vec<u64> {
        self.reps.iter().filter(|(_, x)| x.up && *x.lead.borrow()).map(|(r, _)| *r).collect()
    }

    fn up(&self) -> Vec<u64> {
        self.reps.iter().filter(|(_, x)| x.up).map(|(r, _)| *r).collect()
    }

    /// The network and everybody on it behaves from now on: is a command executed, and does
    /// everybody catch up?
    pub fn finish(&mut self, rng: &mut Rng, members: impl Fn(&World) -> Vec<u64>) {
        self.blocked.clear();
        self.mute.clear();
        self.old.clear();
        self.healing = true;
        let sent: Vec<(u64, u64, u64)> = self.chunk_age.keys().cloned().collect();
        self.chunks.extend(sent);
        let (reps, chunks) = (&self.reps, &mut self.chunks);
        chunks.retain(|c| reps[&c.0].up);
        let none = Faults::none();
        let mut probes: Vec<u64> = Vec::new();
        let mut ans = false;
        let mut caught = false;
        let limit = if self.p.eph { 2 } else { 1200 };
        let mut rounds = 0;
        for n in 0..limit {
            rounds = n;
            self.round(&none, rng);
            if !ans && n % 25 == 0 {
                if let Some(l) = self.pick_leader(rng) {
                    let c = self.command(l, rng);
                    probes.push(c);
                }
            }
            ans = probes.iter().any(|c| self.answered.contains(c));
            if ans {
                let sh = self.sh.borrow();
                let most = sh.applied.values().max().cloned().unwrap_or(0);
                let m = members(self);
                // A lame replica may be beyond the term of the leader.
                caught = m.iter().all(|r| self.reps[r].lame || sh.applied.get(r) == Some(&most));
                if caught {
                    break;
                }
            }
            if self.up().is_empty() {
                break;
            }
            if n % 25 == 24 {
                // Whoever has been removed is taken away.
                let m = members(self);
                for r in self.up() {
                    if !m.is_empty() && !m.contains(&r) && self.leaders() != vec![r] {
                        self.stop(r, true);
                    }
                }
            }
        }
        // What a replica tells, after everything.
        for r in self.up() {
            if !self.p.eph {
                self.receive(r, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})));
                self.ask(r);
            }
        }
        let up: Vec<J> = self
            .reps
            .iter()
            .filter(|(_, x)| x.up && !x.lame)
            .map(|(r, _)| J::from(*r))
            .collect();
        self.ev(obj! {"e": "end", "honest": self.tampers == 0, "paced": self.p.paced() && self.calm, "ans": ans, "caught": caught, "rounds": rounds as u64, "up": J::A(up)});
    }

    fn ask(&mut self, r: u64) {
        self.ev(obj! {"e": "ask", "r": r});
        self.expecting = true;
        self.receive(r, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})));
    }

    fn pick_leader(&self, rng: &mut Rng) -> Option<u64> {
        let l: Vec<u64> = self.leaders().into_iter().filter(|r| !self.reps[r].lame).collect();
        if l.is_empty() { None } else { Some(*rng.pick(&l)) }
    }
}

#[derive(Clone)]
pub struct Faults {
    loss: usize,
    dup: usize,
    tamper: usize,
    misroute: usize,
    replay: usize,
    reorder: usize,
    delay: usize,
    lag: usize,
}

impl Faults {
    fn none() -> Self {
        Faults { loss: 0, dup: 0, tamper: 0, misroute: 0, replay: 0, reorder: 0, delay: 0, lag: 0 }
    }
    fn random(rng: &mut Rng) -> Self {
        let mut f = Faults::none();
        match rng.below(4) {
            0 => {}
            1 => {
                f.reorder = 50;
                f.delay = 30;
                f.lag = 20;
            }
            2 => {
                f.loss = rng.range(1, 15);
                f.dup = rng.range(0, 10);
                f.reorder = rng.range(0, 60);
                f.delay = rng.range(0, 40);
                f.lag = rng.range(0, 30);
            }
            _ => {
                f.loss = rng.range(0, 5);
                f.tamper = rng.range(0, 5);
                f.misroute = rng.range(0, 5);
                f.replay = rng.range(0, 20);
                f.dup = rng.range(0, 10);
                f.reorder = rng.range(0, 30);
            }
        }
        f
    }
}

/// The replicas that belong to the cluster as far as the latest leader has reported.
fn members(w: &World) -> Vec<u64> {
    let last = w.sh.borrow().rec.last(|e| {
        matches!(e.find("e"), Some(J::S(s)) if (s == "conf" && matches!(e.get("lead"), J::B(true))) || (s == "chk" && e.get("lead").int() != 0))
    });
    let v: Vec<u64> = match last {
        Some(e) => e.get("v").items().iter().map(|x| x.int() as u64).collect(),
        None => vec![],
    };
    v.into_iter().filter(|r| w.reps.get(r).map_or(false, |x| x.up)).collect()
}

fn setup(rec: &Rec, rng: &mut Rng, p: Params) -> World {
    let mut picks = rng.clone();
    rng.next();
    raft::set_pick(Box::new(move |low, high| low + picks.below(high - low)));
    World::new(rec, p)
}

/// Runs until there is a leader.
fn elect(w: &mut World, rng: &mut Rng) {
    let none = Faults::none();
    for _ in 0..200 {
        if !w.leaders().is_empty() {
            return;
        }
        w.round(&none, rng);
    }
}

fn grow(w: &mut World, n: u64, rng: &mut Rng) {
    let none = Faults::none();
    for r in 2..=n {
        w.start(r, false);
        elect(w, rng);
        let l = w.leaders();
        w.change(l[0], true, r, false);
        for _ in 0..rng.range(0, 40) {
            w.round(&none, rng);
        }
    }
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let mut p = Params::random(rng);
    if rng.chance(4) {
        p.eph = true;
        let mut w = setup(rec, rng, p);
        w.early = rng.chance(30);
        w.backwards = if rng.chance(25) { rng.range(2, 30) as u64 } else { 0 };
        ephemeral(&mut w, rng);
        return;
    }
    let mut w = setup(rec, rng, p);
    w.early = rng.chance(15);
    w.backwards = if rng.chance(25) { rng.range(2, 30) as u64 } else { 0 };
    w.start(1, true);
    elect(&mut w, rng);
    let n = rng.range(1, 4) as u64;
    grow(&mut w, n, rng);
    if n >= 3 && rng.chance(8) {
        late_snapshot(&mut w, rng);
    }
    let mut faults = Faults::random(rng);
    let steps = rng.range(20, 90);
    let mut fresh = n;
    for _ in 0..steps {
        let up = w.up();
        if up.is_empty() {
            break;
        }
        let target = match w.leaders().as_slice() {
            [] => *rng.pick(&up),
            l if rng.chance(85) => *rng.pick(l),
            _ => *rng.pick(&up),
        };
        match rng.below(100) {
            0..=39 => {
                for _ in 0..rng.range(1, 3) {
                    w.command(target, rng);
                }
            }
            40..=41 => w.bad_command(target, rng),
            42..=65 => {
                for _ in 0..rng.range(1, 6) {
                    w.round(&faults, rng);
                }
            }
            66..=75 => {
                for _ in 0..rng.range(1, 8) {
                    if !w.net.is_empty() {
                        let i = rng.below(w.net.len());
                        w.deliver_nth(i, &faults, rng);
                    }
                }
            }
            76..=79 => {
                // One replica alone for a while, or one direction of a link.
                let r = *rng.pick(&up);
                let both = rng.chance(70);
                if rng.chance(25) {
                    w.mute.insert(r);
                    continue;
                }
                for s in &up {
                    if *s != r {
                        w.blocked.insert((r, *s));
                        if both {
                            w.blocked.insert((*s, r));
                        }
                    }
                }
            }
            80..=82 => {
                w.blocked.clear();
                if rng.chance(50) {
                    w.mute.clear();
                }
            }
            83..=84 => {
                for _ in 0..rng.range(3, 25) {
                    w.round(&faults, rng);
                }
            }
            85 => {
                w.now += w.p.tick * rng.range(1, 20) as u64;
            }
            86..=87 => {
                if fresh < 6 {
                    fresh += 1;
                    w.start(fresh, false);
                    w.change(target, true, fresh, false);
                }
            }
            88..=89 => {
                let all: Vec<u64> = w.reps.keys().cloned().collect();
                let n = *rng.pick(&all);
                if up.len() > 1 || rng.chance(20) {
                    let add = rng.chance(25);
                    if !add && n != target && rng.chance(60) {
                        w.stop(n, true);
                    }
                    if !add && w.up().contains(&n) {
                        w.calm = false;
                    }
                    w.change(target, add, n, false);
                }
            }
            90 => w.change(target, rng.chance(50), 1, true),
            91..=92 => {
                let r = *rng.pick(&up);
                w.ask(r);
            }
            93..=94 => {
                let r = *rng.pick(&up);
                w.receive(r, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})));
            }
            95 => {
                if up.len() > 2 || rng.chance(5) {
                    let r = *rng.pick(&up);
                    let g = rng.chance(50);
                    w.stop(r, g);
                }
            }
            96 => {
                if rng.chance(40) {
                    let r = *rng.pick(&up);
                    w.lame(r);
                }
            }
            97 => {
                if let Some(c) = w.chunks.iter().next().cloned() {
                    w.fail_chunk(c);
                }
                let r = *rng.pick(&up);
                w.untimely(r, rng);
            }
            _ => faults = Faults::random(rng),
        }
    }
    finish(&mut w, rng);
}

fn finish(w: &mut World, rng: &mut Rng) {
    // Whoever has been removed is taken away.
    let m = members(w);
    for r in w.up() {
        if !m.is_empty() && !m.contains(&r) && w.leaders() != vec![r] {
            w.stop(r, true);
        }
    }
    w.finish(rng, members);
}

/// A replica that lags stands for election while it is sent a snapshot.
fn late_snapshot(w: &mut World, rng: &mut Rng) {
    let none = Faults::none();
    let lagging = rng.range(2, 3) as u64;
    for r in 1..=3 {
        w.blocked.insert((r, lagging));
        w.blocked.insert((lagging, r));
    }
    for _ in 0..2 * w.p.snapshot_count + 4 {
        if let Some(l) = w.leaders().iter().find(|l| **l != lagging).cloned() {
            w.command(l, rng);
        }
        w.round(&none, rng);
    }
    w.blocked.clear();
    for _ in 0..60 {
        w.round(&none, rng);
        if w.net.iter().any(|f| f.to == lagging && matches!(f.msg, in_message::Msg::DeliverSnapshotRequest(_))) {
            break;
        }
    }
    let before = w.sh.borrow().rec.len();
    for _ in 0..80 {
        w.now += w.p.tick;
        w.tick(lagging);
        if w.sh.borrow().rec.since(before, |e| matches!(e.find("e"), Some(J::S(s)) if s == "camp")) {
            break;
        }
    }
    w.mute.insert(lagging);
    for _ in 0..rng.range(20, 60) {
        let i = (0..w.net.len()).find(|i| {
            !matches!(w.net[*i].msg, in_message::Msg::DeliverSystemMessage(_)) || rng.chance(20)
        });
        match i {
            Some(i) => w.deliver_nth(i, &none, rng),
            None => break,
        }
    }
    w.mute.clear();
}

fn ephemeral(w: &mut World, rng: &mut Rng) {
    w.start(1, false);
    for _ in 0..rng.range(3, 20) {
        match rng.below(7) {
            0..=3 => {
                w.command(1, rng);
            }
            4 => w.bad_command(1, rng),
            5 => w.untimely(1, rng),
            _ => {
                w.now += w.p.tick;
                w.tick(1)
            }
        }
    }
    w.receive(1, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})));
    w.stop(1, true);
}

/// Behaviours of the specification: everything happens on a network that only does what it is told.
pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    let mut p = Params::random(rng);
    p.heartbeat = 5;
    p.election = 15;
    p.chunk = p.chunk.max(20);
    p.pending = 1000;
    let mut w = setup(rec, rng, p);
    w.start(1, true);
    elect(&mut w, rng);
    let none = Faults::none();
    for r in script.get("first").items().iter().skip(1) {
        w.start(r.int() as u64, false);
        let l = w.leaders()[0];
        w.change(l, true, r.int() as u64, false);
        for _ in 0..40 {
            w.round(&none, rng);
        }
    }
    for op in script.get("ops").items() {
        let r = op.get("r").int() as u64;
        let f = op.find("f").map_or(0, |x| x.int()) as u64;
        match op.get("e").text() {
            "cmd" => {
                w.command_with(r, "k0".to_string(), op.get("ex").int(), op.get("nw").int(), rng);
            }
            "chg" => {
                let (add, n) = (op.get("add").flag(), op.get("n").int() as u64);
                if !add && w.up().contains(&n) {
                    w.calm = false;
                }
                w.change(r, add, n, false)
            }
            "start" => {
                if !w.reps.contains_key(&r) {
                    w.start(r, false);
                }
            }
            "stop" => w.stop(r, true),
            "crash" => w.stop(r, false),
            "lame" => w.lame(r),
            "camp" => {
                let before = rec.len();
                for _ in 0..80 {
                    w.now += w.p.tick;
                    w.tick(r);
                    if rec.since(before, |e| matches!(e.find("e"), Some(J::S(s)) if s == "camp")) {
                        break;
                    }
                }
            }
            "win" => {
                let q: Vec<u64> = op.get("q").items().iter().map(|x| x.int() as u64).collect();
                for _ in 0..4 {
                    if w.leaders().contains(&r) {
                        break;
                    }
                    for s in &q {
                        w.exchange(r, *s, rng);
                    }
                    w.now += w.p.tick;
                    w.tick(r);
                }
            }
            "append" => {
                for _ in 0..2 {
                    w.exchange(r, f, rng);
                    w.now += w.p.tick;
                    w.tick(r);
                }
                w.exchange(r, f, rng);
            }
            "load" => {
                let quiet = rng.chance(50);
                if quiet {
                    w.mute.insert(f);
                }
                for _ in 0..8 {
                    w.now += w.p.tick;
                    w.tick(r);
                    w.exchange(r, f, rng);
                }
                w.mute.clear();
            }
            other => panic!("unknown operation {}", other),
        }
    }
    finish(&mut w, rng);
}
