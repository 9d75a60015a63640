//! The whole system: replicas of the tablet cache application, and one of the tablet store with
//! its replicated log, each in the real driver of the runtime. The host in between keeps the
//! tablets, carries all messages, and does what it likes.

use crate::cluster::FakeHost;
use crate::kv::{self, Serve};
use crate::session;
use crate::store::Ids;
use crate::world::World;
use prost::bytes::Bytes;
use prost::Message;
use slog::{o, Logger};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::DefaultCommunicationModule;
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::model::Actor;
use tcp_runtime::platform::Application;
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;
use tcp_tablet_cache_service::actor::TabletCacheActor;
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    tablet_cache_in_message::InMsg, tablet_cache_out_message::OutMsg, *,
};
use tcp_tablet_cache_service::store::{KeyValueRequest, KeyValueResponse, SimpleKeyValueStore};
use tcp_tablet_cache_service::transaction::{
    coordinator::DefaultTabletTransactionCoordinator,
    data::{BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy},
    manager::DefaultTabletTransactionManager,
    metadata::DefaultTabletMetadataCache,
    InMessage as CacheIn, OutMessage as CacheOut,
};
use tcp_tablet_store_service::actor::TabletStoreActor;
use tcp_tablet_store_service::apps::tablet_store::service as store;
use tcp_tablet_store_service::apps::tablet_store::service::{TabletsRequest, TabletsRequestStatus, TabletsResponse};
use vcommon::{Rec, Rng, J};

type D<A> = Driver<RaftSimple<MemoryStorage>, MemoryStorage, DefaultSnapshotProcessor, A, DefaultCommunicationModule>;

fn driver<A: Actor>(actor: A) -> D<A> {
    Driver::new(
        RaftSimple::new(),
        Box::new(|logger, diff| MemoryStorage::new(logger, diff)),
        DefaultSnapshotProcessor::new(
            Box::new(DefaultSnapshotSender::new()),
            Box::new(DefaultSnapshotReceiver::new()),
        ),
        actor,
        DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(
            session::Factory::default(),
        )))),
        Some(Logger::root(slog::Discard, o!())),
    )
}

fn call<A: Actor>(d: &mut D<A>, instant: u64, msg: Option<in_message::Msg>) -> Option<Vec<out_message::Msg>> {
    let mut host = FakeHost::default();
    d.receive_message(&mut host, instant, msg.map(|m| InMessage { msg: Some(m) })).ok()?;
    Some(host.out.into_iter().filter_map(|m| m.msg).collect())
}

/// The tablet store, replicated by a cluster of one.
struct StoreNode {
    driver: D<TabletStoreActor<Ids>>,
    instant: u64,
    next: u64,
}

impl StoreNode {
    fn new(tables: Vec<(String, Vec<u32>)>) -> StoreNode {
        let config = store::TabletStoreConfig {
            table_configs: tables
                .iter()
                .map(|(t, ids)| store::TableConfig {
                    table_name: t.clone(),
                    max_tablet_size: 1024,
                    min_tablet_size: 512,
                    initial_tablet_count: ids.len() as u32,
                })
                .collect(),
        };
        let ids = tables.into_iter().map(|t| t.1).collect();
        let mut node = StoreNode {
            driver: driver(TabletStoreActor::new(Ids(Rc::new(RefCell::new(ids))))),
            instant: 0,
            next: 0,
        };
        let start = in_message::Msg::StartReplica(StartReplicaRequest {
            is_leader: true,
            replica_id_hint: 1,
            raft_config: Some(RaftConfig {
                tick_period: 10,
                election_tick: 5,
                heartbeat_tick: 1,
                max_size_per_msg: 0,
                snapshot_config: Some(SnapshotConfig { snapshot_count: 3, chunk_size: 100, max_pending_chunks: 2 }),
                handshake_retry_tick: 1,
            }),
            app_config: config.encode_to_vec().into(),
            is_ephemeral: false,
            endorsements: Some(session::endorsements(1)),
        });
        call(&mut node.driver, 0, Some(start)).expect("start of the tablet store");
        for _ in 0..30 {
            node.tick();
        }
        node
    }

    fn tick(&mut self) -> Vec<out_message::Msg> {
        self.instant += 10;
        call(&mut self.driver, self.instant, None).expect("tick of the tablet store")
    }

    fn execute(&mut self, request: Bytes) -> TabletsResponse {
        self.next += 1;
        let id = self.next;
        let header = store::TabletStoreInMessage {
            in_msg: Some(store::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(
                store::ExecuteTabletOpsRequest { sender_node_id: 9 },
            )),
        };
        let msg = in_message::Msg::DeliverAppMessage(DeliverAppMessage {
            correlation_id: id,
            message_header: header.encode_to_vec().into(),
            message_payload: request,
        });
        let mut out = call(&mut self.driver, self.instant, Some(msg)).expect("request to the tablet store");
        for _ in 0..5 {
            for m in out {
                if let out_message::Msg::DeliverAppMessage(a) = m {
                    let header = store::TabletStoreOutMessage::decode(a.message_header).expect("header of the tablet store");
                    assert_eq!(a.correlation_id, id, "answer to something else");
                    assert!(
                        matches!(header.out_msg, Some(store::tablet_store_out_message::OutMsg::ExecuteTabletOpsResponse(_))),
                        "tablet store does not execute a request: {:?}",
                        header
                    );
                    return TabletsResponse::decode(a.message_payload).expect("answer of the tablet store");
                }
            }
            out = self.tick();
        }
        panic!("no answer of the tablet store");
    }
}

/// Where the application lets the correlation ids of its parts begin.
fn counters() -> &'static [u64; 3] {
    static COUNTERS: OnceLock<[u64; 3]> = OnceLock::new();
    COUNTERS.get_or_init(|| {
        let main = std::fs::read_to_string("/repo/apps/tablet_cache/app/src/main.rs").unwrap_or_default();
        let value = |name: &str, other: u64| {
            let text = main.lines().find_map(|l| l.trim().strip_prefix(&format!("const {}: u64 = ", name)));
            let mut parts = text.unwrap_or("").trim_end_matches(';').split("<<").map(|x| x.trim().parse::<u64>());
            match (parts.next(), parts.next()) {
                (Some(Ok(x)), None) => x,
                (Some(Ok(x)), Some(Ok(by))) => x << by,
                _ => other << 56,
            }
        };
        [
            value("TRANSACTION_COORDINATOR_CORRELATION_COUNTER", 1),
            value("METADATA_CACHE_CORRELATION_COUNTER", 3),
            value("DATA_CACHE_CORRELATION_COUNTER", 2),
        ]
    })
}

/// Small numbers for correlation ids: the part that asks and how often it has.
fn small(c: u64) -> u64 {
    let all = counters();
    let part = (0..3).filter(|p| all[*p] <= c).max_by_key(|p| all[*p]).unwrap_or(0);
    (c - all[part].min(c)) % 1_000_000 + part as u64 * 1_000_000
}

type Cache = TabletCacheActor<DefaultTabletTransactionManager<Bytes>, SimpleKeyValueStore>;

/// A replica of the tablet cache.
struct CacheNode {
    driver: D<Cache>,
    instant: u64,
    out: Vec<CacheOut>,
    responses: Vec<KeyValueResponse>,
    // Answers that have been given.
    old: Vec<DeliverAppMessage>,
}

fn in_app(c: u64, msg: InMsg, payload: Bytes) -> DeliverAppMessage {
    DeliverAppMessage {
        correlation_id: c,
        message_header: TabletCacheInMessage { in_msg: Some(msg) }.encode_to_vec().into(),
        message_payload: payload,
    }
}

impl CacheNode {
    fn new(world: &World, n: usize, (minr, minp): (u32, u32)) -> CacheNode {
        let [transactions, metadata, data] = *counters();
        let actor = TabletCacheActor::new(
            DefaultTabletTransactionManager::create(
                Box::new(DefaultTabletTransactionCoordinator::create(transactions)),
                Box::new(DefaultTabletMetadataCache::create(metadata)),
                Box::new(DefaultTabletDataCache::create(
                    data,
                    Box::new(BytesTabletDataSerializer {}),
                    Box::new(DefaultTabletDataCachePolicy::new()),
                )),
            ),
            SimpleKeyValueStore::create(),
        );
        let config = TabletCacheConfig {
            transaction_manager_config: Some(TransactionManagerConfig {
                metadata_cache_config: Some(TabletMetadataCacheConfig {
                    table_configs: world
                        .cf
                        .iter()
                        .map(|t| TableMetadataCacheConfig { table_name: t.name.clone(), table_region_size: t.region })
                        .collect(),
                }),
                data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 40 }),
                ..Default::default()
            }),
            store_config: Some(StoreConfig {
                table_name: world.cf[0].name.clone(),
                min_pending_before_resolve: minr,
                min_pending_before_process: minp,
                ..Default::default()
            }),
            ..Default::default()
        };
        let mut driver = driver(actor);
        let start = in_message::Msg::StartReplica(StartReplicaRequest {
            is_leader: false,
            replica_id_hint: n as u64 + 1,
            raft_config: None,
            app_config: config.encode_to_vec().into(),
            is_ephemeral: true,
            endorsements: Some(session::endorsements(1)),
        });
        call(&mut driver, 0, Some(start)).expect("start of a tablet cache");
        CacheNode { driver, instant: 0, out: vec![], responses: vec![], old: vec![] }
    }

    /// Does the replica go on?
    fn call(&mut self, msg: Option<DeliverAppMessage>) -> bool {
        let Some(out) = call(&mut self.driver, self.instant, msg.map(in_message::Msg::DeliverAppMessage)) else {
            return false;
        };
        for m in out {
            let out_message::Msg::DeliverAppMessage(a) = m else { continue };
            let c = a.correlation_id;
            let header = TabletCacheOutMessage::decode(a.message_header).expect("header of the tablet cache");
            match header.out_msg.expect("message of the tablet cache") {
                OutMsg::PutKeyResponse(r) => self.responses.push(KeyValueResponse::Put(c, r)),
                OutMsg::GetKeyResponse(r) => self.responses.push(KeyValueResponse::Get(c, r)),
                OutMsg::LoadTabletRequest(r) => self.out.push(CacheOut::LoadTabletRequest(c, r)),
                OutMsg::StoreTabletRequest(r) => self.out.push(CacheOut::StoreTabletRequest(c, r, a.message_payload)),
                OutMsg::ExecuteTabletOpsRequest(r) => {
                    let request = TabletsRequest::decode(a.message_payload).expect("request to the tablet store");
                    self.out.push(CacheOut::ExecuteTabletOpsRequest(c, r, request))
                }
            }
        }
        true
    }
}

impl Serve for CacheNode {
    fn request(&mut self, request: KeyValueRequest) {
        let msg = match request {
            KeyValueRequest::Put(c, r) => in_app(c, InMsg::PutKeyRequest(r), Bytes::new()),
            KeyValueRequest::Get(c, r) => in_app(c, InMsg::GetKeyRequest(r), Bytes::new()),
        };
        assert!(self.call(Some(msg)), "tablet cache fails at a request");
    }

    fn tick(&mut self, _: &Rec, _: usize, instant: u64) {
        self.instant = instant;
        assert!(self.call(None), "tablet cache fails at a tick");
    }

    fn process(&mut self, message: CacheIn) {
        let msg = match message {
            CacheIn::LoadTabletResponse(c, r, data) => in_app(c, InMsg::LoadTabletResponse(r), data),
            CacheIn::StoreTabletResponse(c, r) => in_app(c, InMsg::StoreTabletResponse(r), Bytes::new()),
            CacheIn::ExecuteTabletOpsResponse(c, r, response) => {
                in_app(c, InMsg::ExecuteTabletOpsResponse(r), response.encode_to_vec().into())
            }
            CacheIn::ExecuteTabletOpsError(c, r) => in_app(c, InMsg::ExecuteTabletOpsError(r), Bytes::new()),
        };
        self.old.push(msg.clone());
        assert!(self.call(Some(msg)), "tablet cache fails at an answer");
    }

    fn take(&mut self) -> (Vec<CacheOut>, Vec<KeyValueResponse>) {
        (std::mem::take(&mut self.out), std::mem::take(&mut self.responses))
    }

    fn eager(&self) -> bool {
        true
    }

    fn hostile(&mut self, answer: Option<u64>, rng: &mut Rng) -> bool {
        let garbage = Bytes::from_static(b"\x0a\x7f broken");
        let c = answer.unwrap_or(*rng.pick(&[0, 77, 1 << 55, u64::MAX]));
        let ok = TabletDataStorageStatus::Succeeded.into();
        let msg = match if answer.is_some() { 0 } else { rng.range(0, 8) } {
            0 => in_app(c, InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse::default()), garbage),
            1 => in_app(c, InMsg::LoadTabletResponse(LoadTabletResponse { status: ok }), garbage),
            2 => in_app(c, InMsg::StoreTabletResponse(StoreTabletResponse { status: ok }), garbage),
            3 => in_app(c, InMsg::ExecuteTabletOpsError(ExecuteTabletOpsError::default()), garbage),
            4 => DeliverAppMessage { correlation_id: c, message_header: garbage, message_payload: Bytes::new() },
            5 => DeliverAppMessage { correlation_id: c, ..Default::default() },
            6 => in_app(
                c,
                InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse::default()),
                TabletsResponse { status: TabletsRequestStatus::Succeeded.into(), tablet_results: vec![] }
                    .encode_to_vec()
                    .into(),
            ),
            _ if !self.old.is_empty() => rng.pick(&self.old).clone(),
            _ => return true,
        };
        self.call(Some(msg))
    }
}

fn make(world: &mut World, nodes: usize, thresholds: (u32, u32)) -> Vec<Box<dyn Serve>> {
    session::reset();
    let tables = world.cf.iter().map(|t| (t.name.clone(), t.tablets.iter().map(|x| x.id).collect())).collect();
    let mut store_node = StoreNode::new(tables);
    // The store gets to the versions it is supposed to have.
    for t in &world.cf {
        for x in t.tablets.iter().filter(|x| x.u != 0) {
            for v in 1..=x.v {
                let mut m = world.tables[&t.name][&x.id].clone();
                m.tablet_version = v;
                let request = TabletsRequest {
                    tablet_ops: vec![store::TabletOp {
                        table_name: t.name.clone(),
                        op: Some(store::tablet_op::Op::UpdateTablet(store::UpdateTabletOp { tablet_metadata: Some(m) })),
                    }],
                };
                let response = store_node.execute(request.encode_to_vec().into());
                assert_eq!(response.status, i32::from(TabletsRequestStatus::Succeeded), "version of a tablet");
            }
        }
    }
    world.small = small;
    world.executor = Some(Box::new(move |r| store_node.execute(r.encode_to_vec().into())));
    (0..nodes).map(|n| Box::new(CacheNode::new(world, n, thresholds)) as Box<dyn Serve>).collect()
}

pub fn random(rec: &Rec, rng: &mut Rng) {
    let nodes = rng.range(1, 3);
    kv::random_with(rec, rng, nodes, true, &make);
}

pub fn script(rec: &Rec, script: &J, rng: &mut Rng) {
    kv::script_with(rec, script, rng, &make);
}
