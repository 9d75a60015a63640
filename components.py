"""What the checks run: per component the driver, the specification and its configurations."""

COMMON = [
    'the driver calls the component the way its callers do: from one thread, one call at a time',
    'TLC 1.8 evaluates the specification correctly',
]

COMPONENTS = [
    dict(name='meta', props=['M01', 'M02', 'M03', 'M04'], level='model_checking',
         workspace='harness', crate='cache_driver', cmd='meta', trace='TraceMetadataCache',
         mc_quick=[('MCMetadataCache', 'MCMetadataCache_quick.cfg')],
         mc_thorough=[('MCMetadataCache', 'MCMetadataCache_live.cfg'), ('MCMetadataCache', 'MCMetadataCache.cfg')],
         sim=('MCMetadataCache', 'SimMetadataCache.cfg', 26), sim_quick=400,
         n_quick=4000, n_thorough=12000,
         crash_cf=[{'e': 'cf', 'tables': [{'t': 'A', 'r': [[0, 1]], 'ids': [0]}]}],
         assumptions=COMMON + ['every table has at least one tablet and a fixed set of tablets']),
    dict(name='data', props=['D01', 'D02', 'D03', 'D04', 'D05'], level='model_checking',
         workspace='harness', crate='cache_driver', cmd='data', trace='TraceDataCache',
         mc_quick=[('MCDataCache', 'MCDataCache_quick.cfg')],
         mc_thorough=[('MCDataCache', 'MCDataCache_quick.cfg'), ('MCDataCache', 'MCDataCache.cfg')],
         sim=('MCDataCache', 'SimDataCache.cfg', 41), sim_quick=400,
         n_quick=4000, n_thorough=12000,
         crash_cf=[{'e': 'cf'}],
         assumptions=COMMON + ['SHA-256 has no collisions among the contents that are tried',
                               'the cache never has to evict (its only policy never does)']),
    dict(name='txn', props=['T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'T07'], level='model_checking',
         workspace='harness', crate='cache_driver', cmd='txn', trace='TraceTabletTransactions',
         mc_quick=[('MCTabletTransactions', 'MCTabletTransactions_quick.cfg')],
         mc_thorough=[('MCTabletTransactions', 'MCTabletTransactions_quick.cfg'), ('MCTabletTransactions', 'MCTabletTransactions.cfg')],
         sim=('MCTabletTransactions', 'SimTabletTransactions.cfg', 41), sim_quick=400,
         n_quick=2600, n_thorough=8000,
         crash_cf=[{'e': 'cf', 'nodes': 1, 'tables': [{'t': 'A', 'tablets': [{'id': 1, 'v': 0, 'u': 0, 'c': 0}]}]}],
         assumptions=COMMON + ['every table has a fixed, non-empty set of tablets',
                               'a transaction queries each table at most once per process request',
                               'the tablet store executes a request as one transaction (decided separately, by S01)']),
    dict(name='kv', props=['K01', 'K02', 'K03', 'K04'], level='model_checking',
         workspace='harness', crate='cache_driver', cmd='kv', trace='TraceKeyValueStore',
         mc_quick=[('MCKeyValueStore', 'MCKeyValueStore_quick.cfg')],
         mc_thorough=[('MCKeyValueStore', 'MCKeyValueStore_live.cfg'), ('MCKeyValueStore', 'MCKeyValueStore_batch.cfg'),
                      ('MCKeyValueStore', 'MCKeyValueStore.cfg')],
         sim=('MCKeyValueStore', 'SimKeyValueStore.cfg', 61), sim_quick=300,
         n_quick=2200, n_thorough=6000,
         crash_cf=[{'e': 'cf', 'nodes': 1, 'tables': [{'t': 'A', 'tablets': [{'id': 1, 'v': 0, 'u': 0, 'c': 0}]}]},
                   {'e': 'kv', 'minr': 1, 'minp': 1, 'keys': [{'k': 'k0', 'h': 0, 'v': 0}]}],
         assumptions=COMMON + ['a put whose transaction is applied although its node is told otherwise may take effect again',
                               'the table has a fixed, non-empty set of tablets']),
    dict(name='system', props=['A01', 'A02', 'A03'], level='model_checking',
         workspace='harness_rt', crate='rt_driver', cmd='system', trace='TraceTabletCacheSystem',
         mc_quick=[('MCTabletCacheSystem', 'MCTabletCacheSystem_quick.cfg')],
         mc_thorough=[('MCTabletCacheSystem', 'MCTabletCacheSystem_live.cfg'), ('MCTabletCacheSystem', 'MCTabletCacheSystem.cfg')],
         sim=('MCTabletCacheSystem', 'SimTabletCacheSystem.cfg', 61), sim_quick=300,
         n_quick=2500, n_thorough=8000,
         crash_cf=[{'e': 'cf', 'nodes': 1, 'tables': [{'t': 'A', 'tablets': [{'id': 1, 'v': 0, 'u': 0, 'c': 0}]}]},
                   {'e': 'kv', 'minr': 1, 'minp': 1, 'keys': [{'k': 'k0', 'h': 0, 'v': 0}]}],
         assumptions=['a put whose transaction is applied although its replica is told otherwise may take effect again',
                      'the table has a fixed, non-empty set of tablets',
                      'the port of the Raft library (raft 0.7) behaves like the original, as far as a cluster of one needs it',
                      'TLC 1.8 evaluates the specification correctly']),
    dict(name='log', props=['L01', 'L02'], level='model_checking',
         workspace='harness', crate='cache_driver', cmd='log', trace='TraceRemoteLog',
         mc_quick=[('MCRemoteLog', 'MCRemoteLog_quick.cfg')],
         mc_thorough=[('MCRemoteLog', 'MCRemoteLog.cfg')],
         sim=('MCRemoteLog', 'SimRemoteLog.cfg', 31), sim_quick=400,
         n_quick=1500, n_thorough=5000,
         crash_cf=[{'e': 'cf'}],
         assumptions=['TLC 1.8 evaluates the specification correctly',
                      'the slog crate hands records and key-values to the drain as documented']),
    dict(name='cluster', props=['V01', 'V02', 'V03', 'V04', 'V05', 'V06', 'V07', 'V08', 'C01'], level='model_checking',
         workspace='harness_rt', crate='rt_driver', cmd='cluster', trace='TraceReplicatedLog',
         mc_quick=[('MCReplicatedLog', 'MCReplicatedLog_quick.cfg'), ('MCReplicaTime', 'MCReplicaTime.cfg')],
         mc_thorough=[('MCReplicatedLog', 'MCReplicatedLog_change.cfg'), ('MCReplicatedLog', 'MCReplicatedLog.cfg')],
         sim=('MCReplicatedLog', 'SimReplicatedLog.cfg', 91), sim_quick=160,
         n_quick=500, n_thorough=1500,
         crash_cf=[{'e': 'cf', 'init': [{'k': 'k0', 'v': 1}], 'eph': False}],
         assumptions=['the port of the Raft library (raft 0.7) behaves like the original',
                      'the attested session protects contents, authenticates its peer and refuses replays',
                      'a replica that is stopped or has crashed is not started again under the same id',
                      'TLC 1.8 evaluates the specification correctly']),
    dict(name='store', props=['S01', 'S02', 'S03', 'S04', 'S05'], level='model_checking',
         workspace='harness_rt', crate='rt_driver', cmd='store', trace='TraceTabletStore',
         mc_quick=[('MCTabletStore', 'MCTabletStore_quick.cfg')],
         mc_thorough=[('MCTabletStore', 'MCTabletStore_long.cfg'), ('MCTabletStore', 'MCTabletStore.cfg')],
         sim=('MCTabletStore', 'SimTabletStore.cfg', 41), sim_quick=400,
         n_quick=2500, n_thorough=8000,
         crash_cf=[{'e': 'cf', 'tables': [{'t': 'A', 'tablets': []}]}],
         assumptions=['replicas apply the same requests in the same order (decided separately, by V01 to V04)',
                      'all replicas are configured with the same tables',
                      'TLC 1.8 evaluates the specification correctly']),
    dict(name='storage', props=['R01', 'R02'], level='model_checking',
         workspace='harness_rt', crate='rt_driver', cmd='storage', trace='TraceLogStore',
         mc_quick=[('MCLogStore', 'MCLogStore_quick.cfg')],
         mc_thorough=[('MCLogStore', 'MCLogStore.cfg')],
         sim=('MCLogStore', 'SimLogStore.cfg', 41), sim_quick=300,
         n_quick=2500, n_thorough=12000,
         crash_cf=[{'e': 'cf', 'diff': 1}],
         assumptions=['the caller keeps to the contract of the storage: no gaps, nothing beyond the log, nothing compacted is overwritten',
                      'TLC 1.8 evaluates the specification correctly']),
    dict(name='transfer', props=['P01', 'P02'], level='model_checking',
         workspace='harness_rt', crate='rt_driver', cmd='transfer', trace='TraceSnapshotTransfer',
         mc_quick=[('MCSnapshotTransfer', 'MCSnapshotTransfer_quick.cfg')],
         mc_thorough=[('MCSnapshotTransfer', 'MCSnapshotTransfer_members.cfg'), ('MCSnapshotTransfer', 'MCSnapshotTransfer.cfg')],
         sim=('MCSnapshotTransfer', 'SimSnapshotTransfer.cfg', 61), sim_quick=300,
         n_quick=3000, n_thorough=12000,
         crash_cf=[{'e': 'cf', 'n': 2, 'chunk': 1, 'max': 1}],
         assumptions=['requests and responses are authentic: replicas run the same code',
                      'TLC 1.8 evaluates the specification correctly']),
    dict(name='channel', props=['C02', 'C03', 'C04', 'C05', 'C06'], level='model_checking',
         workspace='harness_rt', crate='rt_driver', cmd='channel', trace='TraceChannel',
         mc_quick=[('MCChannel', 'MCChannel_quick.cfg'), ('MCChannel', 'MCChannel_rogue.cfg')],
         mc_thorough=[('MCChannel', 'MCChannel_safe.cfg'), ('MCChannel', 'MCChannel.cfg')],
         sim=('MCChannel', 'SimChannel.cfg', 46), sim_quick=400,
         n_quick=1800, n_thorough=8000,
         crash_cf=[{'e': 'cf', 'n': 2, 'timeout': 1, 'retry': 1, 'rogue': []}],
         assumptions=['sessions authenticate both ends, protect contents and refuse replays',
                      'TLC 1.8 evaluates the specification correctly']),
]


def component_of(prop):
    found = [c for c in COMPONENTS if prop in c['props']]
    if not found:
        raise SystemExit('unknown property ' + prop)
    return found
