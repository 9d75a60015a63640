"""The properties (source of properties.jsonl) and how they are claimed (source of MANIFEST.json)."""
S = 'tablet_cache/service/src/'
CACHE = 'apps/tablet_cache/service/src/'
NOTE = ('Exhaustive for the specification within the constants of its configuration; for the code, every step of the recorded runs '
        '(random and generated from the specification) is checked, so a violation needs to show in one of the runs that were tried. ')
HOOKS = None
NOT_APPLICABLE = []
PROPERTIES = []


def P(**kw):
    PROPERTIES.append(kw)


# ---------------------------------------------------------------- tablet metadata cache
MD = CACHE + 'transaction/metadata.rs'
MDMECH = [('key to tablet assignment, clockwise on the hash ring', MD + ' resolution of table queries'),
          ('regions of the ring and their refresh', MD + ' table metadata entries')]
MDNOTE = NOTE + 'Tables have 1 to 6 tablets that do not change; the tablet store is played by the driver.'
P(id='M01', title='A resolved key is assigned to the tablet that owns it, exactly once',
  statement='When a set of table queries is resolved to tablets, every key of every query is assigned to exactly one tablet of that table: the one whose id is the first at or clockwise of the hash of the key on the ring. Every tablet is listed at most once per table, no key is invented, duplicated or dropped, and results refer to the query they answer.',
  over=['inputs', 'schedules', 'configurations'],
  quant='all sets of tables, tablets and ring regions, all sets of queries and keys, and all interleavings of resolutions with answers of the tablet store and commits',
  tests='The tests resolve nothing; the module has no tests. Ring arithmetic only fails for particular positions of keys relative to tablets and region borders.',
  files=[MD], mech=MDMECH, observe=['results returned for a resolve request'], note=MDNOTE)
P(id='M02', title='Every resolution of table queries completes exactly once, with all its keys',
  statement='Every request to resolve table queries completes exactly once, with an answer for every key it asked for, as soon as the tablet store has answered for the regions the keys are in. Failed or partly failed answers delay a resolution, and never lose, repeat or corrupt it.',
  over=['schedules', 'fault_sequences', 'inputs'],
  quant='all interleavings of resolutions, answers in any order, failed answers and metadata updates',
  tests='Needs several resolutions waiting for the same region, failures and retries in particular orders; no existing test resolves anything.',
  files=[MD], mech=MDMECH + [('pending resolve requests', MD + ' make_progress')], observe=['results returned for a resolve request'], note=MDNOTE)
P(id='M03', title='Resolved tablet metadata never goes back in time',
  statement='The metadata a resolution returns for a tablet is genuine metadata of that tablet, and is at least as recent as the newest metadata that was known locally when the resolution was requested. An older answer that arrives late never replaces newer metadata.',
  over=['schedules', 'histories', 'fault_sequences'],
  quant='all orders of list answers, local commits, conflicts and resolutions',
  tests='Depends on a late list answer crossing a local update; the existing tests run no such schedule.',
  files=[MD], mech=[('version comparison on metadata updates', MD + ' process_out_message / update_tablet')], observe=['metadata in resolved tablets'], note=MDNOTE)
P(id='M04', title='Tablet regions are listed only when needed, one request at a time',
  statement='The tablet store is asked only for configured regions of existing tables which some unfinished resolution needs and which are not known already. There is at most one outstanding request per region, and a region that is known or being asked for is asked for again only after a failure, or after a conflict told that what is known about it is outdated.',
  over=['schedules', 'histories', 'fault_sequences'],
  quant='all interleavings of resolutions, answers, failures and conflicts',
  tests='The existing tests look at no requests to the tablet store.',
  files=[MD], mech=MDMECH, observe=['list requests to the tablet store'], note=MDNOTE)

# ---------------------------------------------------------------- the log
LG = 'runtime/src/logger.rs'
LGNOTE = NOTE + 'Both variants of the logger (with and without the standard library) are driven.'
P(id='L01', title='Every log record reaches the host exactly once and in order',
  statement='Whatever is logged through the remote logger or any logger derived from it waits until the log is taken, and is handed out exactly once, in the order in which it was logged. When several threads log while the log is taken, nothing is lost or repeated and the records of each thread stay in order.',
  over=['inputs', 'schedules', 'histories'],
  quant='all sequences of records, derived loggers and takes, all interleavings of threads that log with takes',
  tests='No existing test logs through the remote logger and takes entries repeatedly or concurrently.',
  files=[LG], mech=[('shared list of entries', LG + ' RemoteDrainCore')], observe=['take_entries'], note=LGNOTE)
P(id='L02', title='A log record reaches the host as it was logged',
  statement='Every entry of the remote log has the severity of the record it stands for and a message with the text of the record, the file name and line it was logged at, and every key-value of the record and of the loggers it was logged through, and of no other.',
  over=['inputs', 'configurations'],
  quant='all levels, source positions, texts and sets of own and inherited key-values of all types',
  tests='No existing test looks at a log message.',
  files=[LG], mech=[('formatting of records', LG + ' create_log_message')], observe=['take_entries'], note=LGNOTE)

# ---------------------------------------------------------------- tablet data cache
DA = CACHE + 'transaction/data.rs'
DAMECH = [('cache entries per blob and their state', DA + ' cache entry states'),
          ('batches that wait for entries', DA + ' load/store requests')]
DANOTE = NOTE + 'The storage is played by the driver, with failures, delays, reordering and contents of its choice. Collision freedom of SHA-256 is assumed.'
P(id='D01', title='A load returns exactly the requested tablets with their genuine contents',
  statement='A successful load of a batch of tablets returns every requested tablet exactly once per request and nothing else, each with the contents the storage holds for it and only once all of them are present. A load fails only if the storage failed or answered wrongly for one of its tablets.',
  over=['schedules', 'inputs', 'fault_sequences'],
  quant='all batches (including empty ones, repeated and shared tablets, tablets that were never stored), all orders of answers, all storage failures',
  tests='No existing test loads tablets; it needs batches that share blobs with interleaved answers.',
  files=[DA], mech=DAMECH, observe=['results of load requests'], note=DANOTE)
P(id='D02', title='Contents that do not match the recorded hash are never handed out',
  statement='Whatever the untrusted storage answers, contents are handed to the application as those of a tablet only if they match the hash that the metadata of the tablet records. A tablet that was never stored has empty contents only.',
  over=['inputs', 'fault_sequences', 'schedules'],
  quant='all answers of the storage (altered, swapped, truncated or undecodable contents) at any time',
  tests='No existing test lets the storage misbehave.',
  files=[DA], mech=[('hash of loaded contents is compared with the metadata', DA + ' processing of load responses')], observe=['contents in results of load requests'], note=DANOTE)
P(id='D03', title='A stored tablet gets the next version and a blob of its own',
  statement='Storing new contents of a tablet yields metadata with the same tablet id, the next version, the size and hash of exactly those contents and a blob name that no other tablet, version or contents share. The storage receives exactly these contents, and the store is reported successful only after the storage has confirmed all of them; it fails only if the storage failed or the contents cannot be encoded.',
  over=['inputs', 'schedules', 'fault_sequences'],
  quant='all batches of tablets, including the same contents twice and contents that cannot be encoded, all orders of confirmations and failures',
  tests='No existing test stores tablets.',
  files=[DA], mech=DAMECH + [('naming of blobs', DA + ' store request')], observe=['metadata of stored tablets', 'requests to the storage'], note=DANOTE)
P(id='D04', title='The storage is asked once per blob, and never for what is cached',
  statement='A blob that is cached, being loaded or being stored is not requested again, and only blobs that somebody asked for are requested. After a failure the blob may be requested again.',
  over=['schedules', 'fault_sequences', 'histories'],
  quant='all interleavings of overlapping loads and stores with answers and failures',
  tests='No existing test observes requests to the storage.',
  files=[DA], mech=DAMECH, observe=['requests to the storage'], note=DANOTE)
P(id='D05', title='Every load and store of a batch completes exactly once',
  statement='Every batch, including an empty one, completes exactly once, successfully or with the status of a failure, after the storage has answered for the tablets in it. Neither failures nor other batches for the same tablets leave it waiting forever.',
  over=['schedules', 'fault_sequences'],
  quant='all batches and all orders of answers and failures',
  tests='No existing test waits for batches.',
  files=[DA], mech=DAMECH, observe=['results of load and store requests'], note=DANOTE)

# ---------------------------------------------------------------- transactions
CO = CACHE + 'transaction/coordinator.rs'
MA = CACHE + 'transaction/manager.rs'
TXMECH = [('transaction state machine', CO), ('correlation of transactions, tablets and data', MA)]
TXNOTE = NOTE + 'Up to three nodes with their own caches share one tablet store, which executes each request atomically (S01), and one storage; both are played by the driver with failures, lost answers and delays. A transaction queries a table at most once per process request.'
P(id='T01', title='A commit validates everything read and installs everything written',
  statement='When a transaction commits, the single request it sends to the tablet store contains an operation for each tablet the transaction used and no other: one that validates the version whose contents the transaction was given, or one that replaces that version with the contents it wrote last. Tablets of different tables are never confused.',
  over=['programs', 'schedules', 'histories'],
  quant='all transactions (any number of process steps over any tables and tablets) and all interleavings with other transactions on any node',
  tests='Existing tests commit nothing through the manager; wrong versions need several steps and concurrent commits.',
  files=[CO, MA], mech=TXMECH, observe=['execute-tablet-ops requests to the tablet store'], note=TXNOTE)
P(id='T02', title='The reported outcome of a transaction is its real outcome',
  statement='A transaction is reported as succeeded only if the tablet store has applied it (or it touched no tablets), and as failed only if it was not applied or the answer of the tablet store was lost or incomplete. The outcome does not change and is reported once the transaction has finished.',
  over=['schedules', 'fault_sequences', 'histories'],
  quant='all answers of the tablet store and the storage, including failures and partial answers, at any time',
  tests='Existing tests use mocks whose outcome is fixed.',
  files=[CO, MA], mech=TXMECH, observe=['outcomes of transactions'], note=TXNOTE)
P(id='T03', title='New contents are durable before the tablet store refers to them',
  statement='Tablet metadata is sent to the tablet store only when the storage has confirmed the blob it refers to, and the blob holds exactly the contents the transaction wrote. Blobs are immutable: a blob name is never written with other contents, by whichever node.',
  over=['schedules', 'crash_points', 'fault_sequences'],
  quant='all interleavings of blob stores, failures and commits over all nodes, in particular a crash at any moment between the two',
  tests='Order of effects towards two external systems; the existing tests observe neither.',
  files=[CO, DA], mech=[('commit waits for the data of updated tablets', CO), ('blob naming', DA)], observe=['store requests', 'execute-tablet-ops requests'], note=TXNOTE)
P(id='T04', title='Transactions are serializable and read a stable state',
  statement='Committed transactions over tablets of all nodes are equivalent to executing them one after the other: a transaction is applied only to exactly the contents it was given. Within a transaction a tablet always shows what the transaction wrote last, or else the same committed contents. A request that a node makes after it has learned about a version of a tablet, by a commit of its own or as the reason of a conflict, is not given an older one.',
  over=['schedules', 'histories', 'programs'],
  quant='all interleavings of any transactions on several nodes, including failing ones',
  tests='Isolation depends on the interleaving of concurrent transactions; the existing tests have none.',
  files=[CO, MA, MD], mech=TXMECH + [('optimistic version checks', 'apps/tablet_store/service/src/actor.rs')], observe=['contents given to processing', 'effects in the tablet store'], note=TXNOTE)
P(id='T05', title='Uncommitted, aborted and failed transactions have no effect',
  statement='No tablet changes unless a transaction that wrote it asked to commit: a transaction that was aborted, that failed or that is still open never sends operations to the tablet store, and what it wrote is never given to another transaction. An aborted or finished transaction is not processed further.',
  over=['programs', 'schedules', 'fault_sequences'],
  quant='all transactions that end at any point, interleaved with others',
  tests='The existing tests abort nothing through the manager.',
  files=[CO, MA], mech=TXMECH, observe=['execute-tablet-ops requests', 'contents given to processing'], note=TXNOTE)
P(id='T06', title='Transactions finish, and succeed when nothing stands in their way',
  statement='Every transaction that is committed reaches an outcome once the tablet store and the storage have answered, whatever failures there were before. When failures are over and no other transaction runs, a transaction succeeds at the latest when it is tried again after having learned about a conflict.',
  over=['schedules', 'fault_sequences', 'histories'],
  quant='all histories of failures and conflicts followed by a period without',
  tests='Liveness after arbitrary failure histories is out of reach of fixed scenarios.',
  files=[CO, MA, MD, DA], mech=TXMECH + [('metadata refresh after conflicts', MD)], observe=['outcomes of transactions'], note=TXNOTE)
P(id='T07', title='Processing gets every requested key with the tablet that owns it, once',
  statement='Processing is called at most once per process request, with all requested keys, each in the tablet that owns it, and every tablet at most once. The tablets of different tables, queries and requests are never mixed up.',
  over=['inputs', 'schedules', 'fault_sequences'],
  quant='all process requests over any tables and keys and all interleavings',
  tests='The existing tests call the handler on mocks with one tablet.',
  files=[CO, MA, MD], mech=TXMECH, observe=['arguments of process handlers'], note=TXNOTE)

# ---------------------------------------------------------------- key value store
KV = CACHE + 'store.rs'
KVMECH = [('batching of requests per tablet', KV + ' RequestTracker, TabletTracker'),
          ('transactions and their retry', KV + ' TransactionTracker, maybe_finalize_or_retry_transactions')]
KVNOTE = NOTE + ('Real key value stores on real transaction managers (one or two nodes); storage, tablet store and network are played by the driver. '
                 'A put whose commit is applied while its node gets an error instead of the answer is tried again, hence may take effect twice; the property allows that.')
P(id='K01', title='Every request to the key value store is answered exactly once',
  statement='Every get and put request accepted by the key value store is answered exactly once, with a response of its kind and its correlation id: never twice, never to a request that was not made, and never not at all once enough requests have come in to fill the batches and the transactions stop failing. Failed transactions, conflicts with other nodes and failures of the storage or the tablet store delay answers, and lose none.',
  over=['schedules', 'fault_sequences', 'histories', 'configurations'],
  quant='all interleavings of requests, batches over several tablets, conflicting transactions of several nodes, failures at any step and batching thresholds',
  tests='The only test runs one batch of three requests on one tablet, with mocks and without any failure or conflict.',
  files=[KV], mech=KVMECH, observe=['responses of the key value store'], note=KVNOTE)
P(id='K02', title='The key value store is linearizable per key, across nodes',
  statement='What clients of all nodes are told is what they would be told if the requests took effect one at a time, each between being made and being answered: a get returns the value of the latest put that took effect before it, both tell truthfully whether the key existed, an acknowledged put is never lost or undone, and the stored tablets contain exactly the values that result. A tablet is written only for a put. This includes keys whose hashes collide, empty values and several requests for the same key in one batch.',
  over=['schedules', 'fault_sequences', 'histories', 'inputs'],
  quant='all interleavings of gets and puts from several nodes for the same and for different keys, with conflicts, retries and failures at any step',
  tests='The only test runs one batch on one node; consistency over nodes, retries and colliding hashes are out of its reach.',
  files=[KV, CACHE + 'transaction/coordinator.rs', CACHE + 'transaction/manager.rs'], mech=KVMECH + [('requests are executed on the contents of the tablet', KV + ' process_table_query')],
  observe=['responses of the key value store', 'contents of stored tablets'], note=KVNOTE)
P(id='K03', title='A request is answered only after its transaction has been confirmed',
  statement='A response, to a put as well as to a get, is given out only after the tablet store has confirmed the transaction that executed the request. Results computed in a transaction that fails are discarded and the request is executed again.',
  over=['schedules', 'fault_sequences', 'histories'],
  quant='all points at which transactions are in flight, fail or conflict while responses are collected',
  tests='The only test has a transaction that succeeds at once.',
  files=[KV], mech=[('responses are kept until the commit is confirmed', KV + ' TransactionTracker')], observe=['responses of the key value store relative to commits'], note=KVNOTE)
P(id='K04', title='Requests are batched per tablet, with one transaction per tablet at a time',
  statement='A node never has two transactions of the key value store in flight for the same tablet. Tablets are looked up only for requests that were made and only once the configured number of requests is waiting, and a tablet takes part in a transaction only once the configured number of its requests is waiting; the transaction asks exactly for keys of waiting requests. When as many are waiting as configured, the next turn of the node looks up their tablets, or starts the transaction if none is in flight for the tablet.',
  over=['schedules', 'histories', 'configurations'],
  quant='all batching thresholds, sets of tablets and interleavings of requests, transactions and failures',
  tests='The only test has one tablet and one transaction.',
  files=[KV], mech=KVMECH, observe=['lookups and transactions the store starts'], note=KVNOTE)

# ---------------------------------------------------------------- replicated state machine
RT = 'runtime/src/'
RTNOTE = ('Exhaustive for the specification (an abstraction of Raft with snapshots and configuration changes, 3 replicas) within the constants of its configurations; '
          'for the code, every step of the recorded runs of a cluster (random and generated from the specification) is checked. '
          'The clusters consist of 1 to 6 real replicas (driver, consensus adapter, log storage, snapshot transfer, channels, counter actor) under a simulated network, clock and host. '
          'The Raft library is a port of raft 0.7 (the original is not available offline) and the attested session is a stand-in with the same interface. ')
RTMECH = [('driver of a replica', RT + 'driver.rs'), ('adapter of the Raft library', RT + 'consensus.rs'), ('storage of the log', RT + 'storage.rs')]
RTOVER = ['schedules', 'crash_points', 'fault_sequences', 'histories', 'configurations']
RTQUANT = ('all schedules of commands, messages (delayed, reordered, lost, repeated, damaged, misrouted), ticks, elections, snapshots, configuration changes, '
           'crashes, stops and lameduck, and all sizes of snapshots, chunks and messages')
V = P
V(id='V01', title='All replicas apply the same commands in the same order, each exactly once',
  statement='There is one history of committed commands, and every replica applies a prefix of it, in order and without gaps, whatever happens to messages and replicas. A command is applied at most once, with the same index everywhere, and only if a replica has proposed it; loading a snapshot continues the history exactly where the snapshot has been taken.',
  over=RTOVER, quant=RTQUANT,
  tests='The tests of the driver use mocks for everything around it; no test has more than one replica.',
  files=[RT + 'driver.rs', RT + 'consensus.rs', RT + 'storage.rs', RT + 'snapshot.rs'], mech=RTMECH, observe=['events applied by the actor of every replica'], note=RTNOTE)
V(id='V02', title='A command is answered once, by the replica that proposed it, when applied',
  statement='A command given to a leader is answered exactly when its replica applies it, exactly once, under the correlation id it was given, and by no other replica. A command given to a replica that does not lead, or that is malformed, is refused at once and has no effect.',
  over=RTOVER, quant=RTQUANT,
  tests='The tests check single answers against mocks; ownership of entries over changes of leaders is never exercised.',
  files=[RT + 'driver.rs', 'apps/atomic_counter/service/src/actor.rs'], mech=RTMECH + [('proposals are attributed to replica and request', RT + 'driver.rs EntryId')], observe=['answers to application messages'], note=RTNOTE)
V(id='V03', title='Counters are linearizable under compare and swap',
  statement='A compare and swap on a named counter, answered by any replica of the cluster, changes the counter, together with its payload, if and only if its value is the expected one at its place in the history, and reports the true value before and after. No acknowledged change is ever lost, undone or made twice, over elections, restarts from snapshots and changes of the cluster.',
  over=RTOVER + ['inputs'], quant=RTQUANT + '; all expected and new values, including those of counters that do not exist',
  tests='The tests of the counter apply single events to one actor.',
  files=['apps/atomic_counter/service/src/actor.rs', RT + 'driver.rs'], mech=[('compare and swap', 'apps/atomic_counter/service/src/actor.rs')] + RTMECH, observe=['answers to compare and swap requests'], note=RTNOTE)
V(id='V04', title='A snapshot holds exactly the state at its place in the history',
  statement='A snapshot that is saved holds the state after all commands applied so far and nothing else, and a replica that loads it, possibly after it has been sent in chunks over the network, has exactly this state. What it has known before has no influence.',
  over=RTOVER, quant=RTQUANT,
  tests='The tests of snapshots transfer a fixed snapshot between two processors, without faults; no test restores a replica from one.',
  files=[RT + 'driver.rs', RT + 'storage.rs', RT + 'snapshot.rs', 'apps/atomic_counter/service/src/actor.rs'], mech=RTMECH + [('transfer of snapshots', RT + 'snapshot.rs')], observe=['snapshots saved and loaded by actors, state of the actor after loading'], note=RTNOTE)
V(id='V05', title='Membership changes one replica at a time, and reports tell the truth',
  statement='The cluster goes through one history of configurations, each of which adds or removes one replica as requested of a leader, and every replica follows this history. A request is accepted only by a leader without a change under way, and otherwise rejected without effect. A replica reports itself as leader only if it is, with at most one leader per term, a configuration it has reached and whether a change is pending; who loses leadership reports that, and every request for the state of the cluster is answered.',
  over=RTOVER, quant=RTQUANT,
  tests='The tests compare single reports of mocked states.',
  files=[RT + 'driver.rs', RT + 'consensus.rs'], mech=RTMECH, observe=['cluster change and cluster check responses', 'configurations made effective', 'replica state responses'], note=RTNOTE)
V(id='V06', title='The cluster recovers: once faults cease, commands are executed and all catch up',
  statement='Once the network delivers messages again and a majority of the cluster is up and not removed, a leader emerges, executes commands given to it, and every replica of the cluster catches up with the whole history, whatever faults, damaged messages, interrupted handshakes or interrupted snapshot transfers there have been before.',
  over=RTOVER, quant=RTQUANT + '; then 1200 periods without faults. Demanded if nobody was removed while it was up, and for parameters that allow for progress (heartbeats rarer than every second tick, enough pending chunks)',
  tests='No test continues after a fault.',
  files=[RT + 'driver.rs', RT + 'consensus.rs', RT + 'communication.rs', RT + 'handshake.rs', RT + 'snapshot.rs', RT + 'encryptor.rs'], mech=RTMECH + [('sessions between replicas', RT + 'communication.rs')], observe=['answers to commands and applied entries after the faults'], note=RTNOTE)
V(id='V07', title='A replica does what its life cycle allows, and nothing else',
  statement='A replica does nothing before it is started and after it has been stopped, is started once, and tells its id; it shuts its application down exactly once when it is stopped, and confirms that. A replica in lameduck mode stands for no election. A replica without replication applies commands at once. Nothing that arrives, whatever the network does to it, makes a replica fail or stop.',
  over=RTOVER + ['inputs'], quant=RTQUANT,
  tests='The tests look at single transitions with mocks.',
  files=[RT + 'driver.rs'], mech=RTMECH, observe=['responses to start and stop, errors returned to the host', 'votes asked for'], note=RTNOTE)
V(id='V08', title='A replica and its application are not fooled about time and identity',
  statement='The host, which is not trusted, hands an instant to a replica in every call. The time of a replica is the largest of them: it never goes back. Its application sees exactly this time while it handles a command, and sessions with other replicas are attested at this time. The application is told the id of its replica, the configuration the replica was started with, and whether the replica leads the cluster at that moment.',
  over=RTOVER + ['inputs'], quant=RTQUANT + ' Instants are handed in out of order in a quarter of the runs.',
  tests='The tests hand in constant instants.',
  files=[RT + 'driver.rs'], mech=[('the time and the leadership are kept at the beginning of a call', RT + 'driver.rs preset_state_machine'), ('context of the application', RT + 'driver.rs DriverContext')], observe=['what the context of the application tells, clock of the sessions'], note=RTNOTE)
V(id='C01', title='The host sees nothing that replicas tell each other or hold',
  statement='Everything a replica gives to its host for another replica, consensus messages, entries, snapshots and their acknowledgements, is encrypted and authenticated by an attested session with exactly that replica. Neither envelopes, handshakes nor the log output of a release build contain application data.',
  over=RTOVER + ['inputs'], quant=RTQUANT,
  tests='The tests use mock sessions that do not encrypt.',
  files=[RT + 'communication.rs', RT + 'encryptor.rs', RT + 'driver.rs'], mech=[('encryption of messages between replicas', RT + 'communication.rs'), ('sessions', RT + 'encryptor.rs')], observe=['messages and log entries handed to the host'], note=RTNOTE)

# ---------------------------------------------------------------- tablet store
TS = 'apps/tablet_store/service/src/actor.rs'
TSNOTE = NOTE + ('The module is outside of what the official build compiles here; it is compiled with small stand-ins for the Oak crates and rand. '
                 'The order of the requests is chosen by the driver, as the replicated log would.')
TSMECH = [('two phases: every operation is prepared against the state before the request, then all are committed', TS + ' on_apply_tablets_request'),
          ('tablets of a table by id', TS + ' TableMetadata')]
TSOVER = ['inputs', 'histories', 'configurations']
P(id='S01', title='A tablet store request is one transaction',
  statement='The operations of a request all see the tables as they are before the request and take effect all together if every one of them succeeds, otherwise none does. The response says which of the two it is and has one result for each operation, in order.',
  over=TSOVER, quant='all tables, requests with any number and mix of operations, and histories of requests',
  tests='The tests execute two fixed requests with several operations, each that succeeds or fails as a whole.',
  files=[TS], mech=TSMECH, observe=['responses to requests', 'snapshots'], note=TSNOTE)
P(id='S02', title='Tablet metadata changes by one version at a time, and no update is lost',
  statement='An update of a tablet succeeds only if its version directly follows that of the tablet, and at most one update takes a tablet from a version to the next one, also within a request. A check succeeds only for the version the tablet has. Whoever fails is told the metadata as it is.',
  over=TSOVER, quant='all versions (up to the highest one), all orders of competing updates and checks, in one request or several',
  tests='The tests update two tablets once, and never the same one twice.',
  files=[TS], mech=TSMECH, observe=['results of operations', 'snapshots'], note=TSNOTE)
P(id='S03', title='A list of tablets has the owner of every key of the range, and current metadata',
  statement='Listing a range of keys, which may wrap around the end of the ring, returns every tablet that owns a key of it exactly once with its current metadata, and no other tablet, except for the owner of the exclusive end of the range.',
  over=TSOVER, quant='all sets of tablets and all ranges, including empty tables, the ends of the ring, tablets on the borders of the range and ranges that wrap around',
  tests='The tests list three ranges of one table with two tablets.',
  files=[TS], mech=[('search on the ring', TS + ' find_tablets')], observe=['results of list operations'], note=TSNOTE)
P(id='S04', title='Replicas of the tablet store agree',
  statement='Replicas that have applied the same requests, from the start or on top of a snapshot of another one, hold the same tables and would give the same answers. A snapshot holds everything, and loading it leaves nothing of what was there before. A new table has the configured number of different tablets that were never stored.',
  over=TSOVER + ['schedules'], quant='all histories of requests, and all points at which snapshots are made and loaded',
  tests='One test loads and saves a snapshot without applying anything before or after it.',
  files=[TS], mech=[('snapshots', TS + ' on_save_snapshot, on_load_snapshot')], observe=['snapshots', 'responses of different replicas to the same request'], note=TSNOTE)
P(id='S05', title='The tablet store answers every command once, and survives all of them',
  statement='Only the leader proposes requests, exactly as they arrived; commands that cannot be understood are rejected. A request is answered once, by the replica that proposed it, with the correlation id of the command. Operations that are not supported, refer to unknown tables or tablets, or lack something are answered as failed or invalid and never bring down a replica.',
  over=TSOVER, quant='all commands, malformed ones included, on leaders and followers',
  tests='The tests send well-formed requests to a leader.',
  files=[TS], mech=[('command handling', TS + ' on_process_command')], observe=['outcomes of commands and events'], note=TSNOTE)

# ---------------------------------------------------------------- secure channels
CM = RT + 'communication.rs'
CMNOTE = NOTE + ('The module is outside of what the official build compiles here; it is compiled with stand-ins for the Oak crates. Sessions are small ones with the '
                 'interface and the guarantees of the attested ones (both ends prove themselves, contents are authentic, replays are refused within a window of three); '
                 'the real ones are out of reach without their crates. The host may pass a message off as one of another kind or with another delivery id, '
                 'and connect replicas under wrong ids: sessions do not protect these.')
CMMECH = [('state of a peer: handshake, session and what waits for it', CM + ' CommunicationState'),
          ('both roles in a handshake', RT + 'handshake.rs'), ('sessions', RT + 'encryptor.rs')]
CMOVER = ['inputs', 'schedules', 'histories', 'configurations']
P(id='C02', title='Only what the peer has sealed in the current session is handed out, once',
  statement='A message from another replica is handed to the consensus only if it was sealed, unchanged, by the other end of the session that the replica has completed with the peer it is said to come from, and it is handed out at most once and with the contents that were sealed. Whatever the host repeats, changes, makes up, or relabels is dropped. Every handshake starts with numbers of its own.',
  over=CMOVER, quant='all histories of handshakes, messages and failures between two or three replicas, with a host that repeats, reorders, drops, changes, makes up and relabels messages',
  tests='The existing tests use mock sessions and encryptors and fixed sequences of messages.',
  files=[CM, RT + 'handshake.rs', RT + 'encryptor.rs'], mech=CMMECH, observe=['messages handed out by the communication module'], note=CMNOTE)
P(id='C03', title='Handshakes recover from whatever went wrong',
  statement='A handshake that fails or is not answered within the configured time is given up and tried again after the configured time. When the host delivers what the replicas send each other, they have a common session after a bounded number of rounds, whatever has happened before: lost, repeated or made up messages, a peer that has forgotten the session, or handshakes started by both at the same time. Whatever the host passes in, the module carries on.',
  over=CMOVER, quant='all states that two or three replicas can get into with a host that misbehaves in any way, and all timeouts',
  tests='The existing tests cover single failures against mocks of the peer.',
  files=[CM, RT + 'handshake.rs'], mech=CMMECH, observe=['handshake messages', 'messages that get through after the host behaves again'], note=CMNOTE)
P(id='C04', title='Messages wait for the session and leave in order, each once',
  statement='Messages for a peer that there is no session with wait for one, through failed handshakes, and leave in the order they came, each once, sealed for exactly that peer, in the kind of envelope and with the delivery id they came with. Only a heartbeat that is still waiting may be replaced, by a later one. What arrives intact in the current session is handed out.',
  over=CMOVER, quant='all interleavings of messages to send with the steps and failures of handshakes',
  tests='The existing tests queue one to three messages once.',
  files=[CM], mech=CMMECH, observe=['messages emitted by the communication module'], note=CMNOTE)
P(id='C05', title='A replica that has left the cluster is forgotten, and only it',
  statement='When the cluster changes, sessions with replicas that are no longer members end and what was waiting for them is dropped; a replica that has been removed itself forgets everyone. Sessions and waiting messages of the remaining members are not touched.',
  over=CMOVER, quant='all changes of the members at any point of handshakes and conversations',
  tests='The existing tests change the cluster once, without sessions that continue afterwards.',
  files=[CM], mech=[('forgetting of peers', CM + ' process_cluster_change')], observe=['messages emitted and handed out after a change'], note=CMNOTE)
P(id='C06', title='Replicas that are not what the application trusts are kept out',
  statement='A replica proves what it runs with the endorsements it has been started with, and compares what its peers prove with the reference values of its application. With a replica that does not satisfy them there is never a session: nothing is sealed for it, nothing it says is handed out and its handshake is not continued, whoever starts it, whatever the host relays or repeats, and however often it tries. Trusted replicas talk to each other all the same.',
  over=CMOVER, quant='all interleavings of handshakes and messages of trusted and of other replicas, over a network that repeats, drops, changes and relabels',
  tests='The existing tests use mock sessions that always accept the peer.',
  files=[CM, RT + 'handshake.rs'], mech=CMMECH, observe=['messages emitted for replicas that are not trusted', 'messages handed out'], note=CMNOTE)

# ---------------------------------------------------------------- the whole system
TCA = 'apps/tablet_cache/service/src/actor.rs'
SYSNOTE = KVNOTE + ' The host in the runs never restarts a replica; blobs are kept by the host, hashes protect them.'
SYSMECH = [('requests, messages and answers of a tablet cache replica', TCA), ('replicas without a log', RT + 'driver.rs is_ephemeral'),
           ('transactions on the tablet store', 'apps/tablet_store/service/src/actor.rs'), ('key value store', KV)]
SYSFILES = [TCA, RT + 'driver.rs', 'apps/tablet_store/service/src/actor.rs', KV]
P(id='A01', title='All tablet cache replicas together are one key value store',
  statement='Clients of any number of tablet cache replicas, that run in the driver of the runtime and share a replicated tablet store, are told what they would be told by a single key value store that executes their requests one at a time: every get returns the value of the latest put that took effect before, both tell truthfully whether the key existed, an acknowledged put is never lost or undone, and nothing is acknowledged before the tablet store has confirmed it. This holds whatever the host delays, drops or damages, and if replicas are lost at any point; of the requests of a lost replica each takes effect or does not, as a whole.',
  over=RTOVER, quant='all interleavings of requests to several replicas with messages that are delayed, lost or damaged, with conflicts and with the loss of replicas',
  tests='No test runs the tablet cache actor, or the tablet cache together with the tablet store.',
  files=SYSFILES, mech=SYSMECH, observe=['messages of the replicas to clients', 'requests that the tablet store applies, and stored tablets'], note=SYSNOTE)
P(id='A02', title='Each request to a tablet cache replica gets one answer, from that replica',
  statement='A tablet cache replica answers every get and put request it is given exactly once, with an answer of its kind under its correlation id, once enough requests have come in to fill the batches and failures have stopped; the loss of other replicas, conflicts and failures before only delay it. A replica never answers what it was not asked.',
  over=RTOVER, quant='all interleavings of requests, ticks, answers and failures, on one to three replicas of which some are lost',
  tests='No test runs the tablet cache actor.',
  files=SYSFILES, mech=SYSMECH, observe=['messages of the replicas to clients'], note=SYSNOTE)
P(id='A03', title='Messages that make no sense do not stop a tablet cache replica',
  statement='A tablet cache replica survives whatever message it is delivered: headers that cannot be decoded or say nothing, contents that cannot be decoded or are incomplete, answers to things it has not asked for or that were answered before. Such an answer counts at most as a failure of what it claims to answer.',
  over=['inputs', 'fault_sequences', 'histories'], quant='all malformed, made up and repeated messages at any point of a run',
  tests='No test runs the tablet cache actor.',
  files=[TCA], mech=[('decoding of messages', TCA + ' on_process_command')], observe=['whether the replica goes on'], note=SYSNOTE)

# ---------------------------------------------------------------- log store
LS = 'runtime/src/storage.rs'
LSMECH = [('entries, hard state and snapshot of a replica', LS + ' MemoryStorageCore'), ('when to take a snapshot', LS + ' should_snapshot')]
LSNOTE = NOTE + 'The driver keeps to the contract of the storage: it leaves no gaps, reads nothing beyond the end and overwrites nothing that is compacted. Sizes of entries are those that the encoding gives.'
LSOVER = ['inputs', 'histories']
P(id='R01', title='A replica reads back exactly the log that it last wrote',
  statement='Whatever a replica has appended, overwritten, compacted and restored, its storage answers for every index with the entry and the term that were written there last, with no gaps; entries that have been superseded, by other entries or by a snapshot, never show up again, and nothing that the latest snapshot does not cover is ever missing. A read that is limited in size returns the longest prefix that fits, and at least one entry. What is compacted or not there yet is reported as such. A snapshot that is taken drops the entries before it, so that the log does not grow with the history. The hard state is the one stored last, except that restoring a snapshot raises the commit index to it and the term to at least its term.',
  over=LSOVER, quant='all sequences of hard states, appended and overwriting entries, created and restored snapshots and reads that Raft is allowed to make',
  tests='The existing tests check single calls on fixed logs.',
  files=[LS], mech=LSMECH, observe=['results of entries, term, first_index, last_index and initial_state'], note=LSNOTE)
P(id='R02', title='Snapshots are taken when needed and reach the peers that wait for them',
  statement='The storage hands out exactly the latest snapshot, with its index, term, members and data, created or restored. A snapshot that is older than the log is refused and changes nothing. A peer gets the snapshot if it covers the index the peer needs and has the peer among its members (voting, learning or leaving); otherwise the need is remembered until a snapshot satisfies it, and no need of another peer is forgotten over it. A new snapshot is called for exactly when the applied index is further ahead of the latest one than configured, or when one would satisfy a peer that waits.',
  over=LSOVER, quant='all sequences of created and restored snapshots, requests of peers, and configured distances',
  tests='The existing tests have one peer and one request.',
  files=[LS], mech=LSMECH, observe=['results of snapshot, should_snapshot, create_snapshot and apply_snapshot'], note=LSNOTE)

# ---------------------------------------------------------------- snapshot transfer
SX = 'runtime/src/snapshot.rs'
SXMECH = [('sending of chunks', SX + ' DefaultSnapshotSender'), ('reassembly of chunks', SX + ' DefaultSnapshotReceiver'),
          ('roles', SX + ' DefaultSnapshotProcessor')]
SXNOTE = NOTE + 'Snapshots have up to 41 bytes, chunks 1 to 8. There is no timeout: a transfer whose answer gets lost without the host saying so waits for a change of the cluster.'
SXOVER = ['inputs', 'schedules', 'fault_sequences', 'configurations']
P(id='P01', title='A snapshot arrives complete and unmixed, or not at all',
  statement='What a receiver hands to Raft is a snapshot that its sender has sent it, byte for byte, with its metadata: whatever order chunks arrive in, whatever is lost, however many transfers of however many leaders overlap. Chunks are taken only from the transfer whose header came last, in range and of the right size; everything else is refused and changes nothing. A receiver hands out a snapshot as soon as it has all chunks, and once. A sender cuts a snapshot into chunks of the configured size, in order, each of them once.',
  over=SXOVER, quant='all snapshots and chunk sizes, all orders and losses of requests and responses, all changes of leaders, terms and members during transfers',
  tests='The existing tests transfer a few fixed snapshots in order.',
  files=[SX], mech=SXMECH, observe=['requests, responses and completed snapshots of the snapshot processors'], note=SXNOTE)
P(id='P02', title='Every snapshot transfer ends, with an outcome that is true',
  statement='A transfer is reported to Raft as finished only after the receiver has accepted every chunk, and as failed exactly when a chunk was refused, could not be delivered or was answered for something that was not sent, or when the transfer was given up; each transfer is reported once, unless a newer one to the same replica has replaced it. Answers and failures that belong to another transfer have no effect. There are never more chunks under way than configured, and while there are fewer, the next one that is left to send is sent, so that one transfer does not hold up the others. A replica sends exactly while it leads; when the leader or its term changes, or when it leaves the cluster, it gives up what it was sending or receiving, and transfers to replicas that have left are given up as well.',
  over=SXOVER, quant='all interleavings of transfers to several replicas with answers, failures, changes of the leader, of the term and of the members',
  tests='The existing tests have at most two transfers, without changes of the cluster in between.',
  files=[SX], mech=SXMECH, observe=['requests and completion reports of the snapshot sender'], note=SXNOTE)
