-------------------------- MODULE TabletTransactions --------------------------
(* Transactions over tablets: several nodes (each with its own caches and its  *)
(* own transaction manager) read and write tablets whose metadata is kept in   *)
(* one tablet store and whose contents are kept as blobs in one data storage.  *)
(* Contents are numbers; every write of the runs creates new contents. A       *)
(* tablet is identified by <<table, id>>.                                      *)
EXTENDS Ring

VARIABLES
    ids,      \* table -> its tablets
    ver,      \* tablet -> current version in the tablet store
    hist,     \* tablet -> version -> contents
    blob,     \* uri -> contents the blob was (or is being) stored with
    durable,  \* uris of blobs known to be in the storage
    tx,       \* <<node, transaction>> -> its state
    order,    \* node -> transactions that asked to commit and sent no ops yet
    req,      \* <<node, correlation id>> -> commit request at the tablet store
    bad,      \* node -> did the storage fail since the last step of the node
    told      \* node -> tablet -> version that the node has been told about

tvs == <<ids, ver, hist, blob, durable, tx, order, req, bad, told>>

PutT(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Tablets == {<<t, i>> : t \in DOMAIN ids, i \in UNION {ids[t] : t \in DOMAIN ids}}
Exists(t, i) == t \in DOMAIN ids /\ i \in ids[t]

TxnInit(config, nodes) ==
    \* config: table -> tablet -> [v, u, c]
    /\ ids = [t \in DOMAIN config |-> DOMAIN config[t]]
    /\ LET all == UNION {{<<t, i>> : i \in DOMAIN config[t]} : t \in DOMAIN config}
       IN  /\ ver = [k \in all |-> config[k[1]][k[2]].v]
           /\ hist = [k \in all |-> [v \in {config[k[1]][k[2]].v} |-> config[k[1]][k[2]].c]]
           /\ blob = [u \in {config[k[1]][k[2]].u : k \in all} \ {0} |->
                        LET k == CHOOSE k \in all : config[k[1]][k[2]].u = u IN config[k[1]][k[2]].c]
           /\ durable = {config[k[1]][k[2]].u : k \in all} \ {0}
    /\ tx = <<>>
    /\ order = [n \in nodes |-> <<>>]
    /\ req = <<>>
    /\ bad = [n \in nodes |-> FALSE]
    /\ told = [n \in nodes |-> <<>>]

Committed(k) == {hist[k][v] : v \in DOMAIN hist[k]}
VersionsOf(k, c) == {v \in DOMAIN hist[k] : hist[k][v] = c}

(* ---- start                                                                  *)
Start_Eff(n, x) ==
    /\ tx' = PutT(tx, <<n, x>>, [st |-> "open", procs |-> <<>>, seen |-> <<>>, own |-> <<>>,
                                 excuse |-> FALSE, applied |-> FALSE, amb |-> FALSE])
    /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, bad, told>>

(* ---- proc: q is a sequence of [q, t, k: set of keys]                        *)
Need(q) == [t \in DOMAIN ids |-> UNION {q[m].k : m \in {m \in DOMAIN q : q[m].t = t}}]
Qids(q) == [t \in DOMAIN ids |-> {q[m].q : m \in {m \in DOMAIN q : q[m].t = t}}]

Process_Eff(n, x, p, q) ==
    /\ tx' = [tx EXCEPT ![<<n, x>>].procs = PutT(@, p, [need |-> Need(q), qids |-> Qids(q), done |-> FALSE, base |-> told[n]]),
                        ![<<n, x>>].excuse = @ \/ bad[n]]
    /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, bad, told>>

(* ---- hdl: the handler of a process request is given tablets. s is a         *)
(* sequence of [q, t, k: sequence of keys, id, c], w of [t, id, c]             *)
Handler_Viol(n, x, p, s) ==
    LET r == tx[<<n, x>>]
        pr == r.procs[p]
        keysOf(m) == Range(s[m].k)
        kk(m) == <<s[m].t, s[m].id>>
    IN  IF r.st # "open" THEN {"T05"} ELSE
        IF pr.done THEN {"T07"} ELSE
        IF \E m \in DOMAIN s : ~Exists(s[m].t, s[m].id) THEN {"T07", "T04"} ELSE
        (IF \/ \E m \in DOMAIN s : \E k \in keysOf(m) :
                  k \notin pr.need[s[m].t] \/ s[m].id # Owner(ids[s[m].t], k)
            \/ \E m \in DOMAIN s : s[m].q \notin pr.qids[s[m].t]
            \/ \E m \in DOMAIN s : Cardinality(keysOf(m)) # Len(s[m].k)
            \/ \E m, o \in DOMAIN s : m # o /\ kk(m) = kk(o)
            \/ \E t \in DOMAIN ids : \E k \in pr.need[t] :
                  ~\E m \in DOMAIN s : s[m].t = t /\ k \in keysOf(m)
         THEN {"T07"} ELSE {})
        \cup
        (IF \E m \in DOMAIN s :
                IF kk(m) \in DOMAIN r.own THEN s[m].c # r.own[kk(m)]
                ELSE kk(m) \in DOMAIN r.seen /\ s[m].c # r.seen[kk(m)]
         THEN {"T04"} ELSE {})
        \cup
        (IF \E m \in DOMAIN s :
                /\ kk(m) \notin DOMAIN r.own
                /\ s[m].c \notin Committed(kk(m))
         THEN {"T05", "T04"} ELSE {})
        \cup
        \* Whoever asks after the node has learned about a version is not given an older one.
        (IF \E m \in DOMAIN s :
                /\ kk(m) \notin DOMAIN r.own \cup DOMAIN r.seen
                /\ kk(m) \in DOMAIN pr.base
                /\ s[m].c \in Committed(kk(m))
                /\ \A v \in VersionsOf(kk(m), s[m].c) : v < pr.base[kk(m)]
         THEN {"T04"} ELSE {})

Handler_Eff(n, x, p, s, w) ==
    LET r == tx[<<n, x>>]
        now == {<<s[m].t, s[m].id>> : m \in DOMAIN s}
        wrote == {<<w[m].t, w[m].id>> : m \in DOMAIN w}
        seen2 == [k \in DOMAIN r.seen \cup now |->
                    IF k \in DOMAIN r.seen THEN r.seen[k]
                    ELSE s[CHOOSE m \in DOMAIN s : <<s[m].t, s[m].id>> = k].c]
        own2 == [k \in DOMAIN r.own \cup wrote |->
                    IF k \in wrote THEN w[CHOOSE m \in DOMAIN w : <<w[m].t, w[m].id>> = k].c
                    ELSE r.own[k]]
    IN  /\ tx' = [tx EXCEPT ![<<n, x>>] = [r EXCEPT !.seen = seen2, !.own = own2, !.procs[p].done = TRUE]]
        /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, bad, told>>

(* ---- sreq, sresp: a blob is written                                         *)
StoreBlob_Viol(u, c) ==
    \* Blobs are immutable, whoever writes them.
    IF u = 0 \/ (u \in DOMAIN blob /\ blob[u] # c) THEN {"T03"} ELSE {}
StoreBlob_Eff(u, c) ==
    /\ blob' = PutT(blob, u, c)
    /\ UNCHANGED <<ids, ver, hist, durable, tx, order, req, bad, told>>

Active(r) == r.st \in {"open", "committing"}
Excuse(n) == [y \in DOMAIN tx |-> IF y[1] = n /\ Active(tx[y]) THEN [tx[y] EXCEPT !.excuse = TRUE] ELSE tx[y]]

StoredBlob_Eff(n, u, ok) ==
    /\ durable' = IF ok THEN durable \cup {u} ELSE durable
    /\ tx' = IF ok THEN tx ELSE Excuse(n)
    /\ bad' = [bad EXCEPT ![n] = @ \/ ~ok]
    /\ UNCHANGED <<ids, ver, hist, blob, order, req, told>>

(* ---- lbad: the storage fails a load or answers with other contents          *)
BadLoad_Eff(n) ==
    /\ tx' = Excuse(n)
    /\ bad' = [bad EXCEPT ![n] = TRUE]
    /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, told>>

(* ---- tick: the node makes progress                                          *)
Tick_Eff(n) ==
    /\ bad' = [bad EXCEPT ![n] = FALSE]
    /\ UNCHANGED <<ids, ver, hist, blob, durable, tx, order, req, told>>

(* ---- commit, abort                                                          *)
Commit_Eff(n, x) ==
    /\ tx' = [tx EXCEPT ![<<n, x>>].st = "committing"]
    /\ order' = [order EXCEPT ![n] = Append(@, x)]
    /\ UNCHANGED <<ids, ver, hist, blob, durable, req, bad, told>>

Abort_Eff(n, x) ==
    /\ tx' = [tx EXCEPT ![<<n, x>>].st = "aborted"]
    /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, bad, told>>

(* ---- ops: a commit request leaves for the tablet store; a sequence of       *)
(* [k: "check" | "update", t, id, v, u, h]                                     *)
OpKey(op) == <<op.t, op.id>>

Covers(n, x, ops) ==
    LET r == tx[<<n, x>>] IN
    /\ {OpKey(ops[m]) : m \in DOMAIN ops} = DOMAIN r.seen
    /\ Len(ops) = Cardinality(DOMAIN r.seen)
    /\ \A m \in DOMAIN ops :
         LET k == OpKey(ops[m]) IN
         IF k \in DOMAIN r.own
         THEN /\ ops[m].k = "update"
              /\ ops[m].h = r.own[k]
              /\ (ops[m].v - 1) \in VersionsOf(k, r.seen[k])
         ELSE /\ ops[m].k = "check"
              /\ ops[m].v \in VersionsOf(k, r.seen[k])
    /\ \A p \in DOMAIN r.procs : r.procs[p].done

Senders(n, ops) == {x \in Range(order[n]) : Covers(n, x, ops)}

Ops_Viol(n, ops) ==
    (IF Senders(n, ops) = {} THEN {"T01"} ELSE {})
    \cup
    \* Nothing but committing transactions may have an effect.
    (IF \/ order[n] = <<>>
        \/ /\ Senders(n, ops) = {}
           /\ \E y \in DOMAIN tx : y[1] = n /\ tx[y].st # "committing" /\ Covers(n, y[2], ops)
        \/ /\ Senders(n, ops) = {}
           /\ \E m \in DOMAIN ops : ops[m].k = "update" /\
                ~\E x \in Range(order[n]) : OpKey(ops[m]) \in DOMAIN tx[<<n, x>>].own
     THEN {"T05"} ELSE {})
    \cup
    (IF \E m \in DOMAIN ops : ops[m].k = "update" /\
            \/ ops[m].u \notin durable
            \/ ops[m].u \notin DOMAIN blob
            \/ (ops[m].u \in DOMAIN blob /\ blob[ops[m].u] # ops[m].h)
     THEN {"T03"} ELSE {})

Ops_Eff(n, c, ops) ==
    LET pos == IF Senders(n, ops) = {} THEN 1 ELSE
               CHOOSE i \in DOMAIN order[n] :
                  /\ order[n][i] \in Senders(n, ops)
                  /\ \A j \in 1..(i - 1) : order[n][j] \notin Senders(n, ops)
        x == order[n][pos]
    IN  /\ order' = [order EXCEPT ![n] = SubSeq(@, 1, pos - 1) \o SubSeq(@, pos + 1, Len(@))]
        /\ tx' = [tx EXCEPT ![<<n, x>>].st = "sent"]
        /\ req' = PutT(req, <<n, c>>, [x |-> x, ops |-> ops, tells |-> <<>>])
        /\ UNCHANGED <<ids, ver, hist, blob, durable, bad, told>>

(* ---- exec: the tablet store executes a commit request as one transaction    *)
OpSucceeds(op) ==
    /\ op.k \in {"check", "update"}
    /\ Exists(op.t, op.id)
    /\ ver[OpKey(op)] = IF op.k = "check" THEN op.v ELSE op.v - 1

Succeeds(ops) == \A m \in DOMAIN ops : OpSucceeds(ops[m])

Exec_Viol(n, c) ==
    LET ops == req[<<n, c>>].ops
        r == tx[<<n, req[<<n, c>>].x>>]
    IN  \* What the transaction has read must be what it is applied to.
        IF Succeeds(ops) /\ \E k \in DOMAIN r.seen : hist[k][ver[k]] # r.seen[k]
        THEN {"T04"} ELSE {}

Exec_Eff(n, c) ==
    LET ops == req[<<n, c>>].ops
        y == <<n, req[<<n, c>>].x>>
        \* The versions that the answer tells: those it installs, or those that others have.
        news == {m \in DOMAIN ops : IF Succeeds(ops) THEN ops[m].k = "update"
                                    ELSE ~OpSucceeds(ops[m]) /\ OpKey(ops[m]) \in DOMAIN ver}
        tells == [k \in {OpKey(ops[m]) : m \in news} |->
                    IF Succeeds(ops) THEN ops[CHOOSE m \in news : OpKey(ops[m]) = k].v ELSE ver[k]]
        up == {m \in DOMAIN ops : ops[m].k = "update"}
        upd(k) == ops[CHOOSE m \in up : OpKey(ops[m]) = k]
        ks == {OpKey(ops[m]) : m \in up}
    IN  IF Succeeds(ops)
        THEN /\ ver' = [k \in DOMAIN ver |-> IF k \in ks THEN upd(k).v ELSE ver[k]]
             /\ hist' = [k \in DOMAIN hist |-> IF k \in ks THEN PutT(hist[k], upd(k).v, upd(k).h) ELSE hist[k]]
             /\ tx' = [tx EXCEPT ![y].applied = TRUE]
             /\ req' = [req EXCEPT ![<<n, c>>].tells = tells]
             /\ UNCHANGED <<ids, blob, durable, order, bad, told>>
        ELSE /\ tx' = [tx EXCEPT ![y].excuse = TRUE]
             /\ req' = [req EXCEPT ![<<n, c>>].tells = tells]
             /\ UNCHANGED <<ids, ver, hist, blob, durable, order, bad, told>>

(* ---- dlv: the node gets the answer; sure: a complete one, not an error      *)
Newer(f, g) == [k \in DOMAIN f \cup DOMAIN g |->
    IF k \notin DOMAIN f THEN g[k] ELSE IF k \notin DOMAIN g THEN f[k] ELSE IF f[k] > g[k] THEN f[k] ELSE g[k]]
Deliver_Eff(n, c, sure) ==
    LET y == <<n, req[<<n, c>>].x>> IN
    /\ tx' = [tx EXCEPT ![y] = [tx[y] EXCEPT !.st = IF tx[y].st = "sent" THEN "answered" ELSE tx[y].st,
                                             !.amb = ~sure, !.excuse = @ \/ ~sure]]
    /\ told' = IF sure THEN [told EXCEPT ![n] = Newer(@, req[<<n, c>>].tells)] ELSE told
    /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, bad>>

(* ---- out: the outcome of a transaction is reported                          *)
Outcome_Viol(n, x, ok, again) ==
    LET r == tx[<<n, x>>] IN
    IF ~again THEN {"T02"} ELSE
    IF ok
    THEN IF \/ r.st = "answered" /\ r.applied /\ ~r.amb
            \/ r.st = "committing" /\ r.seen = <<>> /\ (\A p \in DOMAIN r.procs : r.procs[p].done)
         THEN {} ELSE {"T02"}
    ELSE IF \/ r.st = "answered" /\ (~r.applied \/ r.amb)
            \/ r.st = "committing" /\ r.excuse
         THEN {} ELSE {"T02"}

Outcome_Eff(n, x) ==
    /\ tx' = [tx EXCEPT ![<<n, x>>].st = "done"]
    /\ order' = [order EXCEPT ![n] = SelectSeq(@, LAMBDA y : y # x)]
    /\ UNCHANGED <<ids, ver, hist, blob, durable, req, bad, told>>

(* ---- end: every failure is over and everybody had the time to finish        *)
End_Viol ==
    IF \E y \in DOMAIN tx : tx[y].st \notin {"done", "aborted"} THEN {"T06"} ELSE {}

(* ---- settled: without failures and concurrent transactions, transactions    *)
(* succeed (ok) at the latest after learning about a conflict                  *)
Settled_Viol(ok) == IF ok THEN {} ELSE {"T06"}

(* ---- invariants of the design                                               *)
CurrentIsDurable ==
    \A k \in DOMAIN ver : hist[k][ver[k]] # 0 =>
        \E u \in durable : u \in DOMAIN blob /\ blob[u] = hist[k][ver[k]]
VersionsAreDense == \A k \in DOMAIN ver : \A v \in DOMAIN hist[k] :
    v = ver[k] \/ (v + 1) \in DOMAIN hist[k]
=============================================================================
