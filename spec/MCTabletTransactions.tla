------------------------- MODULE MCTabletTransactions -------------------------
(* The design of transactions over tablets: nodes read whatever version of the *)
(* metadata they know, write new blobs, and let the tablet store decide.       *)
(* Checked: no property of TabletTransactions is ever broken by the design,    *)
(* whatever is interleaved, fails, or is lost.                                 *)
EXTENDS TabletTransactions, TLC, Json, Randomization, SequencesExt

CONSTANTS Nodes, Ids, MaxTx, MaxProcs, MaxFails, SimDepth

VARIABLES
    knows,   \* node -> tablet -> version of it that the node has cached
    mine,    \* <<node, tx>> -> tablet -> version that it continues from
    stuck,   \* <<node, tx>> whose processing failed
    cnt, viol, log
mvs == <<knows, mine, stuck, cnt, viol, log>>
allvars == <<tvs, mvs>>

T == "A"
Keys == {<<T, i>> : i \in Ids}
Pick(S) == IF SimDepth = 0 \/ Cardinality(S) <= 3 THEN S ELSE RandomSubset(3, S)

MCInit ==
    /\ TxnInit((T :> [i \in Ids |-> [v |-> 0, u |-> IF i = 1 THEN 0 ELSE i, c |-> IF i = 1 THEN 0 ELSE 100 + i]]), Nodes)
    /\ knows = [n \in Nodes |-> [k \in Keys |-> 0]]
    /\ mine = <<>>
    /\ stuck = {}
    /\ cnt = [x |-> [n \in Nodes |-> 0], c |-> 0, fail |-> 0]
    /\ viol = {}
    /\ log = <<>>

Procs(y) == DOMAIN tx[y].procs
AllDone(y) == \A p \in Procs(y) : tx[y].procs[p].done
Content(n, x, p, i) == 10000 * n + 1000 * x + 100 * p + i
Uri(n, x, p, i) == Content(n, x, p, i)

Open(n) == {x \in 1..cnt.x[n] : tx[<<n, x>>].st = "open"}
NthOpen(n, x) == Cardinality({z \in Open(n) : z < x})

Same == UNCHANGED <<knows, mine, stuck>>

(* A handler runs: one or no blob write fails.                                 *)
Handle(n, x, p, W, fail) ==
    LET y == <<n, x>>
        need == tx[y].procs[p].need[T]
        ks == {<<T, i>> : i \in need}
        base(k) == IF k \in DOMAIN mine[y] THEN mine[y][k] ELSE knows[n][k]
        con(k) == IF k \in DOMAIN tx[y].own THEN tx[y].own[k] ELSE hist[k][base(k)]
        seq == SetToSeq(need)
        s == [m \in DOMAIN seq |-> [q |-> 1, t |-> T, k |-> <<seq[m]>>, id |-> seq[m], c |-> con(<<T, seq[m]>>)]]
        ws == SetToSeq(W)
        w == [m \in DOMAIN ws |-> [t |-> T, id |-> ws[m], c |-> Content(n, x, p, ws[m])]]
        us == {Uri(n, x, p, i) : i \in W}
    IN  /\ viol' = viol \cup Handler_Viol(n, x, p, s)
                        \cup UNION {StoreBlob_Viol(Uri(n, x, p, i), Content(n, x, p, i)) : i \in W}
        \* The handler, the writes of its blobs and the answers to them in one step.
        /\ LET r == tx[y]
               seen2 == [k \in DOMAIN r.seen \cup ks |-> IF k \in DOMAIN r.seen THEN r.seen[k] ELSE con(k)]
               own2 == [k \in DOMAIN r.own \cup {<<T, i>> : i \in W} |->
                           IF k[2] \in W THEN Content(n, x, p, k[2]) ELSE r.own[k]]
               t2 == [tx EXCEPT ![y] = [r EXCEPT !.seen = seen2, !.own = own2, !.procs[p].done = TRUE,
                                                 !.excuse = @ \/ fail]]
           IN  tx' = t2
        /\ blob' = [u \in DOMAIN blob \cup us |->
                       IF u \in us THEN Content(n, x, p, CHOOSE i \in W : Uri(n, x, p, i) = u) ELSE blob[u]]
        /\ durable' = IF fail THEN durable ELSE durable \cup us
        /\ stuck' = IF fail THEN stuck \cup {y} ELSE stuck
        /\ mine' = [mine EXCEPT ![y] = [k \in DOMAIN @ \cup ks |-> base(k)]]
        /\ UNCHANGED <<ids, ver, hist, order, req, bad, told, knows>>

OpOf(n, x, k) ==
    LET y == <<n, x>>
        p == CHOOSE p \in Procs(y) : tx[y].own[k] = Content(n, x, p, k[2])
    IN  IF k \in DOMAIN tx[y].own
        THEN [k |-> "update", t |-> k[1], id |-> k[2], v |-> mine[y][k] + 1, u |-> Uri(n, x, p, k[2]), h |-> tx[y].own[k]]
        ELSE [k |-> "check", t |-> k[1], id |-> k[2], v |-> mine[y][k], u |-> 0, h |-> 0]
OpsOf(n, x) == LET s == SetToSeq(DOMAIN tx[<<n, x>>].seen) IN [m \in DOMAIN s |-> OpOf(n, x, s[m])]

NextWith(Log(_)) ==
    \* a transaction starts
    \/ \E n \in Nodes :
         /\ cnt.x[n] < MaxTx
         /\ Start_Eff(n, cnt.x[n] + 1)
         /\ mine' = PutT(mine, <<n, cnt.x[n] + 1>>, <<>>)
         /\ cnt' = [cnt EXCEPT !.x[n] = @ + 1]
         /\ UNCHANGED <<knows, stuck, viol>>
         /\ Log([e |-> "start", n |-> n])
    \* it processes tablets and writes some of them
    \/ \E n \in Nodes : \E x \in Open(n) :
         LET y == <<n, x>> IN
         /\ Cardinality(Procs(y)) < MaxProcs /\ AllDone(y)
         /\ \E S \in Pick(SUBSET Ids) : S # {}
              /\ Process_Eff(n, x, Cardinality(Procs(y)) + 1, <<[q |-> 1, t |-> T, k |-> S]>>)
              /\ Same /\ UNCHANGED <<cnt, viol>>
              /\ Log([e |-> "proc", n |-> n, i |-> NthOpen(n, x), k |-> SetToSeq(S),
                      w |-> IF SimDepth = 0 THEN <<>> ELSE SetToSeq(CHOOSE W \in RandomSubset(1, SUBSET S) : TRUE)])
    \/ \E n \in Nodes : \E x \in Open(n) : \E p \in Procs(<<n, x>>) :
         /\ ~tx[<<n, x>>].procs[p].done
         /\ \E W \in Pick(SUBSET tx[<<n, x>>].procs[p].need[T]) : \E fail \in BOOLEAN :
              /\ fail => W # {} /\ cnt.fail < MaxFails
              /\ Handle(n, x, p, W, fail)
              /\ cnt' = [cnt EXCEPT !.fail = IF fail THEN @ + 1 ELSE @]
         /\ Log([e |-> "calm", n |-> n, i |-> 6])
    \* it asks to commit; either it has failed already or its ops leave
    \/ \E n \in Nodes : \E x \in Open(n) :
         LET y == <<n, x>> IN
         /\ AllDone(y)
         /\ tx' = [tx EXCEPT ![y].st = "committing"]
         /\ order' = [order EXCEPT ![n] = Append(@, x)]
         /\ UNCHANGED <<ids, ver, hist, blob, durable, req, bad, told, cnt, viol>> /\ Same
         /\ Log([e |-> "commit", n |-> n, i |-> NthOpen(n, x)])
    \/ \E n \in Nodes : \E x \in Open(n) :
         /\ Abort_Eff(n, x) /\ Same /\ UNCHANGED <<cnt, viol>>
         /\ Log([e |-> "abort", n |-> n, i |-> NthOpen(n, x)])
    \/ \E n \in Nodes : \E x \in Range(order[n]) :
         LET y == <<n, x>> IN
         \/ /\ y \notin stuck /\ tx[y].seen # <<>>
            /\ viol' = viol \cup Ops_Viol(n, OpsOf(n, x))
            /\ Ops_Viol(n, OpsOf(n, x)) = {} => Ops_Eff(n, cnt.c + 1, OpsOf(n, x))
            /\ Ops_Viol(n, OpsOf(n, x)) # {} => UNCHANGED tvs
            /\ cnt' = [cnt EXCEPT !.c = @ + 1]
            /\ Same /\ log' = log
         \/ /\ y \in stuck \/ tx[y].seen = <<>>
            /\ viol' = viol \cup Outcome_Viol(n, x, y \notin stuck, TRUE)
            /\ Outcome_Eff(n, x) /\ Same /\ cnt' = cnt /\ log' = log
    \* the tablet store
    \/ \E z \in DOMAIN req :
         /\ ~tx[<<z[1], req[z].x>>].applied /\ tx[<<z[1], req[z].x>>].st = "sent"
         /\ viol' = viol \cup Exec_Viol(z[1], z[2])
         /\ Exec_Eff(z[1], z[2])
         /\ cnt' = cnt /\ Same
         /\ Log([e |-> "exec", n |-> z[1], i |-> 0])
    \* its answer, or an error instead (before or after the execution)
    \/ \E z \in DOMAIN req : \E sure \in BOOLEAN :
         LET n == z[1]
             x == req[z].x
             y == <<n, x>>
             r == tx[y]
             r2 == [r EXCEPT !.st = "answered", !.amb = ~sure, !.excuse = @ \/ ~sure]
         IN
         /\ r.st = "sent"
         /\ sure => (r.applied \/ ~Succeeds(req[z].ops))
         /\ ~sure => cnt.fail < MaxFails
         /\ cnt' = [cnt EXCEPT !.fail = IF sure THEN @ ELSE @ + 1]
         /\ tx' = [tx EXCEPT ![y] = r2]
         \* What the node learns: its own updates, or what the store has instead.
         /\ knows' = IF ~sure THEN knows
                     ELSE IF r.applied THEN [knows EXCEPT ![n] = [k \in Keys |->
                             IF k \in DOMAIN r.own THEN IF mine[y][k] + 1 > @[k] THEN mine[y][k] + 1 ELSE @[k]
                             ELSE @[k]]]
                     ELSE [knows EXCEPT ![n] = [k \in Keys |-> IF k \in DOMAIN r.seen THEN ver[k] ELSE @[k]]]
         /\ told' = IF sure THEN [told EXCEPT ![n] = Newer(@, req[z].tells)] ELSE told
         /\ UNCHANGED <<ids, ver, hist, blob, durable, order, req, bad, mine, stuck, viol>>
         /\ Log([e |-> "answer", n |-> n, i |-> 0, kind |-> "ops", how |-> IF sure THEN "ok" ELSE "fail"])
    \/ \E y \in DOMAIN tx :
         /\ tx[y].st = "answered"
         /\ LET ok == tx[y].applied /\ ~tx[y].amb IN
            /\ viol' = viol \cup Outcome_Viol(y[1], y[2], ok, TRUE)
            /\ Outcome_Eff(y[1], y[2])
         /\ Same /\ cnt' = cnt /\ log' = log

NoLog(o) == log' = log
DoLog(o) == log' = Append(log, o)
MCNext == NextWith(NoLog)
SimNext == NextWith(DoLog)

(* Everybody but those who decide what transactions do.                        *)
Serve ==
    \/ \E n \in Nodes : \E x \in Open(n) : \E p \in Procs(<<n, x>>) :
         ~tx[<<n, x>>].procs[p].done /\ Handle(n, x, p, {}, FALSE) /\ cnt' = cnt /\ log' = log
    \/ \E n \in Nodes : \E x \in Range(order[n]) : MCNext /\ x \notin Range(order'[n])
    \/ \E y \in DOMAIN tx : tx[y].st \in {"sent", "answered"} /\ MCNext /\ tx'[y] # tx[y]

MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(Serve)
SimSpec == MCInit /\ [][SimNext]_allvars

DesignHolds == viol = {}
KnowsThePast == \A n \in Nodes : \A k \in Keys : knows[n][k] \in DOMAIN hist[k]
(* Everybody who reported success has been applied, and nobody is lost.        *)
NoLostUpdate == \A y \in DOMAIN tx : tx[y].applied =>
    \A k \in DOMAIN tx[y].own : hist[k][mine[y][k] + 1] = tx[y].own[k]
(* The states of the tablets are those of executing the applied transactions   *)
(* one after the other: each version of a tablet was written by a transaction  *)
(* that has seen all of the version before.                                    *)
Serial == \A y \in DOMAIN tx : tx[y].applied =>
    \A k \in DOMAIN tx[y].seen : hist[k][mine[y][k]] = tx[y].seen[k]

EveryCommitEnds == \A n \in Nodes : \A x \in 1..MaxTx :
    (<<n, x>> \in DOMAIN tx /\ tx[<<n, x>>].st = "committing") ~>
    (<<n, x>> \in DOMAIN tx /\ tx[<<n, x>>].st = "done")

EmitScript == (TLCGet("level") = SimDepth) => PrintT("SCRIPT " \o ToJson([ops |-> log]))
=============================================================================
