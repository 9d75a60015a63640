----------------------- MODULE TraceTabletTransactions -----------------------
(* Validates recorded runs of the implementation against TabletTransactions.   *)
EXTENDS TabletTransactions, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<ids, ver, hist, blob, durable, tx, order, req, bad, told, tr, l, viol>>

Config(tables) ==
    [t \in {tables[n].t : n \in DOMAIN tables} |->
        LET ts == tables[CHOOSE n \in DOMAIN tables : tables[n].t = t].tablets
        IN  [i \in {ts[m].id : m \in DOMAIN ts} |->
               LET m == ts[CHOOSE m \in DOMAIN ts : ts[m].id = i] IN [v |-> m.v, u |-> m.u, c |-> m.c]]]

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ TxnInit(Config(Traces[tr].ev[1].tables), 1..Traces[tr].ev[1].nodes)

All == {"T01", "T02", "T03", "T04", "T05", "T06", "T07", "HARNESS"}

(* A step that breaks another property than the one that is decided is taken   *)
(* nevertheless, as far as the specification can say what it does.             *)
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All
Step(b, eff) == IF b \cap Prop = {} THEN viol' = {} /\ eff ELSE viol' = b /\ UNCHANGED tvs
Hard(b, eff) == viol' = b /\ (IF b = {} THEN eff ELSE UNCHANGED tvs)
Query(q) == [m \in DOMAIN q |-> [q |-> q[m].q, t |-> q[m].t, k |-> Range(q[m].k)]]

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "start"   -> Step({}, Start_Eff(e.n, e.x))
         [] e.e = "proc"    -> Step({}, Process_Eff(e.n, e.x, e.p, Query(e.q)))
         [] e.e = "hdl"     -> Step(Handler_Viol(e.n, e.x, e.p, e.s), Handler_Eff(e.n, e.x, e.p, e.s, e.w))
         [] e.e = "sreq"    -> Step(StoreBlob_Viol(e.u, e.x), StoreBlob_Eff(e.u, e.x))
         [] e.e = "sresp"   -> Step({}, StoredBlob_Eff(e.n, e.u, e.ok))
         [] e.e = "lbad"    -> Step({}, BadLoad_Eff(e.n))
         [] e.e = "tick"    -> Step({}, Tick_Eff(e.n))
         [] e.e = "commit"  -> Step({}, Commit_Eff(e.n, e.x))
         [] e.e = "abort"   -> Step({}, Abort_Eff(e.n, e.x))
         [] e.e = "ops"     -> IF order[e.n] = <<>> THEN Hard(Ops_Viol(e.n, e.ops), UNCHANGED tvs)
                            ELSE Step(Ops_Viol(e.n, e.ops), Ops_Eff(e.n, e.c, e.ops))
         [] e.e = "exec"    ->
                IF Succeeds(req[<<e.n, e.c>>].ops) # e.applied THEN Hard({"HARNESS"}, UNCHANGED tvs)
                ELSE Step(Exec_Viol(e.n, e.c), Exec_Eff(e.n, e.c))
         [] e.e = "dlv"     -> Step({}, Deliver_Eff(e.n, e.c, e.sure))
         [] e.e = "out"     -> Step(Outcome_Viol(e.n, e.x, e.ok, e.again), Outcome_Eff(e.n, e.x))
         [] e.e = "end"     -> Step(End_Viol, UNCHANGED tvs)
         [] e.e = "settled" -> Step(Settled_Viol(e.ok), UNCHANGED tvs)
         [] e.e = "panic"   -> Hard(All \ {"HARNESS"}, UNCHANGED tvs)
         [] OTHER           -> Hard({"HARNESS"}, UNCHANGED tvs)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
T01 == "T01" \notin viol
T02 == "T02" \notin viol
T03 == "T03" \notin viol
T04 == "T04" \notin viol
T05 == "T05" \notin viol
T06 == "T06" \notin viol
T07 == "T07" \notin viol
=============================================================================
