-------------------------- MODULE TraceKeyValueStore --------------------------
(* Validates recorded runs of the implementation against KeyValueStore.        *)
EXTENDS KeyValueStore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<cf, db, req, conf, okc, pend, rsv, tab, txr, due, tr, l, viol>>

Keys(e) == {e.keys[n].k : n \in DOMAIN e.keys}
KeyOf(e, k) == e.keys[CHOOSE n \in DOMAIN e.keys : e.keys[n].k = k]

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 3
    /\ viol = {}
    /\ LET c == Traces[tr].ev[1]
           e == Traces[tr].ev[2]
           ts == c.tables[1].tablets
       IN  KvInit([minr |-> e.minr, minp |-> e.minp, ids |-> {ts[m].id : m \in DOMAIN ts},
                   hash |-> [k \in Keys(e) |-> KeyOf(e, k).h]],
                  [k \in Keys(e) |-> KeyOf(e, k).v], 1..c.nodes)

All == {"K01", "K02", "K03", "K04", "HARNESS"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All
\* can: the specification can say what the step does although it is forbidden.
Step(b, can, eff) ==
    IF b = {} \/ (b \cap Prop = {} /\ can) THEN viol' = {} /\ eff
    ELSE viol' = b /\ UNCHANGED kvs

\* A run that cannot be followed any further for the sake of another property ends.
Ignore == /\ viol' = {"DONE"}
          /\ UNCHANGED kvs

Entries(w) ==
    [i \in {w[m].id : m \in DOMAIN w} |->
        LET d == w[CHOOSE m \in DOMAIN w : w[m].id = i].d
        IN  [k \in {d[m].k : m \in DOMAIN d} |-> d[CHOOSE m \in DOMAIN d : d[m].k = k].v]]

Soft(b, eff) == IF b = {} THEN viol' = {} /\ eff
                ELSE IF b \cap Prop = {} THEN Ignore ELSE viol' = b /\ UNCHANGED kvs

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "req"  -> Step({}, TRUE, Request_Eff(e.n, e.r, e.k, e.op, e.v))
         [] e.e = "rsv"  -> Step(Resolve_Viol(e.n, Range(e.h)), TRUE, Resolve_Eff(e.n, e.q, Range(e.h)))
         [] e.e = "rsd"  -> IF e.id \in cf.ids THEN Step({}, TRUE, Resolved_Eff(e.n, e.q, e.id, Range(e.h)))
                            ELSE Soft({"K02"}, UNCHANGED kvs)
         [] e.e = "proc" -> LET qs == [m \in DOMAIN e.qs |-> Range(e.qs[m])] IN
                            Step(Process_Viol(e.n, e.x, qs), TRUE, Process_Eff(e.n, e.x, qs))
         [] e.e = "out"  -> Step({}, TRUE, Outcome_Eff(e.n, e.x, e.ok))
         [] e.e = "exec" -> IF ~e.applied THEN Step({}, TRUE, UNCHANGED kvs)
                            ELSE IF e.lost THEN Soft({"K02"}, UNCHANGED kvs)
                            ELSE Soft(Exec_Viol(e.n, <<e.n, e.c>>, Range(e.ts), Entries(e.w)),
                                      Exec_Eff(e.n, <<e.n, e.c>>, Range(e.ts), Entries(e.w)))
         [] e.e = "dlv"  -> Step({}, TRUE, Deliver_Eff(e.n, <<e.n, e.c>>, e.sure))
         [] e.e = "resp" -> LET res == [op |-> e.op, x |-> e.x, v |-> e.v]
                                b == Response_Viol(e.n, e.r, res) IN
                            Step(b, "K01" \notin b, Response_Eff(e.n, e.r, res))
         [] e.e = "tick" -> Step({}, TRUE, Tick_Eff(e.n))
         [] e.e = "tack" -> Step(Tack_Viol(e.n), TRUE, UNCHANGED kvs)
         [] e.e = "end"  -> Step(End_Viol(e.last), TRUE, UNCHANGED kvs)
         [] e.e \in {"sreq", "sresp", "lbad", "ops"} -> Step({}, TRUE, UNCHANGED kvs)
         [] e.e = "panic" -> viol' = All \ {"HARNESS"} /\ UNCHANGED kvs
         [] OTHER        -> viol' = {"HARNESS"} /\ UNCHANGED kvs

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
K01 == "K01" \notin viol
K02 == "K02" \notin viol
K03 == "K03" \notin viol
K04 == "K04" \notin viol
=============================================================================
