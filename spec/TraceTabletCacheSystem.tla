----------------------- MODULE TraceTabletCacheSystem -----------------------
(* Validates recorded runs of the implementation against TabletCacheSystem.    *)
EXTENDS TabletCacheSystem, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<cf, db, req, conf, okc, pend, rsv, tab, txr, due, gone, tr, l, viol>>

Keys(e) == {e.keys[n].k : n \in DOMAIN e.keys}
KeyOf(e, k) == e.keys[CHOOSE n \in DOMAIN e.keys : e.keys[n].k = k]

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 3
    /\ viol = {}
    /\ LET c == Traces[tr].ev[1]
           e == Traces[tr].ev[2]
           ts == c.tables[1].tablets
       IN  SystemInit([minr |-> e.minr, minp |-> e.minp, ids |-> {ts[m].id : m \in DOMAIN ts},
                   hash |-> [k \in Keys(e) |-> KeyOf(e, k).h]],
                  [k \in Keys(e) |-> KeyOf(e, k).v], 1..c.nodes)

All == {"A01", "A02", "A03", "HARNESS"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All
\* can: the specification can say what the step does although it is forbidden.
Step(b, can, eff) ==
    IF b = {} \/ (b \cap Prop = {} /\ can) THEN viol' = {} /\ eff
    ELSE viol' = b /\ UNCHANGED sysvars

\* A run that cannot be followed any further for the sake of another property ends.
Ignore == /\ viol' = {"DONE"}
          /\ UNCHANGED sysvars

Entries(w) ==
    [i \in {w[m].id : m \in DOMAIN w} |->
        LET d == w[CHOOSE m \in DOMAIN w : w[m].id = i].d
        IN  [k \in {d[m].k : m \in DOMAIN d} |-> d[CHOOSE m \in DOMAIN d : d[m].k = k].v]]

Soft(b, eff) == IF b = {} THEN viol' = {} /\ eff
                ELSE IF b \cap Prop = {} THEN Ignore ELSE viol' = b /\ UNCHANGED sysvars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "req"  -> Step({}, TRUE, Request_Eff(e.n, e.r, e.k, e.op, e.v) /\ UNCHANGED gone)
         [] e.e = "exec" -> IF ~e.applied THEN Step({}, TRUE, UNCHANGED sysvars)
                            ELSE IF e.lost THEN Soft({"A01"}, UNCHANGED sysvars)
                            ELSE Soft(SystemExec_Viol(e.n, <<e.n, e.c>>, Range(e.ts), Entries(e.w)),
                                      Exec_Eff(e.n, <<e.n, e.c>>, Range(e.ts), Entries(e.w)) /\ UNCHANGED gone)
         [] e.e = "dlv"  -> Step({}, TRUE, Deliver_Eff(e.n, <<e.n, e.c>>, e.sure) /\ UNCHANGED gone)
         [] e.e = "resp" -> LET res == [op |-> e.op, x |-> e.x, v |-> e.v]
                                b == SystemResponse_Viol(e.n, e.r, res) IN
                            Step(b, "A02" \notin b, Response_Eff(e.n, e.r, res) /\ UNCHANGED gone)
         [] e.e = "crash" -> Step({}, TRUE, Crash_Eff(e.n))
         [] e.e = "hostile" -> Soft(Hostile_Viol(e.n, e.ok), UNCHANGED sysvars)
         [] e.e = "end"  -> Step(SystemEnd_Viol(e.last), TRUE, UNCHANGED sysvars)
         [] e.e \in {"sreq", "sresp", "lbad", "ops"} -> Step({}, TRUE, UNCHANGED sysvars)
         [] e.e = "panic" -> viol' = All \ {"HARNESS"} /\ UNCHANGED sysvars
         [] OTHER        -> viol' = {"HARNESS"} /\ UNCHANGED sysvars

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
A01 == "A01" \notin viol
A02 == "A02" \notin viol
A03 == "A03" \notin viol
=============================================================================
