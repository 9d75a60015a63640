----------------------------- MODULE TraceRemoteLog -----------------------------
(* Validates recorded runs of the remote logger against RemoteLog.               *)
EXTENDS RemoteLog, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<kvs, rec, pend, flight, tr, l, viol>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ LogInit

All == {"L01", "L02"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
Step(bad, can, eff) ==
    IF bad \cap Prop = {} /\ can THEN viol' = {} /\ eff ELSE viol' = bad /\ UNCHANGED lvars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "child"  -> Step({}, TRUE, Child_Eff(e.of, e.kv))
         [] e.e = "made"   -> Step(IF e.id = Len(rec) + 1 THEN {} ELSE {"HARNESS"}, TRUE, Made_Eff(e.lg, e.lv, e.kv))
         [] e.e = "logged" -> Step({}, TRUE, Logged_Eff(e.ids))
         [] e.e = "burst"  -> Step({}, TRUE, Burst_Eff(e.n, e.lg, e.lv))
         [] e.e = "par"    -> Step({}, TRUE, Parallel_Eff(e.ids))
         [] e.e = "take"   -> Step(Take_Viol(e.out, TRUE), RightOrder(Ids(e.out)), Take_Eff(e.out))
         [] e.e = "some"   -> Step(Take_Viol(e.out, FALSE), RightOrder(Ids(e.out)), Take_Eff(e.out))
         [] e.e = "end"    -> Step(End_Viol, FALSE, UNCHANGED lvars)
         [] e.e = "panic"  -> Step(All, FALSE, UNCHANGED lvars)
         [] OTHER          -> Step({"HARNESS"}, FALSE, UNCHANGED lvars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
L01 == "L01" \notin viol
L02 == "L02" \notin viol
================================================================================
