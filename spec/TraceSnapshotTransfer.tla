------------------------- MODULE TraceSnapshotTransfer -------------------------
(* Validates recorded runs of the snapshot processors against SnapshotTransfer.   *)
EXTENDS SnapshotTransfer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<cfg, who, out, inc, ids, dlv, tr, l, viol>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ LET e == Traces[tr].ev[1] IN TransferInit(e.n, e.chunk, e.max)

All == {"P01", "P02"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
Step(bad, can, eff) ==
    IF bad = {} /\ can THEN viol' = {} /\ eff
    ELSE viol' = (IF bad = {} THEN {"HARNESS"} ELSE IF bad \cap Prop = {} THEN {"other"} ELSE bad)
         /\ UNCHANGED xvars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "change" -> LET ms == SetOf(e.ids) IN
                              Step(Change_Viol(e.m, e.lead, e.term, ms, e.told), TRUE, Change_Eff(e.m, e.lead, e.term, ms))
         [] e.e = "role"   -> Step(IF e.sends = who[e.m].sends THEN {} ELSE {"P02"}, TRUE, UNCHANGED xvars)
         [] e.e = "start"  -> Step({}, who[e.m].sends, Start_Eff(e.m, e.p, e.s, e.size))
         [] e.e = "next"   -> Step(Next_Viol(e.m, e.got), TRUE, Next_Eff(e.m, e.got))
         [] e.e = "req"    -> Step(Request_Viol(e.m, e.from, e.x, e.ack), TRUE, Request_Eff(e.m, e.from, e.x))
         [] e.e = "ans"    -> Step({}, TRUE, Answer_Eff(e.m, e.p, e.a))
         [] e.e = "rcvd"   -> Step(Received_Viol(e.m, e.res), TRUE, Received_Eff(e.m))
         [] e.e = "sent"   -> Step(Sent_Viol(e.m, e.res), TRUE, Sent_Eff(e.m, e.res))
         [] e.e = "panic"  -> Step(All, FALSE, UNCHANGED xvars)
         [] OTHER          -> Step({"HARNESS"}, FALSE, UNCHANGED xvars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
P01 == "P01" \notin viol
P02 == "P02" \notin viol
================================================================================
