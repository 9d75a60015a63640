---------------------------- MODULE TraceDataCache ----------------------------
(* Validates recorded runs of the implementation against DataCache.            *)
EXTENDS DataCache, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<bound, key, val, durable, net, batch, zero, tr, l, viol>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ DataInit

All == {"D01", "D02", "D03", "D04", "D05"}
(* A step that breaks another property than the one that is decided is taken   *)
(* nevertheless, if the specification can say what it does.                    *)
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
Step(bad, can, eff) ==
    IF bad \cap Prop = {} /\ can THEN viol' = {} /\ eff ELSE viol' = bad /\ UNCHANGED dvars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "load"  -> Step({}, TRUE, Load_Eff(e.b, e.ms))
         [] e.e = "store" -> Step(Store_Viol(e.b, e.ts, e.ser), TRUE, Store_Eff(e.b, e.ts, e.ser))
         [] e.e = "lreq"  -> Step(LoadRequest_Viol(e.c, e.u), e.u = 0 \/ e.u \in DOMAIN bound, LoadRequest_Eff(e.c, e.u))
         [] e.e = "sreq"  -> Step(StoreRequest_Viol(e.c, e.u, e.x), e.u \in DOMAIN bound, StoreRequest_Eff(e.c, e.u, e.x))
         [] e.e = "lresp" -> Step({}, TRUE, LoadResponse_Eff(e.c, e.ok, e.x))
         [] e.e = "sresp" -> Step({}, TRUE, StoreResponse_Eff(e.c, e.ok))
         [] e.e = "tick"  -> Step({}, TRUE, Tick_Eff)
         [] e.e = "res"   -> Step(Result_Viol(e.b, e.ok, e.failed, e.out), e.b \in DOMAIN batch, Result_Eff(e.b))
         [] e.e = "end"   -> Step(End_Viol, FALSE, UNCHANGED dvars)
         [] e.e = "panic" -> Step(All, FALSE, UNCHANGED dvars)
         [] OTHER         -> Step({"HARNESS"}, FALSE, UNCHANGED dvars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
D01 == "D01" \notin viol
D02 == "D02" \notin viol
D03 == "D03" \notin viol
D04 == "D04" \notin viol
D05 == "D05" \notin viol
=============================================================================
