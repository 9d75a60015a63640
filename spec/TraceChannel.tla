------------------------------ MODULE TraceChannel ------------------------------
(* Validates recorded runs of the communication modules against Channel.          *)
EXTENDS Channel, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<st, cfg, numbers, opened, forgot, kept, tr, l, viol>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ LET cf == Traces[tr].ev[1] IN ChannelInit(cf.timeout, cf.retry, {cf.rogue[i] : i \in DOMAIN cf.rogue})

All == {"C02", "C03", "C04", "C05", "C06"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
(* Surprises of other properties end the run: what follows is not comparable.     *)
Step(bad, can, eff) ==
    IF bad = {} /\ can THEN viol' = {} /\ eff
    ELSE viol' = (IF bad = {} THEN {"HARNESS"} ELSE IF bad \cap Prop = {} THEN {"other"} ELSE bad)
         /\ UNCHANGED cvars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "send"   -> Step(Send_Viol(e.m, e.p, e.ok), TRUE, Send_Eff(e.m, e.p, [k |-> e.k, id |-> e.id]))
         [] e.e = "in"     -> Step(Receive_Viol(e.m, e.p, e.x, e.ok, e.res), TRUE, Receive_Eff(e.m, e.p, e.x))
         [] e.e = "out"    -> Step(Out_Viol(e.m, e.msgs), TRUE, Out_Eff(e.m, e.msgs))
         [] e.e = "tick"   -> Step({}, TRUE, Tick_Eff(e.m))
         [] e.e = "change" -> Step({}, TRUE, Change_Eff(e.m, {e.ids[i] : i \in DOMAIN e.ids}))
         [] e.e = "end"    -> Step(End_Viol(e.sent), TRUE, UNCHANGED cvars)
         [] e.e = "panic"  -> Step(All, FALSE, UNCHANGED cvars)
         [] OTHER          -> Step({"HARNESS"}, FALSE, UNCHANGED cvars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
C02 == "C02" \notin viol
C03 == "C03" \notin viol
C04 == "C04" \notin viol
C05 == "C05" \notin viol
C06 == "C06" \notin viol
================================================================================
