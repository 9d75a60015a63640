-------------------------- MODULE TraceReplicatedLog --------------------------
(* Validates recorded runs of the implementation against ReplicatedLog.        *)
EXTENDS ReplicatedLog, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<rlvars, time, tr, l, viol>>

Range(s) == {s[n] : n \in DOMAIN s}
Counters(s) == [k \in {s[m].k : m \in DOMAIN s} |->
                  LET x == s[CHOOSE m \in DOMAIN s : s[m].k = k] IN [v |-> x.v, p |-> x.p]]
Initial(s) == [k \in {s[m].k : m \in DOMAIN s} |->
                  [v |-> s[CHOOSE m \in DOMAIN s : s[m].k = k].v, p |-> 0]]

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ LET e == Traces[tr].ev[1] IN RlInit(Initial(e.init), e.eph)

All == {"V01", "V02", "V03", "V04", "V05", "V06", "V07", "V08", "C01", "HARNESS"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All
\* can: the specification can say what the step does although it is forbidden.
Step(b, can, eff) ==
    IF b = {} \/ (b \cap Prop = {} /\ can) THEN viol' = {} /\ eff
    ELSE IF b \cap Prop = {} THEN viol' = {"DONE"} /\ UNCHANGED rlvars
    ELSE viol' = b /\ UNCHANGED rlvars

Hist(h) == [m \in DOMAIN h |-> [i |-> h[m][1], u |-> h[m][2]]]
Op(e) == IF e.ok THEN [k |-> e.k, ex |-> e.ex, nw |-> e.nw, p |-> e.p] ELSE <<>>
Same0 == UNCHANGED rlvars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       /\ IF e.e \in {"told", "att"} THEN Time_Eff(e.r, e.given) ELSE UNCHANGED time
       /\ CASE e.e = "start"   -> Step({}, TRUE, Start_Eff(e.r, e.lead))
         [] e.e = "started" -> Step(IF e.id = e.r THEN Alive(e.r) ELSE {"V07"}, TRUE, Same0)
         [] e.e = "cmd"     -> Step(Command_Viol(e.r, e.lead), TRUE, Command_Eff(e.r, e.c, e.lead, e.ok, Op(e)))
         [] e.e = "prop"    -> Step(Propose_Viol(e.r, e.c), FALSE, Propose_Eff(e.r, e.c, e.u))
         [] e.e = "apply"   -> LET b == Apply_Viol(e.r, e.i, e.own, e.u, e.c) IN
                               Step(b, "V01" \notin b, Apply_Eff(e.r, e.i, e.own, e.u, e.c))
         [] e.e = "resp"    -> LET res == [st |-> e.st, old |-> e.old, new |-> e.new, full |-> e.full] IN
                               Step(Response_Viol(e.r, e.c, res), TRUE, Response_Eff(e.r, e.c))
         [] e.e = "done"    -> Step(Done_Viol(e.r), TRUE, Done_Eff(e.r))
         [] e.e = "save"    -> Step(Save_Viol(e.r, Counters(e.vals)), TRUE, Same0)
         [] e.e = "load"    -> LET h == Hist(e.h)
                                   b == Load_Viol(e.r, h, Counters(e.vals), Counters(e.st)) IN
                               Step(b, "V01" \notin b, Load_Eff(e.r, h))
         [] e.e = "garbled" -> Step({"V04"}, FALSE, Same0)
         [] e.e = "chg"     -> Step({}, TRUE, Change_Eff(e.r, e.id, e.kind = 1, e.n, e.kind \in {1, 2}, e.lead))
         [] e.e = "chgr"    -> LET b == Changed_Viol(e.r, e.id, e.st) IN
                               Step(b, e.id \in DOMAIN asked, Changed_Eff(e.r, e.id, e.st))
         [] e.e = "conf"    -> LET v == Range(e.v) IN
                               Step(Configure_Viol(e.r, e.add, e.n, v, e.i), TRUE, Configure_Eff(e.r, e.add, e.n, v, e.i))
         [] e.e = "chk"     -> LET v == Range(e.v) IN
                               Step(Report_Viol(e.r, e.lead, e.term, v, e.pend), TRUE,
                                    Report_Eff(e.r, e.lead, e.term, v, e.pend))
         [] e.e = "hard"    -> Step(Hard_Viol(e.r, e.term, e.vote, e.commit), TRUE, Hard_Eff(e.r, e.term, e.vote, e.commit))
         [] e.e = "camp"    -> Step(Campaign_Viol(e.r, e.term), TRUE, Campaign_Eff(e.r, e.term))
         [] e.e = "ask"     -> Step({}, TRUE, Ask_Eff(e.r))
         [] e.e = "rst"     -> Step(State_Viol(e.r, e.applied), TRUE, Same0)
         [] e.e = "told"    -> Step(Told_Viol(e.r, e.given, e.now, e.id, e.cfg, e.lead, e.is), TRUE, Same0)
         [] e.e = "att"     -> Step(Clock_Viol(e.r, e.given, e.now), TRUE, Same0)
         [] e.e = "late"    -> Step(IF e.quiet THEN {} ELSE {"V07"}, TRUE, Same0)
         [] e.e = "lame"    -> Step({}, TRUE, Mode_Eff(e.r, "lame"))
         [] e.e = "stop"    -> Step({}, TRUE, Mode_Eff(e.r, "stopping"))
         [] e.e = "shut"    -> Step(IF mode[e.r] = "stopping" THEN {} ELSE {"V07"}, TRUE, Same0)
         [] e.e = "stopped" -> Step(IF mode[e.r] = "stopping" THEN {} ELSE {"V07"}, TRUE, Mode_Eff(e.r, "down"))
         [] e.e = "crash"   -> Step({}, TRUE, Mode_Eff(e.r, "down"))
         [] e.e = "leak"    -> Step({"C01"}, TRUE, Same0)
         [] e.e = "err"     -> Step({"V07"}, FALSE, Same0)
         [] e.e = "end"     -> Step(IF e.paced THEN End_Viol(Range(e.up), e.ans, e.caught) ELSE {}, TRUE, Same0)
         [] e.e = "panic"   -> viol' = All \ {"HARNESS"} /\ UNCHANGED rlvars
         [] OTHER           -> viol' = {"HARNESS"} /\ UNCHANGED rlvars

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
V01 == "V01" \notin viol
V02 == "V02" \notin viol
V03 == "V03" \notin viol
V04 == "V04" \notin viol
V05 == "V05" \notin viol
V06 == "V06" \notin viol
V07 == "V07" \notin viol
V08 == "V08" \notin viol
C01 == "C01" \notin viol
=============================================================================
