-------------------------- MODULE TraceMetadataCache --------------------------
(* Validates recorded runs of the implementation against MetadataCache.        *)
EXTENDS MetadataCache, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<cf, ver, known, reg, reqs, net, tr, l, viol>>

Config(tables) ==
    [t \in {tables[n].t : n \in DOMAIN tables} |->
        LET c == tables[CHOOSE n \in DOMAIN tables : tables[n].t = t]
        IN  [r |-> c.r, ids |-> Range(c.ids)]]

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ MetaInit(Config(Traces[tr].ev[1].tables))

All == {"M01", "M02", "M03", "M04"}
(* A step that breaks another property than the one that is decided is taken   *)
(* nevertheless, if the specification can say what it does.                    *)
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
Step(bad, can, eff) ==
    IF bad \cap Prop = {} /\ can THEN viol' = {} /\ eff ELSE viol' = bad /\ UNCHANGED mvars

Query(q) == [n \in DOMAIN q |-> [q |-> q[n].q, t |-> q[n].t, k |-> Range(q[n].k)]]

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "resolve" -> Step({}, TRUE, Resolve_Eff(e.r, Query(e.q)))
         [] e.e = "tick"    -> Step({}, TRUE, UNCHANGED mvars)
         [] e.e = "list"    -> Step(List_Viol(e.c, e.ops), \A n \in DOMAIN e.ops : e.ops[n].t \in DOMAIN cf, List_Eff(e.c, e.ops))
         [] e.e = "exec"    -> Step({}, TRUE, Exec_Eff(e.c, e.ok))
         [] e.e = "dlv"     -> Step({}, TRUE, Deliver_Eff(e.c))
         [] e.e = "commit"  -> Step({}, TRUE, Commit_Eff(e.t, e.id))
         [] e.e = "upd"     -> Step({}, TRUE, Update_Eff(e.t, e.id, e.v, e.x))
         [] e.e = "res"     -> Step(Result_Viol(e.r, e.out, e.hv), e.r \in DOMAIN reqs, Result_Eff(e.r))
         [] e.e = "end"     -> Step(End_Viol, FALSE, UNCHANGED mvars)
         [] e.e = "panic"   -> Step(All, FALSE, UNCHANGED mvars)
         [] OTHER           -> Step({"HARNESS"}, FALSE, UNCHANGED mvars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars

TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars

TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
M01 == "M01" \notin viol
M02 == "M02" \notin viol
M03 == "M03" \notin viol
M04 == "M04" \notin viol
=============================================================================
