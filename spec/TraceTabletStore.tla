---------------------------- MODULE TraceTabletStore ----------------------------
(* Validates recorded runs of the tablet store actor against TabletStore.        *)
EXTENDS TabletStore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<st, log, pool, at, saved, tr, l, viol>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ StoreInit(Traces[tr].ev[1].tables)

All == {"S01", "S02", "S03", "S04", "S05"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
Step(bad, can, eff) ==
    IF bad \cap Prop = {} /\ can THEN viol' = {} /\ eff ELSE viol' = bad /\ UNCHANGED svars

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "init"   -> Step(Init_Viol(e.confs, e.tables), TRUE, UNCHANGED svars)
         [] e.e = "cmd"    -> Step(Command_Viol(e.c, e.ld, e.hdr, e.pl, e.ops, e.kind, e.same, e.corr), TRUE,
                                   Command_Eff(e.c, e.ops, e.kind))
         [] e.e = "commit" -> Step({}, e.c \in DOMAIN pool, Commit_Eff(e.c))
         [] e.e = "apply"  -> Step(Apply_Viol(e.r, e.own, e.n, e.corr, e.ok, e.res), TRUE, Apply_Eff(e.r))
         [] e.e = "save"   -> Step(Save_Viol(e.r, e.tables), TRUE, Save_Eff(e.r, e.s))
         [] e.e = "load"   -> Step(IF e.ok THEN {} ELSE {"S04"}, TRUE, Load_Eff(e.r, e.s))
         [] e.e = "end"    -> Step({}, FALSE, UNCHANGED svars)
         [] e.e = "panic"  -> Step(All, FALSE, UNCHANGED svars)
         [] OTHER          -> Step({"HARNESS"}, FALSE, UNCHANGED svars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
S01 == "S01" \notin viol
S02 == "S02" \notin viol
S03 == "S03" \notin viol
S04 == "S04" \notin viol
S05 == "S05" \notin viol
================================================================================
