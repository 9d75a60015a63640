----------------------------- MODULE TraceLogStore -----------------------------
(* Validates recorded runs of the memory storage against LogStore.                *)
EXTENDS LogStore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, viol
tvars == <<hard, snap, ents, asks, diff, tr, l, viol>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ l = 2
    /\ viol = {}
    /\ StoreInit(Traces[tr].ev[1].diff)

All == {"R01", "R02"}
Prop == IF "PROP" \in DOMAIN IOEnv THEN {IOEnv.PROP, "HARNESS"} ELSE All \cup {"HARNESS"}
Step(bad, can, eff) ==
    IF bad = {} /\ can THEN viol' = {} /\ eff
    ELSE viol' = (IF bad = {} THEN {"HARNESS"} ELSE IF bad \cap Prop = {} THEN {"other"} ELSE bad)
         /\ UNCHANGED svars

SetOf(s) == {s[n] : n \in DOMAIN s}
Snap(s) == [i |-> s.i, t |-> s.t, m |-> SetOf(s.m), d |-> s.d]

TraceNext ==
    /\ viol = {}
    /\ l <= Len(Traces[tr].ev)
    /\ l' = l + 1
    /\ tr' = tr
    /\ LET e == Traces[tr].ev[l] IN
       CASE e.e = "hard"    -> Step({}, TRUE, Hard_Eff([t |-> e.t, v |-> e.v, c |-> e.c]))
         [] e.e = "append"  -> Step({}, CanAppend(e.es), Append_Eff(e.es))
         [] e.e = "restore" -> Step(Restore_Viol(Snap(e.s), e.ok), TRUE, Restore_Eff(Snap(e.s)))
         [] e.e = "make"    -> Step(Make_Viol(e.i, e.ok, e.first), CanMake(e.i), Make_Eff(e.i, SetOf(e.m), e.d, e.first))
         [] e.e = "should"  -> Step(Should_Viol(e.i, SetOf(e.m), e.yes), TRUE, UNCHANGED svars)
         [] e.e = "ask"     -> Step(Ask_Viol(e.i, e.p, [n \in DOMAIN e.got |-> Snap(e.got[n])]), TRUE, Ask_Eff(e.i, e.p))
         [] e.e = "read"    -> Step(Read_Viol(e.lo, e.hi, e.limit, e.ok, e.es), CanRead(e.lo, e.hi), UNCHANGED svars)
         [] e.e = "term"    -> Step(Term_Viol(e.i, e.res, e.t), TRUE, UNCHANGED svars)
         [] e.e = "look"    -> Step(Look_Viol(e.first, e.last, [t |-> e.t, v |-> e.v, c |-> e.c], SetOf(e.m), e.size), TRUE, UNCHANGED svars)
         [] e.e = "panic"   -> Step(All, FALSE, UNCHANGED svars)
         [] OTHER           -> Step({"HARNESS"}, FALSE, UNCHANGED svars)

Finished == (viol # {} \/ l > Len(Traces[tr].ev)) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext \/ Finished]_tvars
TraceView == <<tr, l, viol>>

Harness == "HARNESS" \notin viol
R01 == "R01" \notin viol
R02 == "R02" \notin viol
================================================================================
