---------------------------- MODULE MCReplicaTime ----------------------------
(* The design of what a replica takes for the time: it keeps the largest       *)
(* instant it has been given, before it looks at the message of the call, and  *)
(* with it whether it leads. The application sees what was kept; the clock of  *)
(* the sessions follows it. The host hands in any instant, and messages may    *)
(* come before the replica is started.                                         *)
(* Checked: the design satisfies V08 of ReplicatedLog.                         *)
EXTENDS ReplicatedLog

CONSTANTS Ids, MaxTime, MaxCalls

VARIABLES
    drv,     \* replica -> [state, now, leads: kept at the beginning of the call, clock: of the sessions, raft: leads]
    calls, viol
vars == <<rlvars, time, drv, calls, viol>>

Init ==
    /\ RlInit(<<>>, FALSE)
    /\ drv = [r \in Ids |-> [state |-> "new", now |-> 0, leads |-> FALSE, clock |-> 0, raft |-> FALSE]]
    /\ calls = 0
    /\ viol = {}

\* What the replica does first in every call.
Preset(r, t) == LET n == IF t > drv[r].now THEN t ELSE drv[r].now IN
                [drv[r] EXCEPT !.now = n, !.clock = n, !.leads = drv[r].raft]

Call(r, t) ==
    /\ Time_Eff(r, t)
    /\ calls' = calls + 1
    /\ UNCHANGED rlvars

Next ==
    /\ calls < MaxCalls
    /\ \E r \in Ids : \E t \in 0..MaxTime :
       LET d == Preset(r, t) IN
       \/ \* It is started, and its application initialized.
          /\ drv[r].state = "new"
          /\ drv' = [drv EXCEPT ![r] = [d EXCEPT !.state = "up"]]
          /\ viol' = viol \cup Told_Viol(r, t, d.now, r, TRUE, d.leads, d.raft)
          /\ Call(r, t)
       \/ \* Its application is given a command.
          /\ drv[r].state = "up"
          /\ drv' = [drv EXCEPT ![r] = d]
          /\ viol' = viol \cup Told_Viol(r, t, d.now, r, TRUE, d.leads, d.raft)
          /\ Call(r, t)
       \/ \* It makes a session with somebody.
          /\ drv[r].state = "up"
          /\ drv' = [drv EXCEPT ![r] = d]
          /\ viol' = viol \cup Clock_Viol(r, t, d.clock)
          /\ Call(r, t)
       \/ \* Anything else, or a message that is refused; leadership may change.
          /\ \E lead \in BOOLEAN : drv' = [drv EXCEPT ![r] = [d EXCEPT !.raft = lead /\ d.state = "up"]]
          /\ viol' = viol
          /\ Call(r, t)

Spec == Init /\ [][Next]_vars

DesignHolds == viol = {}
(* The time of a replica is what its host has handed in at the latest.         *)
TimeIsKept == \A r \in Ids : drv[r].now = Time(r) /\ drv[r].clock = Time(r)
NeverBack == [][\A r \in Ids : drv'[r].now >= drv[r].now]_vars
=============================================================================
