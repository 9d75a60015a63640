------------------------------ MODULE MCRemoteLog ------------------------------
(* The design of the remote log: loggers that append under a lock, in any       *)
(* interleaving with the owner of the log taking what there is.                 *)
EXTENDS RemoteLog, TLC, Json, SequencesExt

CONSTANTS MaxLoggers, MaxRecords, MaxTakes, MaxThreads,
    SimDepth     \* 0: all behaviours; otherwise the length of the random ones

VARIABLES shared,     \* what has been appended and not taken
          handed,     \* all that has been taken
          done,       \* per thread: how many of its records it has appended
          cnt, hist
allvars == <<kvs, rec, pend, flight, shared, handed, done, cnt, hist>>

Fresh(n) == [i \in 1..n |-> cnt.kv + i]
Quiet == \A t \in DOMAIN flight : flight[t] = <<>>
Entry(id) == [id |-> id, lv |-> rec[id].lv, kv |-> SetToSeq(rec[id].kv), text |-> TRUE, pos |-> TRUE]

MCInit == LogInit /\ shared = <<>> /\ handed = <<>> /\ done = <<>> /\ cnt = [kv |-> 0, take |-> 0, again |-> 0] /\ hist = <<>>

NextWith(Log(_)) ==
    \/ \E of \in DOMAIN kvs, n \in 0..1 :
         /\ Len(kvs) < MaxLoggers /\ Quiet
         /\ Child_Eff(of, Fresh(n))
         /\ cnt' = [cnt EXCEPT !.kv = @ + n]
         /\ UNCHANGED <<shared, handed, done>>
         /\ Log([e |-> "child", of |-> of, n |-> n])
    \/ \E lg \in DOMAIN kvs, lv \in IF SimDepth = 0 THEN 1..2 ELSE 1..6, n \in 0..1 :
         /\ Len(rec) < MaxRecords /\ Quiet
         /\ kvs' = kvs /\ flight' = <<>> /\ done' = <<>>
         /\ rec' = Append(rec, [lv |-> lv, kv |-> kvs[lg] \cup SetOf(Fresh(n))])
         /\ pend' = Append(pend, Len(rec) + 1)
         /\ shared' = Append(shared, Len(rec) + 1)
         /\ cnt' = [cnt EXCEPT !.kv = @ + n]
         /\ UNCHANGED handed
         /\ Log([e |-> "log", lg |-> lg, lv |-> lv, n |-> n])
    \/ \E id \in DOMAIN rec :
         /\ cnt.again < MaxTakes /\ Quiet
         /\ Logged_Eff(<<id>>)
         /\ shared' = Append(shared, id)
         /\ cnt' = [cnt EXCEPT !.again = @ + 1]
         /\ UNCHANGED <<handed, done>>
         /\ Log([e |-> "again", id |-> id])
    \/ \E ts \in 2..MaxThreads, n \in 1..2 :
         /\ Len(rec) + ts * n <= MaxRecords /\ Quiet
         /\ flight' = [t \in 1..ts |-> [i \in 1..n |-> Len(rec) + (t - 1) * n + i]]
         /\ rec' = rec \o [i \in 1..ts * n |-> [lv |-> 1, kv |-> {}]]
         /\ done' = [t \in 1..ts |-> 0]
         /\ UNCHANGED <<kvs, pend, shared, handed, cnt>>
         /\ Log([e |-> "par", ts |-> ts, n |-> n])

(* A thread appends its next record. What it has appended and what has been     *)
(* taken of it tell which record that is.                                       *)
Append_(t) ==
    /\ done[t] < Len(flight[t])
    /\ shared' = Append(shared, flight[t][done[t] + 1])
    /\ done' = [done EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<kvs, rec, pend, flight, handed, cnt, hist>>

Take(log) ==
    /\ cnt.take < MaxTakes
    /\ LET out == [n \in DOMAIN shared |-> Entry(shared[n])] IN
       /\ Take_Eff(out)
       /\ done' = [t \in DOMAIN done |-> done[t] - Len(Consumed(shared, t))]
    /\ handed' = handed \o shared
    /\ shared' = <<>>
    /\ cnt' = [cnt EXCEPT !.take = @ + 1]
    /\ hist' = IF log THEN Append(hist, [e |-> "take"]) ELSE hist

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)
Working == \E t \in DOMAIN flight : Append_(t)
MCNext == NextWith(NoLog) \/ Working \/ Take(FALSE)
SimNext == IF \E t \in DOMAIN done : done[t] < Len(flight[t]) THEN Working
           ELSE IF Quiet THEN NextWith(DoLog) \/ Take(TRUE) ELSE Take(FALSE)
MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(Working) /\ WF_allvars(Take(FALSE))
SimSpec == MCInit /\ [][SimNext]_allvars

TakingIsRight ==
    LET out == [n \in DOMAIN shared |-> Entry(shared[n])] IN
    Take_Viol(out, \A t \in DOMAIN flight : done[t] = Len(flight[t])) = {}
NothingTwice == Len(handed) + Len(shared) <= Len(rec) + cnt.again
NothingLost == \A id \in DOMAIN rec :
    \/ id \in SetOf(handed) \/ id \in SetOf(shared)
    \/ \E t \in DOMAIN flight : \E n \in done[t] + 1..Len(flight[t]) : flight[t][n] = id

EmitScript == (TLCGet("level") = SimDepth) => PrintT("SCRIPT " \o ToJson([ops |-> hist]))
================================================================================
