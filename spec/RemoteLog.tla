------------------------------- MODULE RemoteLog -------------------------------
(* The log that a trusted application hands to its host (runtime/src/logger.rs).*)
(* Records are made through a tree of loggers, each with key-values that all    *)
(* records below it inherit. What has been logged waits until it is taken.      *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    kvs,      \* per logger: the key-values that its records inherit
    rec,      \* per record: its level and key-values, own and inherited
    pend,     \* the records that wait, oldest first
    flight    \* per thread that is logging: its records that have not been taken, oldest first
lvars == <<kvs, rec, pend, flight>>

SetOf(s) == {s[n] : n \in DOMAIN s}

LogInit ==
    /\ kvs = <<{}>>
    /\ rec = <<>>
    /\ pend = <<>>
    /\ flight = <<>>

Child_Eff(of, kv) ==
    /\ kvs' = Append(kvs, kvs[of] \cup SetOf(kv))
    /\ UNCHANGED <<rec, pend, flight>>

(* Records are numbered in the order in which they are made.                    *)
Made_Eff(lg, lv, kv) ==
    /\ rec' = Append(rec, [lv |-> lv, kv |-> kvs[lg] \cup SetOf(kv)])
    /\ UNCHANGED <<kvs, pend, flight>>

Burst_Eff(n, lg, lv) ==
    /\ rec' = rec \o [i \in 1..n |-> [lv |-> lv, kv |-> kvs[lg]]]
    /\ pend' = pend \o [i \in 1..n |-> Len(rec) + i]
    /\ UNCHANGED <<kvs, flight>>

(* The same record may be logged again and again.                               *)
Logged_Eff(ids) ==
    /\ pend' = pend \o ids
    /\ UNCHANGED <<kvs, rec, flight>>

Parallel_Eff(ids) ==
    /\ flight' = ids
    /\ UNCHANGED <<kvs, rec, pend>>

(* Everything that waits comes first. Then come records of the threads that are *)
(* logging, those of one thread in the order in which it has made them.         *)
Consumed(out, t) == SelectSeq(out, LAMBDA id : id \in SetOf(flight[t]))
Rest(t, out) == SubSeq(flight[t], Len(Consumed(out, t)) + 1, Len(flight[t]))
RightOrder(out) ==
    /\ Len(out) >= Len(pend)
    /\ SubSeq(out, 1, Len(pend)) = pend
    /\ \A n \in Len(pend) + 1..Len(out) : \E t \in DOMAIN flight : out[n] \in SetOf(flight[t])
    /\ \A t \in DOMAIN flight :
         LET c == Consumed(SubSeq(out, Len(pend) + 1, Len(out)), t)
         IN  Len(c) <= Len(flight[t]) /\ c = SubSeq(flight[t], 1, Len(c))
TakesAll(out) == RightOrder(out) /\ \A t \in DOMAIN flight : Rest(t, out) = <<>>

Ids(out) == [n \in DOMAIN out |-> out[n].id]
RightEntry(e) ==
    e.id \in DOMAIN rec =>
        /\ e.lv = rec[e.id].lv
        /\ SetOf(e.kv) = rec[e.id].kv
        /\ e.text
        /\ e.pos

(* L01: whatever has been logged is handed out exactly once and in order.       *)
(* L02: it is handed out as it has been logged.                                 *)
Take_Viol(out, all) ==
    (IF IF all THEN TakesAll(Ids(out)) ELSE RightOrder(Ids(out)) THEN {} ELSE {"L01"})
    \cup (IF \A n \in DOMAIN out : RightEntry(out[n]) THEN {} ELSE {"L02"})
Take_Eff(out) ==
    /\ pend' = <<>>
    /\ flight' = [t \in DOMAIN flight |-> Rest(t, Ids(out))]
    /\ UNCHANGED <<kvs, rec>>

End_Viol == IF pend = <<>> /\ \A t \in DOMAIN flight : flight[t] = <<>> THEN {} ELSE {"L01"}
================================================================================
