-------------------------------- MODULE LogStore --------------------------------
(* What a replica keeps of the replicated log: the latest snapshot, the entries   *)
(* after it (and possibly some that it covers), the hard state of Raft, and which *)
(* peers wait for a snapshot.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    hard,    \* [t, v, c]: term, vote, commit
    snap,    \* [i, t, m, d]: index, term, members, data
    ents,    \* consecutive entries [i, t, d, z]: index, term, data, size
    asks,    \* peer -> the index it needs a snapshot of
    diff     \* how far the log may run ahead of the snapshot
svars == <<hard, snap, ents, asks, diff>>

First == IF ents = <<>> THEN snap.i + 1 ELSE ents[1].i
Last == IF ents = <<>> THEN snap.i ELSE ents[Len(ents)].i
EntryAt(i) == ents[i - First + 1]
Max(a, b) == IF a > b THEN a ELSE b

Satisfies(i, m, p, need) == i >= need /\ p \in m
Without(a, gone) == [p \in DOMAIN a \ gone |-> a[p]]
StillAsked(s) == Without(asks, {p \in DOMAIN asks : Satisfies(s.i, s.m, p, asks[p])})

StoreInit(d) ==
    /\ hard = [t |-> 0, v |-> 0, c |-> 0]
    /\ snap = [i |-> 0, t |-> 0, m |-> {}, d |-> 0]
    /\ ents = <<>>
    /\ asks = [p \in {} |-> 0]
    /\ diff = d

(* Writing.                                                                        *)
Hard_Eff(h) == hard' = h /\ UNCHANGED <<snap, ents, asks, diff>>

(* Entries continue the log, and take the place of all from their first one on.   *)
CanAppend(es) == es = <<>> \/ (First <= es[1].i /\ es[1].i <= Last + 1)
Appended(es) == IF es = <<>> THEN ents ELSE SubSeq(ents, 1, es[1].i - First) \o es
Append_Eff(es) == ents' = Appended(es) /\ UNCHANGED <<hard, snap, asks, diff>>

(* A snapshot of somebody else takes the place of everything it covers, and of    *)
(* all that comes after it.                                                        *)
Restorable(s) == s.i >= First
Restore_Viol(s, ok) == IF ok = Restorable(s) THEN {} ELSE {"R02"}
Restore_Eff(s) ==
    IF Restorable(s)
    THEN /\ snap' = s /\ ents' = <<>>
         /\ hard' = [hard EXCEPT !.c = s.i, !.t = Max(hard.t, s.t)]
         /\ asks' = StillAsked(s)
         /\ diff' = diff
    ELSE UNCHANGED svars

(* A snapshot of what has been applied up to i. What comes before is forgotten:   *)
(* first tells from where on there are entries then.                               *)
CanMake(i) == i <= Last
Makable(i) == i >= First
Made(i, m, d) == [i |-> i, t |-> EntryAt(i).t, m |-> m, d |-> d]
Make_Viol(i, ok, first) ==
    IF ok # Makable(i) THEN {"R02"}
    ELSE IF ok /\ ~(i <= first /\ first <= i + 1) THEN {"R01"} ELSE {}
Make_Eff(i, m, d, first) ==
    IF Makable(i)
    THEN /\ snap' = Made(i, m, d)
         /\ ents' = SubSeq(ents, first - First + 1, Len(ents))
         /\ asks' = StillAsked(snap')
         /\ UNCHANGED <<hard, diff>>
    ELSE UNCHANGED svars

(* It is time for a snapshot when the last one is too old, or when one at i would *)
(* be what a peer waits for.                                                       *)
Should(i, m) == snap.i + diff < i \/ \E p \in DOMAIN asks : Satisfies(i, m, p, asks[p])
Should_Viol(i, m, yes) == IF yes = Should(i, m) THEN {} ELSE {"R02"}

(* A peer needs a snapshot that covers need.                                       *)
Has(need, p) == Satisfies(snap.i, snap.m, p, need)
Ask_Viol(need, p, got) ==
    IF got = (IF Has(need, p) THEN <<snap>> ELSE <<>>) THEN {} ELSE {"R02"}
Ask_Eff(need, p) ==
    /\ asks' = IF Has(need, p) THEN asks
               ELSE [q \in DOMAIN asks \cup {p} |-> IF q = p THEN need ELSE asks[q]]
    /\ UNCHANGED <<hard, snap, ents, diff>>

(* Reading.                                                                        *)
RECURSIVE Size(_)
Size(es) == IF es = <<>> THEN 0 ELSE Head(es).z + Size(Tail(es))
CanRead(lo, hi) == lo < hi /\ hi <= Last + 1
(* As many of the entries from lo up to hi as fit, but at least one.              *)
ReadOk(lo, hi, limit, es) ==
    /\ es # <<>>
    /\ Len(es) <= hi - lo
    /\ \A n \in DOMAIN es : es[n] = EntryAt(lo + n - 1)
    /\ limit < 0 => Len(es) = hi - lo
    /\ limit >= 0 => /\ Len(es) > 1 => Size(es) <= limit
                     /\ Len(es) < hi - lo => Size(Append(es, EntryAt(lo + Len(es)))) > limit
Read_Viol(lo, hi, limit, ok, es) ==
    IF lo < First THEN (IF ok THEN {"R01"} ELSE {})
    ELSE IF ok /\ ReadOk(lo, hi, limit, es) THEN {} ELSE {"R01"}
Term_Viol(i, res, t) ==
    IF i = snap.i THEN (IF res = "ok" /\ t = snap.t THEN {} ELSE {"R01"})
    ELSE IF i < First THEN (IF res = "compacted" THEN {} ELSE {"R01"})
    ELSE IF i > Last THEN (IF res = "unavailable" THEN {} ELSE {"R01"})
    ELSE IF res = "ok" /\ t = EntryAt(i).t THEN {} ELSE {"R01"}
(* Snapshot d has d bytes.                                                         *)
Look_Viol(first, last, h, m, size) ==
    (IF first = First /\ last = Last /\ h = hard THEN {} ELSE {"R01"})
    \cup (IF m = snap.m /\ size = snap.d THEN {} ELSE {"R02"})

(* Between calls.                                                                  *)
Sane ==
    /\ \A n \in 1..Len(ents) - 1 : ents[n + 1].i = ents[n].i + 1
    /\ First <= snap.i + 1 /\ Last >= snap.i
================================================================================
