------------------------------ MODULE MCLogStore ------------------------------
(* The design of the log store, used by a replica that appends, commits, applies, *)
(* takes snapshots when it is time to, and is sometimes sent one.                  *)
EXTENDS LogStore, TLC, Json, SequencesExt

CONSTANTS Diff, MaxIndex, MaxTerm, Peers, MaxOps,
    SimDepth     \* 0: all behaviours; otherwise the length of the random ones

VARIABLES full,      \* every entry that has been written last at its index
          applied, n, hist
allvars == <<hard, snap, ents, asks, diff, full, applied, n, hist>>

MCInit == StoreInit(Diff) /\ full = <<>> /\ applied = 0 /\ n = 0 /\ hist = <<>>

Terms(k) == {s \in [1..k -> 1..MaxTerm] :
                /\ \A x \in 1..k - 1 : s[x] <= s[x + 1]
                /\ \A x \in 1..k : s[x] >= hard.t /\ s[x] <= hard.t + 1}
Entries(i, ts) == [x \in DOMAIN ts |-> [i |-> i + x - 1, t |-> ts[x], d |-> 0, z |-> 1]]
Members == SUBSET Peers
Some(m) == SetToSeq(m)

NextWith(Log(_)) ==
    /\ n < MaxOps
    /\ n' = n + 1
    /\ \/ \E i \in hard.c + 1..Last + 1, k \in 1..2 : \E ts \in Terms(k) :
            /\ i > applied /\ i + k - 1 <= MaxIndex
            /\ (i - 1 \in First..Last => EntryAt(i - 1).t <= ts[1])
            /\ (i - 1 = snap.i => snap.t <= ts[1])
            /\ Append_Eff(Entries(i, ts))
            /\ full' = SubSeq(full, 1, i - 1) \o ts
            /\ applied' = applied
            /\ Log([e |-> "append", i |-> i, ts |-> ts])
       \/ \E t \in {hard.t, hard.t + 1}, c \in {hard.c, Last} :
            /\ t <= MaxTerm /\ c >= hard.c
            /\ (Last > snap.i => t >= ents[Len(ents)].t)
            /\ LET h == [t |-> t, v |-> 1, c |-> c] IN
               /\ h # hard
               /\ Hard_Eff(h)
               /\ Log([e |-> "hard", t |-> t, v |-> 1, c |-> c])
            /\ UNCHANGED <<full, applied>>
       \/ \E i \in {applied + 1, hard.c} : \E m \in Members :
            /\ i > 0 /\ i <= hard.c
            /\ applied' = i
            /\ IF Should(i, m)
               THEN /\ Make_Eff(i, m, n + 1, i)
                    /\ Log([e |-> "make", i |-> i, m |-> Some(m)])
               ELSE /\ UNCHANGED svars
                    /\ Log([e |-> "should", i |-> i, m |-> Some(m)])
            /\ full' = full
       \/ \E i \in {hard.c + 1, Last + 1, Last + 2, snap.i}, t \in {hard.t, hard.t + 1} : \E m \in Members :
            /\ 1 <= i /\ i <= MaxIndex /\ t <= MaxTerm /\ t > 0
            /\ i > hard.c \/ ~Restorable([i |-> i])
            /\ LET s == [i |-> i, t |-> t, m |-> m, d |-> n + 1] IN
               /\ Restore_Eff(s)
               /\ IF Restorable(s)
                  THEN full' = [x \in 1..i |-> IF x = i THEN t ELSE 0] /\ applied' = i
                  ELSE UNCHANGED <<full, applied>>
            /\ Log([e |-> "restore", i |-> i, t |-> t, m |-> Some(m)])
       \/ \E i \in {0, snap.i, applied, Last, Last + 1}, p \in Peers :
            /\ i <= MaxIndex
            /\ Ask_Eff(i, p)
            /\ UNCHANGED <<full, applied>>
            /\ Log([e |-> "ask", i |-> i, p |-> p])
       \/ \E lo \in First - 1..Last, limit \in {-1, 0, 20, 60} :
            /\ SimDepth > 0 /\ lo >= 0 /\ lo < Last + 1
            /\ UNCHANGED <<svars, full, applied>>
            /\ Log([e |-> "read", lo |-> lo, hi |-> Last + 1, limit |-> limit])

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)
MCNext == NextWith(NoLog)
MCSpec == MCInit /\ [][MCNext]_allvars
SimSpec == MCInit /\ [][NextWith(DoLog)]_allvars

Consecutive == Sane
(* Nothing that the snapshot does not cover is missing, and what there is is what *)
(* has been written last.                                                          *)
Complete ==
    /\ Last = Len(full)
    /\ First <= snap.i + 1
    /\ \A i \in First..Last : i \in DOMAIN full /\ EntryAt(i).t = full[i]
(* Snapshots cover what has been applied, and all committed entries are there.    *)
Covered == snap.i <= applied /\ applied <= hard.c /\ hard.c <= Last
SnapshotTerm == snap.i > 0 => full[snap.i] = snap.t
(* The log does not run away from the snapshot once it has been applied.          *)
Bounded == [][(applied' # applied) => applied' - snap'.i <= diff']_allvars
(* Nobody waits for a snapshot that exists.                                        *)
NobodyForgotten == \A p \in DOMAIN asks : ~Satisfies(snap.i, snap.m, p, asks[p])
(* A peer that waits is served by the next snapshot that covers what it needs.    *)
Served == [][\A p \in DOMAIN asks :
                (p \notin DOMAIN asks') => Satisfies(snap'.i, snap'.m, p, asks[p])]_allvars
(* Having taken a snapshot there is no need for another.                           *)
NotTwice == Should(snap.i, snap.m) => snap.i = 0

EmitScript == (TLCGet("level") = SimDepth) => PrintT("SCRIPT " \o ToJson([diff |-> diff, ops |-> hist]))
================================================================================
