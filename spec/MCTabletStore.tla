----------------------------- MODULE MCTabletStore -----------------------------
(* The design of the tablet store: clients that propose requests, an order that  *)
(* is agreed on, replicas that apply it and that start from snapshots.           *)
EXTENDS TabletStore, Json, Randomization

CONSTANTS
    Tables,      \* the tables and their tablets
    Positions, Versions,
    MaxCommands, MaxOps, MaxSaves, Replicas,
    SimDepth     \* 0: all behaviours; otherwise the length of the random ones

TablesOne == {[t |-> "A", ids |-> {1, 3}]}
TablesTwo == {[t |-> "A", ids |-> {1, 3}], [t |-> "B", ids |-> {2}]}
TablesSim == {[t |-> "A", ids |-> {1, 3, 5}], [t |-> "B", ids |-> {0, 2}]}
SmallMin == 0
SmallMax == 5

VARIABLES pend, hist
allvars == <<st, log, pool, at, saved, pend, hist>>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Some(S, n) == IF SimDepth = 0 \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)

Layout == {[t |-> b.t, tablets |-> SeqOf({[id |-> i, v |-> 0, x |-> 0] : i \in b.ids})] : b \in Tables}
MCInit == StoreInit(SeqOf(Layout)) /\ pend = {} /\ hist = <<>>

(* What a client puts into a tablet tells which request has done so.             *)
Checks == UNION {{[k |-> "check", t |-> b.t, id |-> i, v |-> v] : i \in b.ids, v \in Versions} : b \in Tables}
Puts(c) == UNION {{[k |-> "update", t |-> b.t, m |-> <<[id |-> i, v |-> v, x |-> c]>>] :
                        i \in b.ids, v \in Versions} : b \in Tables}
Lists == UNION {{[k |-> "list", t |-> b.t, f |-> f, l |-> l] : f \in Positions, l \in Positions} : b \in Tables}
            \cup {[k |-> "add", t |-> "A"]}
Ops(c) == IF SimDepth = 0 THEN Checks \cup Puts(c)
          ELSE RandomSubset(3, Puts(c)) \cup RandomSubset(1, Checks) \cup RandomSubset(1, Lists)
Requests(c) == LET S == Ops(c) IN UNION {[1..n -> S] : n \in 0..MaxOps}

Plain(op) == IF op.k # "update" THEN op
             ELSE [k |-> "update", t |-> op.t, id |-> op.m[1].id, v |-> op.m[1].v]

NextWith(Log(_)) ==
    \/ LET c == Cardinality(DOMAIN pool) + 1 IN
       /\ c <= MaxCommands
       /\ \E ops \in Some(Requests(c), 2) :
            /\ Command_Eff(c, ops, "event")
            /\ pend' = pend \cup {c}
            /\ Log([e |-> "cmd", r |-> 1, ops |-> [n \in DOMAIN ops |-> Plain(ops[n])]])
    \/ \E c \in pend :
         /\ Commit_Eff(c)
         /\ pend' = pend \ {c}
         /\ Log([e |-> "commit", n |-> Cardinality({d \in pend : d < c}) + 1])
    \/ \E r \in DOMAIN at :
         /\ at[r] < Len(log)
         /\ Apply_Eff(r) /\ UNCHANGED pend
         /\ Log([e |-> "apply", r |-> r])
    \/ \E r \in DOMAIN at :
         /\ Cardinality(DOMAIN saved) < MaxSaves
         /\ Save_Eff(r, Cardinality(DOMAIN saved) + 1) /\ UNCHANGED pend
         /\ Log([e |-> "save", r |-> r])
    \/ \E r \in 1..Replicas, s \in DOMAIN saved :
         /\ r \in DOMAIN at => at[r] < saved[s]
         /\ Load_Eff(r, s) /\ UNCHANGED pend
         /\ Log([e |-> "load", r |-> r, s |-> s])

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)
MCSpec == MCInit /\ [][NextWith(NoLog)]_allvars
SimSpec == MCInit /\ [][NextWith(DoLog)]_allvars

(* Versions of a tablet follow one another, and every version is put there by    *)
(* one request, which has changed nothing or all that it was to change.          *)
VersionsFollow ==
    \A n \in DOMAIN log : \A t \in DOMAIN st[n] : \A i \in DOMAIN st[n][t] :
        \/ st[n + 1][t][i] = st[n][t][i]
        \/ st[n + 1][t][i].v = st[n][t][i].v + 1
OneTransaction ==
    \A n \in DOMAIN log :
        LET ok == AllSucceed(st[n], log[n]) IN
        \A o \in DOMAIN log[n] :
            LET op == log[n][o] IN
            op.k = "update" =>
                (st[n + 1][op.t][op.m[1].id] = op.m[1]) = ok
(* Whoever checks a tablet and updates another one in one request has seen the   *)
(* tablet as it is when the update takes effect.                                 *)
ChecksHold ==
    \A n \in DOMAIN log : AllSucceed(st[n], log[n]) =>
        \A o \in DOMAIN log[n] : log[n][o].k = "check" => st[n][log[n][o].t][log[n][o].id].v = log[n][o].v
SameTablets == \A n \in DOMAIN st : \A t \in DOMAIN st[1] : DOMAIN st[n][t] = DOMAIN st[1][t]
(* A range is listed with the owner of every position in it.                     *)
Between(f, l) == IF f < l THEN {p \in MinU..MaxU : f <= p /\ p < l} ELSE {p \in MinU..MaxU : f <= p \/ p < l}
ListsCover == Len(st) = 1 /\ pool = <<>> =>
    \A t \in DOMAIN st[1] : \A f, l \in MinU..MaxU : f # l =>
        LET ids == DOMAIN st[1][t] IN
        /\ Least(st[1][t], f, l) = {Owner(ids, p) : p \in Between(f, l)}
        /\ Most(st[1][t], f, l) = {Owner(ids, p) : p \in Between(f, l) \cup {l}}

EmitScript == (TLCGet("level") = SimDepth) =>
    PrintT("SCRIPT " \o ToJson([tables |-> SeqOf({[t |-> b.t, ids |-> SeqOf(b.ids)] : b \in Tables}), ops |-> hist]))
================================================================================
