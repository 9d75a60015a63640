--------------------------- MODULE MCMetadataCache ---------------------------
(* The design of the metadata cache on a small ring: every interleaving of     *)
(* resolves, list requests that fail or overtake each other, commits by others *)
(* and notifications of conflicts.                                             *)
EXTENDS MetadataCache, TLC, Json, Randomization

CONSTANTS
    Last,       \* the positions of the ring are 0..Last
    Size,       \* size of a region
    IdSets,     \* the sets of tablets to consider
    MaxResolves, MaxKeys, MaxVersion, MaxNet, MaxFails, MaxConflicts,
    SimDepth    \* 0: all behaviours; otherwise the length of the random ones

VARIABLES cnt,   \* number of list requests sent, of failures, of conflicts
          hist   \* the steps taken, only recorded when behaviours are generated

Keys == 0..Last
T == "A"
NRegions == (Last \div Size) + 1
Regions == [i \in 1..NRegions |-> <<(i - 1) * Size, IF i * Size - 1 > Last THEN Last ELSE i * Size - 1>>]

MCInit ==
    /\ \E ids \in IdSets : MetaInit([t \in {T} |-> [r |-> Regions, ids |-> ids]])
    /\ cnt = [list |-> 0, fail |-> 0, conflict |-> 0]
    /\ hist = <<>>

(* The implementation answers from the tablets it was told for the region of   *)
(* the key, with the latest metadata it has been told for the tablet.          *)
Local(k) == LET i == Region(T, k) IN Owner(Cover(cf[T].ids, Regions[i][1], Regions[i][2]), k)

SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S

Answer(r) ==
    LET ids == {Local(k) : k \in reqs[r].need[T]}
    IN  [n \in 1..Cardinality(ids) |->
            LET id == SetToSeq(ids)[n]
            IN  [q |-> CHOOSE q \in reqs[r].qids[T] : TRUE, t |-> T, id |-> id,
                 k |-> SetToSeq({k \in reqs[r].need[T] : Local(k) = id}),
                 v |-> known[T][id], m |-> TRUE]]

Stale == {i \in 1..NRegions : reg[T][i] = "stale" /\ Waits(T, i)}
ListOps == [n \in 1..Cardinality(Stale) |->
              [t |-> T, f |-> Regions[SetToSeq(Stale)[n]][1], l |-> Regions[SetToSeq(Stale)[n]][2]]]

CompleteReady(r) ==
    ~reqs[r].done /\ reqs[r].wait = {}

(* Random behaviours consider few of the many arguments of a step, so that all *)
(* kinds of steps are equally likely.                                          *)
Some(S) == IF SimDepth = 0 \/ Cardinality(S) <= 2 THEN S ELSE RandomSubset(2, S)

NextWith(Log(_)) ==
    \/ \E ks \in Some(SUBSET Keys) :
         /\ Cardinality(DOMAIN reqs) < MaxResolves
         /\ Cardinality(ks) <= MaxKeys /\ ks # {}
         /\ LET r == Cardinality(DOMAIN reqs) + 1
                q == <<[q |-> r, t |-> T, k |-> ks]>>
            IN  /\ Resolve_Eff(r, q)
                /\ Log([e |-> "resolve", q |-> <<[q |-> r, t |-> T, k |-> SetToSeq(ks)]>>])
         /\ cnt' = cnt
    \/ /\ Stale # {} /\ Cardinality(DOMAIN net) < MaxNet
       /\ List_Eff(cnt.list + 1, ListOps)
       /\ cnt' = [cnt EXCEPT !.list = @ + 1]
       /\ Log([e |-> "list"])
    \/ \E c \in DOMAIN net :
         /\ net[c].res = <<>>
         /\ \E ok \in Some([DOMAIN net[c].ops -> BOOLEAN]) :
              /\ (\E n \in DOMAIN ok : ~ok[n]) => cnt.fail < MaxFails
              /\ Exec_Eff(c, ok)
              /\ cnt' = [cnt EXCEPT !.fail = IF \E n \in DOMAIN ok : ~ok[n] THEN @ + 1 ELSE @]
              /\ Log([e |-> "exec", c |-> c, ok |-> ok])
    \/ \E c \in DOMAIN net :
         /\ net[c].res # <<>>
         /\ Deliver_Eff(c)
         /\ cnt' = cnt
         /\ Log([e |-> "dlv", c |-> c])
    \/ \E id \in cf[T].ids :
         /\ ver[T][id] < MaxVersion
         /\ Commit_Eff(T, id)
         /\ cnt' = cnt
         /\ Log([e |-> "commit", t |-> T, id |-> id])
    \/ \E id \in cf[T].ids : \E v \in 1..ver[T][id] : \E x \in BOOLEAN :
         /\ cnt.conflict < MaxConflicts
         /\ Update_Eff(T, id, v, x)
         /\ cnt' = [cnt EXCEPT !.conflict = @ + 1]
         /\ Log([e |-> "upd", t |-> T, id |-> id, v |-> v, x |-> x])

Complete ==
    \E r \in DOMAIN reqs : CompleteReady(r) /\ Result_Eff(r) /\ UNCHANGED <<cnt, hist>>

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)

MCNext == NextWith(NoLog) \/ Complete
SimNext == NextWith(DoLog) \/ Complete

(* Progress of everybody but those who start resolves, commits and conflicts.  *)
Serve ==
    \/ /\ Stale # {} /\ Cardinality(DOMAIN net) < MaxNet
       /\ List_Eff(cnt.list + 1, ListOps)
       /\ cnt' = [cnt EXCEPT !.list = @ + 1] /\ hist' = hist
    \/ \E c \in DOMAIN net : net[c].res = <<>>
         /\ Exec_Eff(c, [n \in DOMAIN net[c].ops |-> TRUE]) /\ UNCHANGED <<cnt, hist>>
    \/ \E c \in DOMAIN net : net[c].res # <<>> /\ Deliver_Eff(c) /\ UNCHANGED <<cnt, hist>>
    \/ Complete

allvars == <<cf, ver, known, reg, reqs, net, cnt, hist>>
MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(Serve)
SimSpec == MCInit /\ [][SimNext]_allvars

(* The answers that the design gives break no property, and it asks properly.  *)
AnswersAreRight == \A r \in DOMAIN reqs : CompleteReady(r) => Result_Viol(r, Answer(r), TRUE) = {}
AsksAreNeeded == Stale # {} => List_Viol(cnt.list + 1, ListOps) = {}
CoverIsRight ==
    \A f, x \in Keys : f <= x => Cover(cf[T].ids, f, x) = {Owner(cf[T].ids, k) : k \in f..x}

EveryResolveCompletes == \A r \in 1..MaxResolves : (r \in DOMAIN reqs) ~> (r \in DOMAIN reqs /\ reqs[r].done)

EmitScript ==
    (TLCGet("level") = SimDepth) =>
        PrintT("SCRIPT " \o ToJson([n |-> Last + 1, size |-> Size,
            tables |-> <<[t |-> T, ids |-> SetToSeq(cf[T].ids)]>>, ops |-> hist]))
=============================================================================
