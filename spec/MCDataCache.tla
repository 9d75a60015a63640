------------------------------ MODULE MCDataCache ------------------------------
(* The design of the data cache: every interleaving of loads and stores with a *)
(* storage that fails, and that answers late and with other contents.          *)
EXTENDS DataCache, TLC, Json, Randomization

CONSTANTS
    Foreign,     \* metadata of blobs (or of tablets without a blob) that may be loaded
    Contents,    \* contents that may be stored
    MaxBatches, MaxBatchSize, MaxFails,
    SimDepth     \* 0: all behaviours; otherwise the length of the random ones

ForeignSmall == {[id |-> 1, v |-> 1, u |-> 1, h |-> 1], [id |-> 2, v |-> 0, u |-> 0, h |-> NoHash]}
ForeignLarge == ForeignSmall \cup
    {[id |-> 3, v |-> 4, u |-> 2, h |-> 2], [id |-> 4, v |-> 0, u |-> 0, h |-> NoHash],
     [id |-> 5, v |-> 2, u |-> 3, h |-> NoHash]}

VARIABLES cnt, hist
allvars == <<bound, key, val, durable, net, batch, zero, cnt, hist>>

(* The uri of a new version is determined by tablet, version and contents.     *)
UriOf(id, v, c) == 1000 + 100 * id + 10 * v + c

Some(S) == IF SimDepth = 0 \/ Cardinality(S) <= 2 THEN S ELSE RandomSubset(2, S)

(* What may be loaded: foreign blobs and whatever has been stored before.      *)
Stored == {m \in UNION {RangeD(batch[b].ms) : b \in DOMAIN batch} : m.u > 1000 /\ m.u \in durable}
Loadable == Foreign \cup Stored
Tablets == {m.id : m \in Foreign}

Seqs(S) == UNION {[1..n -> S] : n \in 0..MaxBatchSize}

MCInit == DataInit /\ cnt = [c |-> 0, fail |-> 0, tick |-> TRUE] /\ hist = <<>>

Sent == cnt' = [cnt EXCEPT !.c = @ + 1, !.tick = TRUE]
Moved == cnt' = [cnt EXCEPT !.tick = TRUE]
Failing(bad) == IF bad THEN cnt.fail < MaxFails ELSE TRUE

StoreArg(id, v, c) == [id |-> id, v |-> v, c |-> c, sz |-> c, id2 |-> id, v2 |-> v + 1,
                       u2 |-> UriOf(id, v + 1, c), s2 |-> c, h2 |-> c]

(* A batch reports what is in the cache, or a failure as soon as there is one. *)
Ready(b) ==
    /\ ~batch[b].done
    /\ \/ batch[b].fail
       \/ \A n \in DOMAIN batch[b].ms : batch[b].ms[n].u # 0 => KeyOf(batch[b].ms[n].u) = "cache"
Answer(b) ==
    IF batch[b].k = "store" THEN <<>> ELSE
    [n \in DOMAIN batch[b].ms |->
        LET m == batch[b].ms[n]
        IN  [id |-> m.id, v |-> m.v, u |-> m.u, h |-> m.h, c |-> IF m.u = 0 THEN 0 ELSE val[m.u]]]

Serve(b) == Ready(b) /\ Result_Eff(b) /\ Moved /\ hist' = hist

Request ==
    \/ \E u \in DOMAIN key : key[u] = "wanted" /\ LoadRequest_Eff(cnt.c + 1, u) /\ Sent /\ hist' = hist
    \/ zero.sent < zero.asked /\ LoadRequest_Eff(cnt.c + 1, 0) /\ Sent /\ hist' = hist
    \/ \E u \in DOMAIN key : key[u] = "unsent" /\ StoreRequest_Eff(cnt.c + 1, u, bound[u].c)
                             /\ Sent /\ hist' = hist

NextWith(Log(_)) ==
    \/ \E ms \in Some(Seqs(Loadable)) :
         LET b == Cardinality(DOMAIN batch) + 1 IN
         /\ b <= MaxBatches
         /\ Load_Eff(b, ms) /\ Moved
         /\ Log([e |-> "load", ms |-> ms])
    \/ \E ids \in Some({S \in SUBSET Tablets : Cardinality(S) <= MaxBatchSize}) :
       \E cs \in Some([ids -> Contents]) :
         LET b == Cardinality(DOMAIN batch) + 1
             s == CHOOSE s \in [1..Cardinality(ids) -> ids] : RangeD(s) = ids
             ts == [n \in DOMAIN s |-> StoreArg(s[n], 1, cs[s[n]])]
         IN /\ b <= MaxBatches
            /\ Store_Viol(b, ts, TRUE) = {}
            /\ Store_Eff(b, ts, TRUE) /\ Moved
            /\ Log([e |-> "store", ts |-> [n \in DOMAIN s |-> [id |-> s[n], v |-> 1, c |-> cs[s[n]]]]])
    \/ \E c \in DOMAIN net : net[c].k = "load" /\
         \E kind \in {"good", "fail", "other", "garbage"} :
         /\ Failing(kind # "good")
         /\ LET u == net[c].u
                good == IF u = 0 THEN 0 ELSE IF bound[u].c = NoHash THEN 1 ELSE bound[u].c
            IN CASE kind = "good" -> LoadResponse_Eff(c, TRUE, good)
                 [] kind = "fail" -> LoadResponse_Eff(c, FALSE, 0)
                 [] kind = "other" -> LoadResponse_Eff(c, TRUE, 1 + good)
                 [] OTHER -> LoadResponse_Eff(c, TRUE, Garbage)
         /\ cnt' = [cnt EXCEPT !.tick = TRUE, !.fail = IF kind = "good" THEN @ ELSE @ + 1]
         /\ Log([e |-> "lresp", c |-> c, kind |-> kind])
    \/ \E c \in DOMAIN net : net[c].k = "store" /\
         \E ok \in BOOLEAN :
         /\ Failing(~ok)
         /\ StoreResponse_Eff(c, ok)
         /\ cnt' = [cnt EXCEPT !.tick = TRUE, !.fail = IF ok THEN @ ELSE @ + 1]
         /\ Log([e |-> "sresp", c |-> c, ok |-> ok])
    \/ /\ cnt.tick
       /\ Tick_Eff
       /\ cnt' = [cnt EXCEPT !.tick = FALSE]
       /\ Log([e |-> "tick"])

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)

MCNext == NextWith(NoLog) \/ Request \/ (\E b \in DOMAIN batch : Serve(b))
SimNext ==
    IF ENABLED Request THEN Request
    ELSE NextWith(DoLog) \/ (\E b \in DOMAIN batch : Serve(b))

Answers ==
    \E c \in DOMAIN net :
        LET u == net[c].u
            good == IF u = 0 THEN 0 ELSE IF bound[u].c = NoHash THEN 1 ELSE bound[u].c
        IN IF net[c].k = "load" THEN LoadResponse_Eff(c, TRUE, good) /\ Moved /\ hist' = hist
           ELSE StoreResponse_Eff(c, TRUE) /\ Moved /\ hist' = hist

MCSpec == MCInit /\ [][MCNext]_allvars
          /\ WF_allvars(Request) /\ WF_allvars(Answers) /\ WF_allvars(\E b \in DOMAIN batch : Serve(b))
SimSpec == MCInit /\ [][SimNext]_allvars

AnswersAreRight ==
    \A b \in DOMAIN batch : Ready(b) => Result_Viol(b, ~batch[b].fail, batch[b].fail, Answer(b)) = {}
BlobsAreImmutable == [][\A u \in DOMAIN bound : bound'[u] = bound[u]]_allvars
EveryBatchCompletes == \A b \in 1..MaxBatches : (b \in DOMAIN batch) ~> (b \in DOMAIN batch /\ batch[b].done)

EmitScript == (TLCGet("level") = SimDepth) => PrintT("SCRIPT " \o ToJson([ops |-> hist]))
=============================================================================
