-------------------------- MODULE MCSnapshotTransfer --------------------------
(* The design of snapshot transfers: leaders that change, replicas that learn of  *)
(* it at different times, requests and answers that overtake each other, get lost *)
(* or come when they are not expected anymore.                                     *)
EXTENDS SnapshotTransfer, TLC, Json, SequencesExt

CONSTANTS N, Chunk, MaxPending, Sizes, MaxStart, MaxTerm, MaxLost, MaxSilent, MaxChange, SimDepth

VARIABLES net,       \* requests and answers under way
          led,       \* the leader of every term so far
          whole,     \* <<sender, id>>: all parts have been together at the receiver
          handed,    \* what receivers have handed to Raft
          early,     \* a transfer has been reported as finished that was not
          cnt, hist
allvars == <<xvars, net, led, whole, handed, early, cnt, hist>>
R == 1..N

MCInit ==
    /\ TransferInit(N, Chunk, MaxPending)
    /\ net = {} /\ whole = {} /\ handed = {} /\ hist = <<>> /\ early = FALSE
    /\ led = <<1>>
    /\ cnt = [s |-> 0, lost |-> 0, silent |-> 0, change |-> 0]

Members(m) == {R} \cup {R \ {p} : p \in R \ {m}}
NextD(m) == Cardinality(dlv[m]) + 1
Request(m, p) ==
    LET t == out[<<m, p>>] IN
    [to |-> p, d |-> NextD(m), id |-> IF t.next = 0 THEN t.s ELSE t.id, k |-> IF t.next = 0 THEN "h" ELSE "c",
     idx |-> t.next, size |-> t.size, s |-> t.s, off |-> t.next * Chunk,
     len |-> Smaller(Chunk, t.size - t.next * Chunk), meta |-> t.s]

(* A step of the network or of Raft, and what the replicas do about it.            *)
NextWith(Log(_)) ==
    \/ \E l \in R :
         /\ Len(led) < MaxTerm
         /\ led' = Append(led, l)
         /\ UNCHANGED <<xvars, net, whole, handed, early, cnt, hist>>
    \/ \E m \in R : \E t \in {who[m].term, Len(led)} : \E ms \in Members(m) :
         /\ t > 0 /\ cnt.change < MaxChange
         /\ <<led[t], t>> # <<who[m].lead, who[m].term>> \/ ms # R
         /\ Change_Eff(m, led[t], t, ms)
         /\ cnt' = [cnt EXCEPT !.change = @ + 1]
         /\ UNCHANGED <<net, led, whole, handed, early>>
         /\ Log([e |-> "change", m |-> m, lead |-> led[t], term |-> t, ids |-> SetToSeq(ms)])
    \/ \E m \in R, size \in Sizes : \E p \in R \ {m} :
         /\ who[m].sends /\ cnt.s < MaxStart
         /\ Start_Eff(m, p, cnt.s + 1, size)
         /\ cnt' = [cnt EXCEPT !.s = @ + 1]
         /\ UNCHANGED <<net, led, whole, handed, early>>
         /\ Log([e |-> "start", m |-> m, p |-> p, size |-> size])
    \/ \E x \in DOMAIN out :
         /\ who[x[1]].sends /\ MaySend(x[1]) /\ Open(x)
         /\ LET q == Request(x[1], x[2]) IN
            /\ Next_Eff(x[1], <<q>>)
            /\ net' = net \cup {[req |-> TRUE, m |-> x[1], p |-> x[2], x |-> q]}
         /\ UNCHANGED <<led, whole, handed, early, cnt>>
         /\ Log([e |-> "next", m |-> x[1]])
    \/ \E q \in net :
         /\ q.req
         /\ LET ack == [k |-> "ack", d |-> q.x.d, id |-> q.x.id, idx |-> q.x.idx, st |-> Accepts(q.p, q.m, q.x)] IN
            net' = (net \ {q}) \cup {[req |-> FALSE, m |-> q.m, p |-> q.p, x |-> ack]}
         /\ Request_Eff(q.p, q.m, q.x)
         /\ whole' = IF inc'[q.p] # <<>> /\ Whole(inc'[q.p][1])
                     THEN whole \cup {<<inc'[q.p][1].from, inc'[q.p][1].id>>} ELSE whole
         /\ UNCHANGED <<led, handed, early, cnt>>
         /\ Log([e |-> "deliver", m |-> q.m, d |-> q.x.d, req |-> TRUE])
    \/ \E q \in net :
         /\ ~q.req
         /\ net' = net \ {q}
         /\ Answer_Eff(q.m, q.p, q.x)
         /\ UNCHANGED <<led, whole, handed, early, cnt>>
         /\ Log([e |-> "deliver", m |-> q.m, d |-> q.x.d, req |-> FALSE])
    \/ \E q \in net :
         /\ q.req /\ cnt.lost < MaxLost
         /\ net' = net \ {q}
         /\ Answer_Eff(q.m, q.p, [k |-> "fail", d |-> q.x.d])
         /\ cnt' = [cnt EXCEPT !.lost = @ + 1]
         /\ UNCHANGED <<led, whole, handed, early>>
         /\ Log([e |-> "lose", m |-> q.m, d |-> q.x.d, req |-> TRUE])
    \/ \E q \in net :
         /\ cnt.silent < MaxSilent
         /\ net' = net \ {q}
         /\ cnt' = [cnt EXCEPT !.silent = @ + 1]
         /\ UNCHANGED <<xvars, led, whole, handed, early>>
         /\ Log([e |-> "lose", m |-> q.m, d |-> q.x.d, req |-> FALSE])
    \/ \E m \in R :
         /\ Received(m) # <<>>
         /\ handed' = handed \cup {Received(m)[1]}
         /\ Received_Eff(m)
         /\ UNCHANGED <<net, led, whole, early, cnt>>
         /\ Log([e |-> "complete", m |-> m])
    \/ \E x \in DOMAIN out :
         /\ who[x[1]].sends /\ Done(x)
         /\ early' = (early \/ (~out[x].bad /\ <<x[1], out[x].id>> \notin whole))
         /\ Sent_Eff(x[1], <<[p |-> x[2], ok |-> ~out[x].bad]>>)
         /\ UNCHANGED <<net, led, whole, handed, cnt>>
         /\ Log([e |-> "complete", m |-> x[1]])

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)
MCNext == NextWith(NoLog)
Working == MCNext /\ cnt' = cnt /\ led' = led
MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(Working)
SimSpec == MCInit /\ [][NextWith(DoLog)]_allvars

(* Whatever is handed to Raft is a snapshot that was sent, complete and unmixed.  *)
Intact == \A h \in handed : h.ok /\ h.s = h.meta /\ h.s > 0
NeverTooEarly == ~early
Limited == \A m \in R : SumPend(Of(m)) <= MaxPending
OnlyLeadersSend == \A x \in DOMAIN out : who[x[1]].sends
(* When nothing gets lost silently, every transfer ends.                          *)
EveryTransferEnds == \A s \in 1..MaxStart :
    (\E x \in DOMAIN out : out[x].s = s) ~> ~(\E x \in DOMAIN out : out[x].s = s)

EmitScript == (TLCGet("level") = SimDepth \/ ~ENABLED NextWith(DoLog)) =>
    PrintT("SCRIPT " \o ToJson([n |-> N, chunk |-> Chunk, max |-> MaxPending, ops |-> hist]))
================================================================================
