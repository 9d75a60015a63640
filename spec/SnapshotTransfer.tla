---------------------------- MODULE SnapshotTransfer ----------------------------
(* How snapshots get from the leader to the replicas that need them: in chunks,   *)
(* the first of which comes with the header, over a network that may lose, delay  *)
(* and reorder them. Every replica has a processor, which sends while the replica *)
(* leads and receives otherwise.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    cfg,     \* [chunk: size of a chunk, max: how many may be under way]
    who,     \* replica -> [lead, term, sends]
    out,     \* <<sender, receiver>> -> [id, s, size, next, acked, pend: delivery -> chunk, bad]
    inc,     \* replica -> <<>> or <<[from, id, size, first, s, meta, got]>>
    ids,     \* replica -> ids of the snapshots it has started to send, in order
    dlv      \* replica -> deliveries it has used
xvars == <<cfg, who, out, inc, ids, dlv>>

Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Add(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Smaller(a, b) == IF a < b THEN a ELSE b
SetOf(s) == {s[n] : n \in DOMAIN s}

Chunks(size, chunk) == IF size = 0 THEN 1 ELSE (size - 1) \div chunk + 1
Count(t) == Chunks(t.size, cfg.chunk)

TransferInit(n, chunk, max) ==
    /\ cfg = [chunk |-> chunk, max |-> max]
    /\ who = [m \in 1..n |-> [lead |-> 0, term |-> 0, sends |-> FALSE]]
    /\ out = [x \in {} |-> 0]
    /\ inc = [m \in 1..n |-> <<>>]
    /\ ids = [m \in 1..n |-> {}]
    /\ dlv = [m \in 1..n |-> {}]

Of(m) == {x \in DOMAIN out : x[1] = m}

(* The cluster changes. A replica that learns of another leader or term, or that  *)
(* it is no longer a member, gives up what it is sending and receiving; transfers *)
(* to replicas that have left are given up as well. Raft is told.                  *)
Ends(m, lead, term, members) ==
    IF ~who[m].sends THEN {}
    ELSE IF who[m].lead # lead \/ who[m].term # term \/ m \notin members THEN Of(m)
    ELSE {x \in Of(m) : x[2] \notin members}
Change_Viol(m, lead, term, members, told) ==
    IF /\ SetOf(told) = {x[2] : x \in Ends(m, lead, term, members)}
       /\ Len(told) = Cardinality(SetOf(told))
    THEN {} ELSE {"P02"}
Change_Eff(m, lead, term, members) ==
    /\ who' = [who EXCEPT ![m] = [lead |-> lead, term |-> term, sends |-> lead = m]]
    /\ out' = Drop(out, Ends(m, lead, term, members))
    /\ inc' = IF ~who[m].sends /\ (who[m].lead # lead \/ who[m].term # term \/ m \notin members)
              THEN [inc EXCEPT ![m] = <<>>] ELSE inc
    /\ UNCHANGED <<cfg, ids, dlv>>

(* Sending. A new transfer takes the place of one to the same replica. Its id is  *)
(* chosen by the sender and shows in the first request.                            *)
Start_Eff(m, p, s, size) ==
    /\ out' = Add(out, <<m, p>>, [id |-> 0, s |-> s, size |-> size, next |-> 0, acked |-> 0,
                                  pend |-> [d \in {} |-> 0], bad |-> FALSE])
    /\ UNCHANGED <<cfg, who, inc, ids, dlv>>

RECURSIVE SumPend(_)
SumPend(S) == IF S = {} THEN 0 ELSE
    LET x == CHOOSE x \in S : TRUE IN Cardinality(DOMAIN out[x].pend) + SumPend(S \ {x})
Open(x) == ~out[x].bad /\ out[x].next < Count(out[x])
MaySend(m) == SumPend(Of(m)) < cfg.max /\ \E x \in Of(m) : Open(x)

(* x: a request as it is emitted: to, d: delivery, id: of the snapshot, k: header *)
(* or chunk, idx, size; s, off, len: which part of which snapshot it contains,    *)
(* meta: it comes with the metadata of the snapshot.                               *)
Fits(m, x) ==
    LET t == out[<<m, x.to>>] IN
    /\ x.idx = t.next
    /\ x.k = (IF t.next = 0 THEN "h" ELSE "c")
    /\ x.off = t.next * cfg.chunk
    /\ x.len = Smaller(cfg.chunk, t.size - x.off)
    /\ x.s = t.s
    /\ x.k = "h" => x.size = t.size /\ x.meta = t.s
    /\ IF t.next = 0 THEN x.id # 0 /\ x.id \notin ids[m] ELSE x.id = t.id
    /\ x.d \notin dlv[m]
Next_Viol(m, got) ==
    IF got = <<>> THEN (IF MaySend(m) THEN {"P02"} ELSE {})
    ELSE IF ~MaySend(m) THEN {"P02"}
    ELSE IF <<m, got[1].to>> \notin Of(m) THEN {"P02"}
    ELSE IF ~Open(<<m, got[1].to>>) THEN {"P02"}
    ELSE IF ~Fits(m, got[1]) THEN {"P01"} ELSE {}
Next_Eff(m, got) ==
    IF got = <<>> THEN UNCHANGED xvars ELSE
    LET x == got[1] IN
    /\ out' = [out EXCEPT ![<<m, x.to>>] = [@ EXCEPT !.id = x.id, !.next = @ + 1,
                                                     !.pend = Add(@, x.d, x.idx)]]
    /\ ids' = [ids EXCEPT ![m] = @ \cup {x.id}]
    /\ dlv' = [dlv EXCEPT ![m] = @ \cup {x.d}]
    /\ UNCHANGED <<cfg, who, inc>>

(* Receiving. A header starts over. A chunk counts if it is one of the snapshot   *)
(* that is being received, and has the right size.                                 *)
RCount(r) == Chunks(r.size, r.first)
Takes(r, from, x) ==
    /\ from = r.from /\ x.id = r.id
    /\ x.idx < RCount(r)
    /\ x.len = (IF x.idx < RCount(r) - 1 THEN r.first ELSE r.size - x.idx * r.first)
Accepts(m, from, x) ==
    CASE x.k = "h" -> ~who[m].sends
      [] x.k = "c" -> ~who[m].sends /\ inc[m] # <<>> /\ Takes(inc[m][1], from, x)
      [] OTHER -> FALSE
(* ack: what the replica answers: st: it accepts. An answer names what it is for. *)
Request_Viol(m, from, x, ack) ==
    (IF ack.st = Accepts(m, from, x) THEN {} ELSE {"P01"})
    \cup (IF /\ ack.to = from /\ ack.d = x.d
             /\ x.k \in {"h", "c"} => ack.id = x.id /\ ack.idx = x.idx
          THEN {} ELSE {"P02"})
Part(x) == [idx |-> x.idx, s |-> x.s, off |-> x.off, len |-> x.len]
Request_Eff(m, from, x) ==
    /\ inc' = IF ~Accepts(m, from, x) THEN inc
              ELSE IF x.k = "h"
              THEN [inc EXCEPT ![m] = <<[from |-> from, id |-> x.id, size |-> x.size, first |-> x.len,
                                         s |-> x.s, meta |-> x.meta, got |-> {Part(x)}]>>]
              ELSE [inc EXCEPT ![m] = <<[@[1] EXCEPT !.got = {g \in @ : g.idx # x.idx} \cup {Part(x)}]>>]
    /\ UNCHANGED <<cfg, who, out, ids, dlv>>

Whole(r) == Cardinality(r.got) = RCount(r)
(* What the parts are, put together: a snapshot, or something else (-1).          *)
Together(r) ==
    IF /\ \A g \in r.got : g.s = r.s
       /\ \A g \in r.got : g.off = g.idx * r.first
    THEN r.s ELSE -1
(* res: nothing, or from whom, which snapshot (metadata and data), ok             *)
Received(m) ==
    IF who[m].sends \/ inc[m] = <<>> THEN <<>>
    ELSE IF ~Whole(inc[m][1]) THEN <<>>
    ELSE IF inc[m][1].meta < 0 THEN <<[ok |-> FALSE, from |-> 0, s |-> 0, meta |-> 0]>>
    ELSE <<[ok |-> TRUE, from |-> inc[m][1].from, s |-> Together(inc[m][1]), meta |-> inc[m][1].meta]>>
Received_Viol(m, res) == IF res = Received(m) THEN {} ELSE {"P01"}
Received_Eff(m) ==
    /\ inc' = IF Received(m) = <<>> THEN inc ELSE [inc EXCEPT ![m] = <<>>]
    /\ UNCHANGED <<cfg, who, out, ids, dlv>>

(* Answers. The transfer goes on if the answer is for what has been sent and says *)
(* that it has been accepted; answers for another transfer are too late.          *)
Bad(x) == out' = [out EXCEPT ![x] = [@ EXCEPT !.bad = TRUE]]
Answer_Eff(m, p, a) ==
    LET x == <<m, p>> IN
    /\ IF ~who[m].sends \/ x \notin DOMAIN out THEN UNCHANGED out
       ELSE IF a.k = "fail"
       THEN (IF a.d \in DOMAIN out[x].pend THEN Bad(x) ELSE UNCHANGED out)
       ELSE IF a.k = "garbage" THEN Bad(x)
       ELSE IF a.id # out[x].id \/ a.id = 0 THEN UNCHANGED out
       ELSE LET t == out[x]
                known == a.idx < Count(t) /\ a.d \in DOMAIN t.pend
                right == known /\ t.pend[a.d] = a.idx /\ a.st
            IN out' = [out EXCEPT ![x] = [t EXCEPT
                        !.pend = IF known THEN Drop(t.pend, {a.d}) ELSE t.pend,
                        !.acked = IF right THEN t.acked + 1 ELSE t.acked,
                        !.bad = t.bad \/ ~right]]
    /\ UNCHANGED <<cfg, who, inc, ids, dlv>>

Done(x) == out[x].bad \/ out[x].acked = Count(out[x])
(* res: nothing, or to whom, ok                                                    *)
Sent_Viol(m, res) ==
    IF res = <<>> THEN (IF \E x \in Of(m) : Done(x) THEN {"P02"} ELSE {})
    ELSE IF <<m, res[1].p>> \notin Of(m) THEN {"P02"}
    ELSE IF ~Done(<<m, res[1].p>>) \/ res[1].ok = out[<<m, res[1].p>>].bad THEN {"P02"} ELSE {}
Sent_Eff(m, res) ==
    /\ out' = IF res = <<>> THEN out ELSE Drop(out, {<<m, res[1].p>>})
    /\ UNCHANGED <<cfg, who, inc, ids, dlv>>
================================================================================
