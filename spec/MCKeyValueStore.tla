--------------------------- MODULE MCKeyValueStore ---------------------------
(* The design of the key value store: requests are batched, each batch reads   *)
(* its tablets, computes answers and new contents, and commits; a batch whose  *)
(* transaction failed, as far as the node can tell, is tried again.            *)
(* Checked: the design satisfies KeyValueStore whatever is interleaved.        *)
EXTENDS KeyValueStore, TLC, Json, Randomization, SequencesExt

CONSTANTS Nodes, Ks, MinR, MinP, MaxReq, MaxFails, SimDepth

VARIABLES
    ver,     \* tablet -> version
    tx,      \* <<node, x>> -> [st, base, new, res]
    cnt, viol, log
mvs == <<ver, tx, cnt, viol, log>>
allvars == <<kvs, mvs>>

Place == [k \in Ks |-> CASE k = "a" -> 1 [] k = "b" -> 2 [] OTHER -> 3]
Tabs == {2, 3}
Index(k) == Place[k]
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
FreeTx(n) == Least({i \in 1..MaxReq + 1 : <<n, i>> \notin DOMAIN tx})
FreeQ(n) == Least({i \in 1..MaxReq + 1 : i \notin DOMAIN rsv[n] \/ rsv[n][i] = {}})

MCInit ==
    /\ KvInit([minr |-> MinR, minp |-> MinP, ids |-> Tabs, hash |-> Place],
              [k \in Ks |-> IF k = "c" THEN 50 ELSE Absent], Nodes)
    /\ ver = [i \in Tabs |-> 0]
    /\ tx = <<>>
    /\ cnt = [r |-> 0, c |-> 0, fail |-> 0]
    /\ viol = {}
    /\ log = <<>>

\* Requests of a batch take effect in the order in which they were made.
RECURSIVE Play(_, _)
Play(contents, rs) ==
    IF rs = <<>> THEN [d |-> contents, res |-> <<>>] ELSE
    LET r == rs[1]
        k == req[r].k
        old == contents[k]
        res == IF req[r].op = "get" THEN [op |-> "get", x |-> old # Absent, v |-> old]
               ELSE [op |-> "put", x |-> old # Absent, v |-> Absent]
        rest == Play(IF req[r].op = "put" THEN [contents EXCEPT ![k] = req[r].v] ELSE contents, Tail(rs))
    IN  [d |-> rest.d, res |-> PutK(rest.res, r, res)]

Queries(n) == {i \in Tabs : /\ Cardinality(tab[n][i]) >= Max1(cf.minp)
                            /\ ~\E y \in Active(n) : i \in txr[y].tabs}

Dict(i, d) == [k \in {k \in Ks : TabletOf(k) = i /\ d[k] # Absent} |-> d[k]]

NextWith(Log(_)) ==
    \/ \E n \in Nodes : \E k \in Ks : \E op \in {"get", "put"} :
         /\ cnt.r < MaxReq
         /\ Request_Eff(n, cnt.r + 1, k, op, IF op = "put" THEN 101 + cnt.r ELSE Absent)
         /\ cnt' = [cnt EXCEPT !.r = @ + 1]
         /\ UNCHANGED <<ver, tx, viol>>
         /\ Log([e |-> op, n |-> n, k |-> Index(k), v |-> 101 + cnt.r])
    \/ \E n \in Nodes :
         /\ Cardinality(pend[n]) >= Max1(cf.minr)
         /\ LET hs == {HashOf(r) : r \in pend[n]} IN
            /\ viol' = viol \cup Resolve_Viol(n, hs)
            /\ Resolve_Eff(n, FreeQ(n), hs)
         /\ UNCHANGED <<ver, tx, cnt>>
         /\ Log([e |-> "calm", n |-> n, i |-> 1])
    \/ \E n \in Nodes : \E q \in DOMAIN rsv[n] : \E i \in Tabs :
         LET hs == {HashOf(r) : r \in {r \in rsv[n][q] : TabletOf(req[r].k) = i}} IN
         /\ hs # {}
         /\ Resolved_Eff(n, q, i, hs)
         /\ UNCHANGED <<ver, tx, cnt, viol, log>>
    \/ \E n \in Nodes :
         LET ts == SetToSeq(Queries(n))
             qs == [m \in DOMAIN ts |-> {HashOf(r) : r \in tab[n][ts[m]]}]
         IN
         /\ ts # <<>>
         /\ viol' = viol \cup Process_Viol(n, FreeTx(n), qs)
         /\ Process_Eff(n, FreeTx(n), qs)
         /\ tx' = PutK(tx, <<n, FreeTx(n)>>, [st |-> "new", c |-> 0, base |-> <<>>, new |-> <<>>, res |-> <<>>])
         /\ UNCHANGED <<ver, cnt>>
         /\ Log([e |-> "tick", n |-> n])
    \* The tablets are read, the requests executed on the copy, new blobs written.
    \/ \E y \in DOMAIN tx :
         /\ tx[y].st = "new"
         /\ LET t == txr[y]
                p == Play(db, SetToSortSeq(t.reqs, <))
                dirty == {i \in t.tabs : \E r \in t.reqs : req[r].op = "put" /\ TabletOf(req[r].k) = i}
            IN tx' = [tx EXCEPT ![y] = [st |-> "sent", c |-> 0, base |-> [i \in t.tabs |-> ver[i]],
                                        new |-> [i \in dirty |-> Dict(i, p.d)], res |-> p.res]]
         /\ UNCHANGED <<kvs, ver, cnt, viol>>
         /\ Log([e |-> "calm", n |-> y[1], i |-> 4])
    \* The read or write of a blob fails: the transaction fails.
    \/ \E y \in DOMAIN tx :
         /\ tx[y].st = "new" /\ cnt.fail < MaxFails
         /\ cnt' = [cnt EXCEPT !.fail = @ + 1]
         /\ tx' = [tx EXCEPT ![y].st = "failed"]
         /\ UNCHANGED <<kvs, ver, viol>>
         /\ Log([e |-> "answer", n |-> y[1], kind |-> "load", how |-> "fail"])
    \/ \E y \in DOMAIN tx :
         /\ tx[y].st = "sent"
         /\ LET t == tx[y]
                ok == \A i \in DOMAIN t.base : t.base[i] = ver[i]
            IN
            IF ok THEN
              /\ viol' = viol \cup Exec_Viol(y[1], <<y[1], cnt.c + 1>>, DOMAIN t.base, t.new)
              /\ Exec_Eff(y[1], <<y[1], cnt.c + 1>>, DOMAIN t.base, t.new)
              /\ ver' = [i \in Tabs |-> IF i \in DOMAIN t.new THEN ver[i] + 1 ELSE ver[i]]
              /\ tx' = [tx EXCEPT ![y].st = "applied", ![y].c = cnt.c + 1]
              /\ cnt' = [cnt EXCEPT !.c = @ + 1]
            ELSE /\ tx' = [tx EXCEPT ![y].st = "rejected"]
                 /\ UNCHANGED <<kvs, ver, viol, cnt>>
         /\ Log([e |-> "exec", n |-> y[1]])
    \/ \E y \in DOMAIN tx : \E sure \in BOOLEAN :
         /\ tx[y].st \in {"applied", "rejected"} \cup (IF sure THEN {} ELSE {"sent"})
         /\ sure \/ cnt.fail < MaxFails
         /\ cnt' = [cnt EXCEPT !.fail = IF sure THEN @ ELSE @ + 1]
         /\ Deliver_Eff(y[1], <<y[1], tx[y].c>>, sure)
         /\ tx' = [tx EXCEPT ![y].st = IF sure /\ @ = "applied" THEN "ok" ELSE "failed"]
         /\ UNCHANGED <<ver, viol>>
         /\ Log([e |-> "answer", n |-> y[1], kind |-> "ops", how |-> IF sure THEN "ok" ELSE "fail"])
    \/ \E y \in DOMAIN tx :
         /\ tx[y].st \in {"ok", "failed"}
         /\ Outcome_Eff(y[1], y[2], tx[y].st = "ok")
         /\ tx' = IF tx[y].st = "ok" THEN [tx EXCEPT ![y].st = "done"] ELSE DropK(tx, {y})
         /\ UNCHANGED <<ver, cnt, viol>>
         /\ Log([e |-> "tick", n |-> y[1]])
    \/ \E y \in DOMAIN tx :
         /\ tx[y].st = "done"
         /\ IF tx[y].res = <<>> THEN tx' = DropK(tx, {y}) /\ UNCHANGED <<kvs, viol>>
            ELSE LET r == CHOOSE r \in DOMAIN tx[y].res : TRUE IN
                 /\ viol' = viol \cup Response_Viol(y[1], r, tx[y].res[r])
                 /\ Response_Eff(y[1], r, tx[y].res[r])
                 /\ tx' = [tx EXCEPT ![y].res = DropK(@, {r})]
         /\ UNCHANGED <<ver, cnt, log>>

NoLog(o) == log' = log
DoLog(o) == log' = Append(log, o)
MCNext == NextWith(NoLog)
SimNext == NextWith(DoLog)
MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(MCNext /\ cnt'.r = cnt.r)
SimSpec == MCInit /\ [][SimNext]_allvars

DesignHolds == viol = {}
(* Every explanation of what was observed agrees with the tablets.             *)
Explainable == \A k \in Ks : conf[k] # {} /\ \A e \in conf[k] : e.val = db[k]
(* With thresholds of one, every request is answered.                          *)
EveryRequestAnswered == \A r \in 1..MaxReq :
    (r \in DOMAIN req) ~> (r \in DOMAIN req /\ req[r].ans)

EmitScript == (TLCGet("level") = SimDepth) => PrintT("SCRIPT " \o ToJson([minr |-> MinR, minp |-> MinP, ops |-> log]))
=============================================================================
