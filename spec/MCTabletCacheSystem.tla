------------------------- MODULE MCTabletCacheSystem -------------------------
(* The design of the whole system: the design of the key value store, on       *)
(* replicas that can be lost at any point, possibly after they have asked the  *)
(* tablet store for something that it then does, and that are given answers    *)
(* and messages that make no sense.                                            *)
EXTENDS MCKeyValueStore, TabletCacheSystem

CONSTANTS MaxGone

systemvars == <<allvars, gone>>

SysInit == MCInit /\ gone = {}

\* A lost replica does not change any more; what it has asked for may be done.
StaysGone == \A n \in gone :
    /\ pend'[n] = pend[n] /\ rsv'[n] = rsv[n] /\ tab'[n] = tab[n]
    /\ \A r \in DOMAIN req' : req'[r].n = n => r \in DOMAIN req /\ req'[r] = req[r]
    /\ \A y \in DOMAIN tx : y[1] = n =>
         /\ y \in DOMAIN tx'
         /\ tx'[y] # tx[y] => tx[y].st = "sent" /\ tx'[y].st \in {"applied", "rejected"}
    /\ \A y \in DOMAIN tx' : y[1] = n => y \in DOMAIN tx

Crash(Log(_)) == \E n \in Nodes \ gone :
    /\ Cardinality(gone) < MaxGone
    /\ Crash_Eff(n)
    /\ UNCHANGED <<ver, tx, cnt, viol>>
    /\ Log([e |-> "crash", n |-> n])

\* In place of an answer a replica gets something that makes no sense: a failure.
Garble(Log(_)) == \E y \in DOMAIN tx :
    /\ y[1] \notin gone
    /\ tx[y].st \in {"sent", "applied", "rejected"}
    /\ cnt.fail < MaxFails
    /\ cnt' = [cnt EXCEPT !.fail = @ + 1]
    /\ Deliver_Eff(y[1], <<y[1], tx[y].c>>, FALSE)
    /\ tx' = [tx EXCEPT ![y].st = "failed"]
    /\ viol' = viol \cup Hostile_Viol(y[1], TRUE)
    /\ UNCHANGED <<ver, gone>>
    /\ Log([e |-> "garble", n |-> y[1], kind |-> "ops"])

\* At any time.
Nonsense(Log(_)) == \E n \in Nodes \ gone :
    /\ viol' = viol \cup Hostile_Viol(n, TRUE)
    /\ UNCHANGED <<kvs, ver, tx, cnt, gone>>
    /\ Log([e |-> "hostile", n |-> n])

SysNext == (NextWith(NoLog) /\ StaysGone /\ UNCHANGED gone) \/ Crash(NoLog) \/ Garble(NoLog)
Hostiles == Cardinality({i \in DOMAIN log : log[i].e = "hostile"})
SysSimNext ==
    \/ NextWith(DoLog) /\ StaysGone /\ UNCHANGED gone
    \/ Len(log) > 12 /\ Crash(DoLog)
    \/ Garble(DoLog)
    \/ Hostiles < Len(log) \div 8 /\ Nonsense(DoLog)
    \/ UNCHANGED systemvars

Works == NextWith(NoLog) /\ StaysGone /\ UNCHANGED gone /\ cnt'.r = cnt.r
SysSpec == SysInit /\ [][SysNext]_systemvars /\ WF_systemvars(Works)
SysSimSpec == SysInit /\ [][SysSimNext]_systemvars

\* At the end, requests of replicas that are left are answered.
AllAnswered == \A r \in 1..MaxReq :
    (r \in DOMAIN req) ~> (r \in DOMAIN req /\ (req[r].ans \/ req[r].n \in gone))
\* Whatever is lost, what clients of other replicas have been told remains true.
TellsNoLies == \A n \in gone : \A r \in DOMAIN req :
    req[r].n = n /\ req[r].op = "put" /\ req[r].ans => \E c \in okc : c[1] = n
=============================================================================
