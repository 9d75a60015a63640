-------------------------- MODULE TabletCacheSystem --------------------------
(* The whole system as its clients see it: replicas of the tablet cache serve  *)
(* get and put requests; the tablet store, itself replicated, says which       *)
(* contents of a tablet are the current ones; the host keeps the contents and  *)
(* carries all messages. What is asked, executed and answered obeys            *)
(* KeyValueStore, whatever happens inside of the replicas; replicas may be     *)
(* lost with everything they have not answered, and are given messages that    *)
(* make no sense.                                                              *)
EXTENDS KeyValueStore

VARIABLES
    gone     \* replicas that are lost

sysvars == <<kvs, gone>>

SystemInit(config, contents, nodes) ==
    /\ KvInit(config, contents, nodes)
    /\ gone = {}

(* A lost replica does nothing any more.                                       *)
Gone_Viol(n) == IF n \in gone THEN {"A02"} ELSE {}

(* ---- req, exec, dlv, resp as in KeyValueStore                               *)
Names(b) == (IF b \cap {"K02", "K03"} # {} THEN {"A01"} ELSE {}) \cup (IF "K01" \in b THEN {"A02"} ELSE {})
SystemExec_Viol(n, c, ts, new) == Names(Exec_Viol(n, c, ts, new))
SystemResponse_Viol(n, r, res) == Gone_Viol(n) \cup Names(Response_Viol(n, r, res))

(* ---- crash: replica n is lost; what it has asked the host for may still be  *)
(* done                                                                        *)
Crash_Eff(n) ==
    /\ gone' = gone \cup {n}
    /\ UNCHANGED kvs

(* ---- hostile: replica n is given something that makes no sense; ok: it goes *)
(* on                                                                          *)
Hostile_Viol(n, ok) == IF ok THEN {} ELSE {"A03"}

(* ---- end: failures are over; all requests but those of lost replicas are    *)
(* answered                                                                    *)
SystemEnd_Viol(last) ==
    IF \E r \in DOMAIN req : r <= last /\ ~req[r].ans /\ req[r].n \notin gone THEN {"A02"} ELSE {}
=============================================================================
