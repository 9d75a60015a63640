---------------------------- MODULE KeyValueStore ----------------------------
(* The key value store on top of transactions over tablets. Several nodes      *)
(* accept get and put requests, batch them per tablet and execute each batch   *)
(* in a transaction; failed transactions are tried again.                      *)
(*                                                                             *)
(* Linearizability is decided by carrying, per key, the set of all             *)
(* explanations of what was observed so far: the value of the key and the      *)
(* requests that took effect but were not answered yet, with their results.    *)
(* Requests take effect only when a transaction of their node is applied that  *)
(* covers the tablet of their key. A transaction whose answer is lost is tried *)
(* again: its requests may take effect twice (at least once semantics).        *)
EXTENDS Ring

Absent == -1     \* the key has no value

VARIABLES
    cf,      \* [minr, minp: batching thresholds, ids: tablets, hash: key -> position]
    db,      \* key -> committed value
    req,     \* request -> [n, k, op, v, ans]
    conf,    \* key -> set of explanations [val, done: put -> [x: existed, c], seen: get -> <<value, c>>s]
    okc,     \* <<node, commit>> confirmed to the node
    pend,    \* node -> requests whose tablet is unknown
    rsv,     \* node -> query -> requests whose tablet is being resolved
    tab,     \* node -> tablet -> requests waiting for a transaction
    txr,     \* <<node, transaction>> -> [tabs, reqs], active ones
    due      \* node -> what it has to do before its turn ends: look up tablets, start with tablets

kvs == <<cf, db, req, conf, okc, pend, rsv, tab, txr, due>>

NothingDue == [resolve |-> FALSE, tabs |-> {}]

PutK(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropK(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
TabletOf(k) == Owner(cf.ids, cf.hash[k])
Max1(x) == IF x < 1 THEN 1 ELSE x

KvInit(config, contents, nodes) ==
    /\ cf = config
    /\ db = contents
    /\ req = <<>>
    /\ conf = [k \in DOMAIN contents |-> {[val |-> contents[k], done |-> <<>>, seen |-> <<>>]}]
    /\ okc = {}
    /\ pend = [n \in nodes |-> {}]
    /\ rsv = [n \in nodes |-> <<>>]
    /\ tab = [n \in nodes |-> [i \in config.ids |-> {}]]
    /\ txr = <<>>
    /\ due = [n \in nodes |-> NothingDue]

(* ---- req: a client makes a request                                          *)
Request_Eff(n, r, k, op, v) ==
    /\ req' = PutK(req, r, [n |-> n, k |-> k, op |-> op, v |-> v, ans |-> FALSE])
    /\ pend' = [pend EXCEPT ![n] = @ \cup {r}]
    /\ UNCHANGED <<cf, db, conf, okc, rsv, tab, txr, due>>

HashOf(r) == cf.hash[req[r].k]

(* ---- rsv: a node asks for the tablets of keys; hs: positions                *)
Resolve_Viol(n, hs) ==
    IF \/ Cardinality(pend[n]) < Max1(cf.minr)
       \/ hs = {}
       \/ \E h \in hs : ~\E r \in pend[n] : HashOf(r) = h
    THEN {"K04"} ELSE {}

Resolve_Eff(n, q, hs) ==
    LET rs == {r \in pend[n] : HashOf(r) \in hs} IN
    /\ pend' = [pend EXCEPT ![n] = @ \ rs]
    /\ rsv' = [rsv EXCEPT ![n] = PutK(@, q, (IF q \in DOMAIN @ THEN @[q] ELSE {}) \cup rs)]
    /\ due' = [due EXCEPT ![n].resolve = FALSE]
    /\ UNCHANGED <<cf, db, req, conf, okc, tab, txr>>

(* ---- rsd: the tablets are known; one result: query, tablet, positions       *)
Resolved_Eff(n, q, i, hs) ==
    LET all == IF q \in DOMAIN rsv[n] THEN rsv[n][q] ELSE {}
        rs == {r \in all : HashOf(r) \in hs}
    IN
    /\ rsv' = [rsv EXCEPT ![n] = PutK(@, q, all \ rs)]
    /\ tab' = [tab EXCEPT ![n][i] = @ \cup rs]
    /\ UNCHANGED <<cf, db, req, conf, okc, pend, txr, due>>

(* ---- proc: a transaction is started for sets of positions, one per tablet   *)
Active(n) == {y \in DOMAIN txr : y[1] = n}

Process_Viol(n, x, qs) ==
    LET owner(m) == Owner(cf.ids, CHOOSE h \in qs[m] : TRUE) IN
    IF \/ qs = <<>>
       \/ \E m \in DOMAIN qs : qs[m] = {}
       \/ \E m \in DOMAIN qs : qs[m] # {} /\
            LET i == owner(m) IN
            \/ \E h \in qs[m] : Owner(cf.ids, h) # i
            \/ Cardinality(tab[n][i]) < Max1(cf.minp)
            \/ \E h \in qs[m] : ~\E r \in tab[n][i] : HashOf(r) = h
            \/ \E y \in Active(n) : i \in txr[y].tabs
            \/ \E o \in DOMAIN qs : o # m /\ qs[o] # {} /\ owner(o) = i
    THEN {"K04"} ELSE {}

Process_Eff(n, x, qs) ==
    LET hs == UNION {qs[m] : m \in DOMAIN qs}
        tabs == {Owner(cf.ids, h) : h \in hs}
        rs == UNION {{r \in tab[n][i] : HashOf(r) \in hs} : i \in tabs}
        old == IF <<n, x>> \in DOMAIN txr THEN txr[<<n, x>>] ELSE [tabs |-> {}, reqs |-> {}]
    IN
    /\ tab' = [tab EXCEPT ![n] = [i \in DOMAIN @ |-> @[i] \ rs]]
    /\ txr' = PutK(txr, <<n, x>>, [tabs |-> old.tabs \cup tabs, reqs |-> old.reqs \cup rs])
    /\ due' = [due EXCEPT ![n].tabs = @ \ tabs]
    /\ UNCHANGED <<cf, db, req, conf, okc, pend, rsv>>

(* ---- out: the outcome of a transaction as told to the store                 *)
Outcome_Eff(n, x, ok) ==
    LET y == <<n, x>>
        t == IF y \in DOMAIN txr THEN txr[y] ELSE [tabs |-> {}, reqs |-> {}]
    IN
    /\ txr' = DropK(txr, {y})
    /\ tab' = IF ok THEN tab ELSE [tab EXCEPT ![n] = [i \in DOMAIN @ |->
                  @[i] \cup {r \in t.reqs : ~req[r].ans /\ TabletOf(req[r].k) = i}]]
    /\ UNCHANGED <<cf, db, req, conf, okc, pend, rsv, due>>

(* ---- tick: a node gets its turn. Whatever has reached its threshold by then is *)
(* taken up before the turn ends (tack).                                          *)
Ready(n) == {i \in cf.ids : /\ Cardinality(tab[n][i]) >= Max1(cf.minp)
                            /\ ~\E y \in Active(n) : i \in txr[y].tabs}
Tick_Eff(n) ==
    /\ due' = [due EXCEPT ![n] = [resolve |-> Cardinality(pend[n]) >= Max1(cf.minr), tabs |-> Ready(n)]]
    /\ UNCHANGED <<cf, db, req, conf, okc, pend, rsv, tab, txr>>
Tack_Viol(n) == IF due[n] = NothingDue THEN {} ELSE {"K04"}

(* ---- exec: the tablet store applies a transaction of node n covering the    *)
(* tablets ts; new: tablet -> contents (key -> value) of the updated ones      *)
ApplyPut(e, r, c) ==
    [e EXCEPT !.val = req[r].v, !.done = PutK(@, r, [x |-> e.val # Absent, c |-> c])]

\* The gets gs may have read the current value in transaction c.
Visit(e, gs, c) ==
    [e EXCEPT !.seen = [r \in DOMAIN @ \cup gs |->
        (IF r \in DOMAIN @ THEN @[r] ELSE {}) \cup (IF r \in gs THEN {<<e.val, c>>} ELSE {})]]

RECURSIVE Explain(_, _, _, _)
Explain(e, ps, gs, c) ==
    {e} \cup UNION {Explain(Visit(ApplyPut(e, r, c), gs, c), ps \ {r}, gs, c) : r \in ps}

Open(n, k) == {r \in DOMAIN req : ~req[r].ans /\ req[r].n = n /\ req[r].k = k}
OpenOps(n, k, op) == {r \in Open(n, k) : req[r].op = op}

Target(k, new) ==
    LET i == TabletOf(k) IN
    IF i \in DOMAIN new THEN (IF k \in DOMAIN new[i] THEN new[i][k] ELSE Absent) ELSE db[k]

Explained(n, c, k, new) ==
    LET gs == OpenOps(n, k, "get")
        all == UNION {Explain(Visit(e, gs, c), OpenOps(n, k, "put") \ DOMAIN e.done, gs, c) : e \in conf[k]}
    IN  {e \in all : e.val = Target(k, new)}

Covered(ts) == {k \in DOMAIN db : TabletOf(k) \in ts}

Exec_Viol(n, c, ts, new) ==
    IF \/ \E i \in DOMAIN new : \E k \in DOMAIN new[i] : k \notin DOMAIN db
       \/ \E i \in DOMAIN new : \E k \in DOMAIN new[i] : k \in DOMAIN db /\ TabletOf(k) # i
       \/ \E i \in DOMAIN new : ~\E r \in DOMAIN req :    \* gets write nothing
             req[r].n = n /\ ~req[r].ans /\ req[r].op = "put" /\ TabletOf(req[r].k) = i
       \/ \E k \in Covered(ts) : Explained(n, c, k, new) = {}
    THEN {"K02"} ELSE {}

Exec_Eff(n, c, ts, new) ==
    /\ conf' = [k \in DOMAIN conf |-> IF k \in Covered(ts) THEN Explained(n, c, k, new) ELSE conf[k]]
    /\ db' = [k \in DOMAIN db |-> IF k \in Covered(ts) THEN Target(k, new) ELSE db[k]]
    /\ UNCHANGED <<cf, req, okc, pend, rsv, tab, txr, due>>

(* ---- dlv: the node gets the answer to an applied commit; sure: it is told   *)
(* the outcome. Otherwise it considers the transaction failed.                 *)
Undo(e, c) ==
    [e EXCEPT !.done = DropK(@, {r \in DOMAIN @ : @[r].c = c}),
              !.seen = [r \in DOMAIN @ |-> {s \in @[r] : s[2] # c}]]

Deliver_Eff(n, c, sure) ==
    /\ okc' = IF sure THEN okc \cup {c} ELSE okc
    /\ conf' = IF sure THEN conf ELSE [k \in DOMAIN conf |-> {Undo(e, c) : e \in conf[k]}]
    /\ UNCHANGED <<cf, db, req, pend, rsv, tab, txr, due>>

(* ---- resp: the node answers a request                                       *)
\* Took effect in a transaction out of ok, with result res.
Took(e, r, ok) ==
    IF req[r].op = "put" THEN r \in DOMAIN e.done /\ e.done[r].c \in ok
    ELSE r \in DOMAIN e.seen /\ \E s \in e.seen[r] : s[2] \in ok
Fits(e, r, res, ok) ==
    /\ Took(e, r, ok)
    /\ IF req[r].op = "put" THEN e.done[r].x = res.x
       ELSE /\ \E s \in e.seen[r] : s[2] \in ok /\ s[1] = res.v
            /\ res.x = (res.v # Absent)
Commits(e) == {e.done[r].c : r \in DOMAIN e.done} \cup {s[2] : s \in UNION {e.seen[r] : r \in DOMAIN e.seen}}

Response_Viol(n, r, res) ==
    IF r \notin DOMAIN req THEN {"K01"} ELSE
    IF req[r].n # n \/ req[r].ans \/ req[r].op # res.op THEN {"K01"} ELSE
    LET es == conf[req[r].k]
        early == ~\E e \in es : Took(e, r, okc)
        wrong == ~\E e \in es : Fits(e, r, res, IF early THEN Commits(e) ELSE okc)
    IN  (IF early THEN {"K03"} ELSE {}) \cup (IF wrong THEN {"K02"} ELSE {})

Response_Eff(n, r, res) ==
    /\ req' = [req EXCEPT ![r].ans = TRUE]
    /\ conf' = [conf EXCEPT ![req[r].k] =
                  LET fit == {e \in @ : Fits(e, r, res, okc)}
                      good == IF fit = {} THEN {e \in @ : Fits(e, r, res, Commits(e))} ELSE fit
                      es == IF good = {} THEN @ ELSE good
                  IN  {[e EXCEPT !.done = DropK(@, {r}), !.seen = DropK(@, {r})] : e \in es}]
    /\ UNCHANGED <<cf, db, okc, pend, rsv, tab, txr, due>>

(* ---- end: failures are over and more than enough requests followed those    *)
(* up to the last one that counts                                              *)
End_Viol(last) == IF \E r \in DOMAIN req : r <= last /\ ~req[r].ans THEN {"K01"} ELSE {}
=============================================================================
