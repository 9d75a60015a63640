---------------------------- MODULE MetadataCache ----------------------------
(* The tablet metadata cache: maps keys to the tablets that own them, asking   *)
(* the tablet store for the tablets of the regions it does not know.           *)
(*                                                                             *)
(* Every action is split into what is forbidden (_Viol, the properties that    *)
(* the step would break) and what it does (_Eff). The design (MCMetadataCache) *)
(* takes only steps without violations; the trace specification takes the      *)
(* steps that the implementation took and collects their violations.           *)
EXTENDS Ring

VARIABLES
    cf,     \* table -> [r: sequence of regions <<first, last>>, ids: its tablets]
    ver,    \* table -> tablet -> current version in the tablet store
    known,  \* table -> tablet -> latest version the cache has been told (0: none)
    reg,    \* table -> region -> "stale" | "asked" | "fresh"
    reqs,   \* resolve request -> what it still needs
    net     \* correlation id -> list request on its way to the store and back

mvars == <<cf, ver, known, reg, reqs, net>>

MetaInit(config) ==
    /\ cf = config
    /\ ver = [t \in DOMAIN config |-> [i \in config[t].ids |-> 1]]
    /\ known = [t \in DOMAIN config |-> [i \in config[t].ids |-> 0]]
    /\ reg = [t \in DOMAIN config |-> [i \in DOMAIN config[t].r |-> "stale"]]
    /\ reqs = <<>>
    /\ net = <<>>

Region(t, k) == CHOOSE i \in DOMAIN cf[t].r : cf[t].r[i][1] <= k /\ k <= cf[t].r[i][2]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* A request has waiters while some unfinished resolve needs the region.       *)
Waits(t, i) == \E r \in DOMAIN reqs : ~reqs[r].done /\ <<t, i>> \in reqs[r].wait

(* ---- resolve: q is a sequence of [q |-> id, t |-> table, k |-> set of keys] *)
Need(q) == [t \in DOMAIN cf |-> UNION {q[n].k : n \in {n \in DOMAIN q : q[n].t = t}}]
Qids(q) == [t \in DOMAIN cf |-> {q[n].q : n \in {n \in DOMAIN q : q[n].t = t}}]

Resolve_Eff(r, q) ==
    LET need == Need(q)
        wait == UNION {{<<t, i>> : i \in {i \in {Region(t, k) : k \in need[t]} : reg[t][i] # "fresh"}}
                       : t \in DOMAIN cf}
    IN  /\ reqs' = Put(reqs, r, [need |-> need, qids |-> Qids(q), wait |-> wait,
                                 floor |-> known, done |-> FALSE])
        /\ UNCHANGED <<cf, ver, known, reg, net>>

(* ---- list: the cache asks the store for the tablets of some regions         *)
OpRegions(op) == {i \in DOMAIN cf[op.t].r : cf[op.t].r[i] = <<op.f, op.l>>}

List_Viol(c, ops) ==
    IF \/ \E n \in DOMAIN ops : ops[n].t \notin DOMAIN cf
       \/ \E n \in DOMAIN ops : OpRegions(ops[n]) = {}
       \/ \E n \in DOMAIN ops : \E i \in OpRegions(ops[n]) :
              reg[ops[n].t][i] # "stale" \/ ~Waits(ops[n].t, i)
       \/ \E n, m \in DOMAIN ops : n # m /\ ops[n] = ops[m]
       \/ ops = <<>>
    THEN {"M04"} ELSE {}

List_Eff(c, ops) ==
    /\ net' = Put(net, c, [ops |-> ops, res |-> <<>>])
    /\ reg' = [t \in DOMAIN reg |-> [i \in DOMAIN reg[t] |->
                  IF \E n \in DOMAIN ops : ops[n].t = t /\ i \in OpRegions(ops[n])
                  THEN "asked" ELSE reg[t][i]]]
    /\ UNCHANGED <<cf, ver, known, reqs>>

(* ---- exec: the store executes a list request; ok[n] tells whether op n did  *)
Exec_Eff(c, ok) ==
    LET ops == net[c].ops IN
    /\ net' = [net EXCEPT ![c].res = [n \in DOMAIN ops |->
                  [ok |-> ok[n],
                   md |-> [i \in Cover(cf[ops[n].t].ids, ops[n].f, ops[n].l) |-> ver[ops[n].t][i]]]]]
    /\ UNCHANGED <<cf, ver, known, reg, reqs>>

(* ---- dlv: the cache processes the answer to a list request                  *)
Deliver_Eff(c) ==
    LET ops == net[c].ops
        res == net[c].res
        good(t, i) == \E n \in DOMAIN ops : res[n].ok /\ ops[n].t = t /\ i \in OpRegions(ops[n])
        told(t, i) == \E n \in DOMAIN ops : ops[n].t = t /\ i \in OpRegions(ops[n])
        seen(t, id) == {res[n].md[id] : n \in {n \in DOMAIN ops :
                            res[n].ok /\ ops[n].t = t /\ id \in DOMAIN res[n].md}}
    IN  /\ reg' = [t \in DOMAIN reg |-> [i \in DOMAIN reg[t] |->
                      IF good(t, i) THEN "fresh"
                      ELSE IF told(t, i) THEN "stale" ELSE reg[t][i]]]
        /\ known' = [t \in DOMAIN known |-> [id \in DOMAIN known[t] |->
                      LET all == seen(t, id) \cup {known[t][id]}
                      IN  CHOOSE v \in all : \A w \in all : w <= v]]
        /\ reqs' = [r \in DOMAIN reqs |-> [reqs[r] EXCEPT !.wait =
                      {w \in @ : ~good(w[1], w[2])}]]
        /\ net' = [x \in DOMAIN net \ {c} |-> net[x]]
        /\ UNCHANGED <<cf, ver>>

(* ---- commit: somebody updates a tablet in the tablet store                  *)
Commit_Eff(t, id) ==
    /\ ver' = [ver EXCEPT ![t][id] = @ + 1]
    /\ UNCHANGED <<cf, known, reg, reqs, net>>

(* ---- upd: the cache is told the metadata of a tablet after a transaction;   *)
(* a conflict means that the cache was wrong and the region must be asked anew *)
Update_Eff(t, id, v, conflict) ==
    /\ known' = [known EXCEPT ![t][id] = IF v > @ THEN v ELSE @]
    /\ reg' = IF conflict THEN [reg EXCEPT ![t][Region(t, id)] = "stale"] ELSE reg
    /\ UNCHANGED <<cf, ver, reqs, net>>

(* ---- res: a resolve completes. out is a sequence of                         *)
(* [q, t, k: sequence of keys, id, v, m: does the metadata describe (id, v)]   *)
Result_Viol(r, out, hasVersions) ==
    IF r \notin DOMAIN reqs THEN {"M02"} ELSE
    LET q == reqs[r]
        sane(n) == out[n].t \in DOMAIN cf /\ out[n].id \in cf[out[n].t].ids
        keysOf(n) == Range(out[n].k)
    IN  (IF q.done THEN {"M02"} ELSE {})
        \cup
        (IF q.done THEN {} ELSE
         IF \/ \E n \in DOMAIN out : ~sane(n)
         THEN {"M01", "M03"} ELSE
         (IF \/ \E n \in DOMAIN out : \E k \in keysOf(n) :
                    \/ k \notin q.need[out[n].t]
                    \/ out[n].id # Owner(cf[out[n].t].ids, k)
             \/ \E n \in DOMAIN out : out[n].q \notin q.qids[out[n].t]
             \/ \E n \in DOMAIN out : Cardinality(keysOf(n)) # Len(out[n].k)
             \/ \E n, m \in DOMAIN out : n # m /\ out[n].t = out[m].t
                                              /\ out[n].id = out[m].id
             \/ \E t \in DOMAIN cf : \E k \in q.need[t] :
                    ~\E n \in DOMAIN out : out[n].t = t /\ k \in keysOf(n)
          THEN {"M01"} ELSE {})
         \cup
         (IF \E t \in DOMAIN cf : \E k \in q.need[t] :
                    ~\E n \in DOMAIN out : out[n].t = t /\ k \in keysOf(n)
          THEN {"M02"} ELSE {})
         \cup
         (IF hasVersions /\ \E n \in DOMAIN out :
                 \/ ~out[n].m
                 \/ out[n].v < q.floor[out[n].t][out[n].id]
                 \/ out[n].v > ver[out[n].t][out[n].id]
          THEN {"M03"} ELSE {}))

Result_Eff(r) ==
    /\ reqs' = [reqs EXCEPT ![r].done = TRUE]
    /\ UNCHANGED <<cf, ver, known, reg, net>>

(* ---- end: everything that was asked has been answered successfully          *)
End_Viol == IF \E r \in DOMAIN reqs : ~reqs[r].done THEN {"M02"} ELSE {}

(* ---- invariants of the design                                               *)
FreshIsKnown ==
    \A t \in DOMAIN cf : \A i \in DOMAIN cf[t].r :
        reg[t][i] = "fresh" =>
            \A id \in Cover(cf[t].ids, cf[t].r[i][1], cf[t].r[i][2]) : known[t][id] > 0

AskedIsOutstanding ==
    \A t \in DOMAIN cf : \A i \in DOMAIN cf[t].r :
        reg[t][i] = "asked" =>
            \E c \in DOMAIN net : \E n \in DOMAIN net[c].ops :
                net[c].ops[n].t = t /\ i \in OpRegions(net[c].ops[n])

KnownIsPast == \A t \in DOMAIN cf : \A id \in cf[t].ids : known[t][id] <= ver[t][id]
=============================================================================
