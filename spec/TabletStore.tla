------------------------------ MODULE TabletStore ------------------------------
(* The tablet store (apps/tablet_store/service/src/actor.rs): the tables of      *)
(* tablets, replicated by applying the same requests in the same order.          *)
(*                                                                              *)
(* A tablet is [id, v, x]: its position on the ring of its table, its version,   *)
(* and a number that stands for everything else its metadata says. Positions and *)
(* versions are the unsigned 32-bit numbers of the implementation, less 2^31.    *)
EXTENDS Ring, TLC

MinU == -2147483647 - 1
MaxU == 2147483647
Zero == MinU

VARIABLES
    st,      \* st[n]: the tables after the first n - 1 requests; a table maps ids to tablets
    log,     \* the requests that have been agreed on, oldest first
    pool,    \* per command that has been proposed: the request
    at,      \* per replica that has a state: how many requests it has applied
    saved    \* per snapshot: how many requests it covers
svars == <<st, log, pool, at, saved>>

Put(f, k, x) == (k :> x) @@ f

TableOf(tablets) ==
    [i \in {m.id : m \in Range(tablets)} |-> CHOOSE m \in Range(tablets) : m.id = i]
StateOf(tables) ==
    [t \in {b.t : b \in Range(tables)} |-> TableOf((CHOOSE b \in Range(tables) : b.t = t).tablets)]

StoreInit(tables) ==
    /\ st = <<StateOf(tables)>>
    /\ log = <<>>
    /\ pool = <<>>
    /\ at = (1 :> 0)
    /\ saved = <<>>

--------------------------------------------------------------------------------
(* What a request does. All operations see the state before the request, and     *)
(* take effect only if all of them succeed.                                      *)

(* Whether the n-th operation succeeds. An update has to provide the version     *)
(* that follows, and only one update of a tablet can do so.                      *)
Updates(op) == op.k = "update" /\ op.m # <<>>
Follows(s, op) ==
    /\ op.m[1].id \in DOMAIN s[op.t]
    /\ s[op.t][op.m[1].id].v # MaxU
    /\ op.m[1].v = s[op.t][op.m[1].id].v + 1
Succeeds(s, ops, n) ==
    LET op == ops[n] IN
    /\ op.t \in DOMAIN s
    /\ CASE op.k = "list" -> TRUE
         [] op.k = "check" -> op.id \in DOMAIN s[op.t] /\ s[op.t][op.id].v = op.v
         [] op.k = "update" ->
              /\ Updates(op) /\ Follows(s, op)
              /\ ~\E o \in 1..n - 1 :
                    Updates(ops[o]) /\ ops[o].t = op.t /\ ops[o].m[1].id = op.m[1].id /\ Follows(s, ops[o])
         [] OTHER -> FALSE
AllSucceed(s, ops) == \A n \in DOMAIN ops : Succeeds(s, ops, n)

After(s, ops) ==
    IF ~AllSucceed(s, ops) THEN s ELSE
    LET U == {ops[n] : n \in {o \in DOMAIN ops : ops[o].k = "update"}}
    IN  [t \in DOMAIN s |->
          [i \in DOMAIN s[t] |->
            IF \E op \in U : op.t = t /\ op.m[1].id = i
            THEN (CHOOSE op \in U : op.t = t /\ op.m[1].id = i).m[1] ELSE s[t][i]]]

(* The tablets of a range of keys: its end is exclusive, and the tablet of the   *)
(* end may be listed all the same.                                               *)
Least(tbl, f, l) == Cover(DOMAIN tbl, f, IF l = MinU THEN MaxU ELSE l - 1)
Most(tbl, f, l) == Cover(DOMAIN tbl, f, l)
Listed(tbl, f, l, ms) ==
    LET ids == {m.id : m \in Range(ms)} IN
    /\ \A m \in Range(ms) : m.id \in DOMAIN tbl /\ m = tbl[m.id]
    /\ Cardinality(ids) = Len(ms)
    /\ IF f = l THEN ids = DOMAIN tbl \/ ids = Cover(DOMAIN tbl, f, f)
       ELSE Least(tbl, f, l) \subseteq ids /\ ids \subseteq Most(tbl, f, l)

Existing(s, t, id) == IF t \in DOMAIN s /\ id \in DOMAIN s[t] THEN <<s[t][id]>> ELSE <<>>

(* S01: a request is one transaction.                                            *)
(* S02: versions. S03: lists.                                                    *)
Result_Viol(s, ops, n, r) ==
    LET op == ops[n] IN
    IF (r.st = "ok") # Succeeds(s, ops, n)
    THEN IF op.k \in {"check", "update"} THEN {"S02"} ELSE IF op.k = "list" THEN {"S03"} ELSE {"S05"}
    ELSE IF r.t # op.t THEN {"S01"}
    ELSE IF op.t \notin DOMAIN s \/ op.k \in {"add", "remove", "none"}
         THEN IF r.st = "invalid" THEN {} ELSE {"S05"}
    ELSE IF op.k # r.k THEN {"S01"}
    ELSE CASE op.k = "list" -> IF r.f = op.f /\ r.l = op.l /\ Listed(s[op.t], op.f, op.l, r.ms) THEN {} ELSE {"S03"}
           [] op.k = "check" ->
                IF r.st = "ok" THEN IF r.ex = <<>> \/ r.ex = Existing(s, op.t, op.id) THEN {} ELSE {"S02"}
                ELSE IF r.ex = Existing(s, op.t, op.id) THEN {} ELSE {"S02"}
           [] op.k = "update" ->
                IF op.m = <<>> THEN {}
                ELSE IF r.ex = Existing(s, op.t, op.m[1].id) THEN {} ELSE {"S02"}

Response_Viol(s, ops, ok, res) ==
    (IF ok = AllSucceed(s, ops) /\ Len(res) = Len(ops) THEN {} ELSE {"S01"})
    \cup (IF Len(res) # Len(ops) THEN {"S01"}
          ELSE UNION {Result_Viol(s, ops, n, res[n]) : n \in DOMAIN ops})

--------------------------------------------------------------------------------
(* Commands. Only a leader proposes, and only what it understands.               *)
Wellformed(hdr, pl) == hdr = "ok" /\ pl = "ok"
Command_Viol(c, ld, hdr, pl, ops, kind, same, corr) ==
    IF ~corr THEN {"S05"}
    ELSE IF ~ld THEN IF kind = "rejected" THEN {} ELSE {"S05"}
    ELSE IF ~Wellformed(hdr, pl) THEN IF kind = "invalid" THEN {} ELSE {"S05"}
    ELSE IF kind = "event" /\ same THEN {} ELSE {"S05"}
Command_Eff(c, ops, kind) ==
    /\ pool' = IF kind = "event" THEN Put(pool, c, ops) ELSE pool
    /\ UNCHANGED <<st, log, at, saved>>

Commit_Eff(c) ==
    /\ log' = Append(log, pool[c])
    /\ st' = Append(st, After(st[Len(st)], pool[c]))
    /\ UNCHANGED <<pool, at, saved>>

(* S04: every replica does the same. S05: only the owner answers, and does so.   *)
Apply_Viol(r, own, n, corr, ok, res) ==
    IF ~own THEN IF n = 0 THEN {} ELSE {"S05"}
    ELSE IF n # 1 \/ ~corr THEN {"S05"}
    ELSE LET bad == Response_Viol(st[at[r] + 1], log[at[r] + 1], ok, res)
         IN  IF bad # {} THEN bad \cup {"S04"} ELSE {}
Apply_Eff(r) ==
    /\ at' = [at EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<st, log, pool, saved>>

(* S01, S04: a snapshot is the state after the requests applied so far.          *)
Save_Viol(r, tables) == IF StateOf(tables) = st[at[r] + 1] THEN {} ELSE {"S01", "S04"}
Save_Eff(r, n) ==
    /\ saved' = Put(saved, n, at[r])
    /\ UNCHANGED <<st, log, pool, at>>
Load_Eff(r, n) ==
    /\ at' = Put(at, r, saved[n])
    /\ UNCHANGED <<st, log, pool, saved>>

(* S04: a new table has the configured number of tablets, without any contents.  *)
Init_Viol(confs, tables) ==
    IF /\ {b.t : b \in Range(tables)} = {c.t : c \in Range(confs)}
       /\ \A b \in Range(tables) :
            /\ Len(b.tablets) = (CHOOSE c \in Range(confs) : c.t = b.t).n
            /\ Cardinality({m.id : m \in Range(b.tablets)}) = Len(b.tablets)
            /\ \A m \in Range(b.tablets) : m.v = Zero /\ m.x = 0
    THEN {} ELSE {"S04"}
================================================================================
