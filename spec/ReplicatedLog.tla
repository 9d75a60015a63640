---------------------------- MODULE ReplicatedLog ----------------------------
(* A cluster of replicas of a state machine (named counters that are changed   *)
(* by compare and swap), as its clients and its operator see it.               *)
(*                                                                             *)
(* There is one history of committed commands. Every replica applies a prefix  *)
(* of it, entry by entry or by loading a snapshot. The state of a replica is   *)
(* a function of the length of its prefix. The replica that has proposed a     *)
(* command answers it when it applies it. The configuration of the cluster     *)
(* changes one replica at a time, at definite points of the history.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    cf,      \* [init: name -> [v, p], eph]
    log,     \* the history: sequence of [i: index, u: command]
    cst,     \* cst[n + 1]: the counters after n commands of the history
    pos,     \* replica -> length of its prefix
    props,   \* command -> [r: proposer, c: correlation id, k, ex, nw, p]
    turn,    \* replica -> [cmd, due, ask]: what it still has to do in the current call
    chain,   \* the history of configurations: [add, n, v, i: index]
    cand,    \* replica -> indices of chain it may be at
    asked,   \* change id -> [r, add, n, lead, st]
    seen,    \* replica -> latest report on the cluster [lead, term: latest as leader, v, pend]
    leads,   \* term -> leader
    camp,    \* replica -> latest term it has asked for votes in
    hard,    \* replica -> latest [term, vote, commit] it has to keep
    mode,    \* replica -> "up", "lame", "stopping", "down"
    time     \* replica -> the largest instant its host has handed in

rlvars == <<cf, log, cst, pos, props, turn, chain, cand, asked, seen, leads, camp, hard, mode>>

PutR(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Idle == [cmd |-> <<>>, due |-> <<>>, ask |-> {}]
Unseen == [lead |-> 0, term |-> 0, v |-> {}, pend |-> FALSE]

Val(st, k) == IF k \in DOMAIN st THEN st[k] ELSE [v |-> 0, p |-> 0]
Same(a, b) == \A k \in DOMAIN a \cup DOMAIN b : Val(a, k) = Val(b, k)

RlInit(init, eph) ==
    /\ cf = [init |-> init, eph |-> eph]
    /\ log = <<>>
    /\ cst = <<init>>
    /\ pos = <<>>
    /\ props = <<>>
    /\ turn = <<>>
    /\ chain = <<>>
    /\ cand = <<>>
    /\ asked = <<>>
    /\ seen = <<>>
    /\ leads = <<>>
    /\ camp = <<>>
    /\ hard = <<>>
    /\ mode = <<>>
    /\ time = <<>>

Up(r) == r \in DOMAIN mode /\ mode[r] \in {"up", "lame"}
\* Whatever a replica does that does not take part: V07.
Alive(r) == IF Up(r) THEN {} ELSE {"V07"}

(* ---- time: the host hands in instants, not necessarily in order. What a      *)
(*      replica takes for the time never goes back. Its application, and the   *)
(*      sessions that it attests, are told this time. The application is told  *)
(*      which replica it belongs to, its configuration, and whether it leads.  *)
Time(r) == IF r \in DOMAIN time THEN time[r] ELSE 0
Now(r, given) == IF given > Time(r) THEN given ELSE Time(r)

Time_Eff(r, given) == time' = PutR(time, r, Now(r, given))
Clock_Viol(r, given, now) == IF now # Now(r, given) THEN {"V08"} ELSE {}
Told_Viol(r, given, now, id, cfg, lead, is) ==
    Clock_Viol(r, given, now) \cup (IF id # r \/ ~cfg \/ lead # is THEN {"V08"} ELSE {})

(* ---- start: a replica is started; the first one leads                       *)
Start_Eff(r, leader) ==
    /\ pos' = PutR(pos, r, 0)
    /\ turn' = PutR(turn, r, Idle)
    /\ mode' = PutR(mode, r, "up")
    /\ seen' = PutR(seen, r, Unseen)
    /\ camp' = PutR(camp, r, 0)
    /\ hard' = PutR(hard, r, [term |-> 0, vote |-> 0, commit |-> 0])
    /\ chain' = IF leader /\ ~cf.eph THEN <<[add |-> TRUE, n |-> r, v |-> {r}, i |-> 0]>> ELSE chain
    /\ cand' = PutR(cand, r, IF leader THEN {1} ELSE {0})
    /\ UNCHANGED <<cf, log, cst, props, asked, leads>>

(* ---- cmd: the state machine of r is given a command; it leads or not; the   *)
(*      command is well formed or not                                          *)
Command_Viol(r, lead) ==
    Alive(r) \cup IF ~cf.eph /\ lead /\ seen[r].lead # r THEN {"V05"} ELSE {}

Refusal(st) == [st |-> st, old |-> 0, new |-> 0, full |-> FALSE]

Command_Eff(r, c, lead, ok, op) ==
    /\ turn' = [turn EXCEPT ![r] =
                  IF lead /\ ok THEN [@ EXCEPT !.cmd = PutR(@, c, op)]
                  ELSE [@ EXCEPT !.due = PutR(@, c, IF ok THEN {Refusal("rej")}
                                                    ELSE IF lead THEN {Refusal("inv")}
                                                    ELSE {Refusal("inv"), Refusal("rej")})]]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, asked, seen, leads, camp, hard, mode>>

(* ---- prop: r proposes command u for the request with correlation id c       *)
Propose_Viol(r, c) ==
    Alive(r) \cup IF c \notin DOMAIN turn[r].cmd THEN {"V02"} ELSE {}

Propose_Eff(r, c, u) ==
    /\ props' = PutR(props, u, turn[r].cmd[c] @@ [r |-> r, c |-> c])
    /\ turn' = [turn EXCEPT ![r].cmd = [x \in DOMAIN @ \ {c} |-> @[x]]]
    /\ UNCHANGED <<cf, log, cst, pos, chain, cand, asked, seen, leads, camp, hard, mode>>

(* ---- apply: r applies command u with index i                                *)
LastIndex == IF log = <<>> THEN -1 ELSE log[Len(log)].i

Apply_Viol(r, i, own, u, c) ==
    LET n == pos[r] + 1 IN
    Alive(r)
    \cup (IF u \notin DOMAIN props THEN {"V01"}
          ELSE IF n <= Len(log) THEN (IF log[n] # [i |-> i, u |-> u] THEN {"V01"} ELSE {})
          ELSE IF \E m \in DOMAIN log : log[m].u = u THEN {"V01"}
          ELSE IF i <= LastIndex /\ ~cf.eph THEN {"V01"} ELSE {})
    \cup (IF u \in DOMAIN props /\ (own # (props[u].r = r) \/ c # props[u].c) THEN {"V02"} ELSE {})

\* The answer of compare and swap and the counters afterwards.
Cas(st, op) ==
    LET old == Val(st, op.k) IN
    IF old.v = op.ex
    THEN [st |-> PutR(st, op.k, [v |-> op.nw, p |-> op.p]),
          res |-> [st |-> "ok", old |-> old.v, new |-> op.nw, full |-> TRUE]]
    ELSE [st |-> st, res |-> [st |-> "arg", old |-> old.v, new |-> old.v, full |-> TRUE]]

Apply_Eff(r, i, own, u, c) ==
    LET n == pos[r] + 1
        o == Cas(cst[n], props[u])
    IN
    /\ pos' = [pos EXCEPT ![r] = n]
    /\ log' = IF n > Len(log) THEN Append(log, [i |-> i, u |-> u]) ELSE log
    /\ cst' = IF n > Len(log) THEN Append(cst, o.st) ELSE cst
    /\ turn' = IF own THEN [turn EXCEPT ![r].due = PutR(@, c, {o.res})] ELSE turn
    /\ UNCHANGED <<cf, props, chain, cand, asked, seen, leads, camp, hard, mode>>

(* ---- resp: r answers the request with correlation id c                      *)
Response_Viol(r, c, res) ==
    Alive(r)
    \cup (IF c \notin DOMAIN turn[r].due THEN {"V02"}
          ELSE IF res \in turn[r].due[c] THEN {}
          ELSE IF res.full /\ \E x \in turn[r].due[c] : x.full THEN {"V03"} ELSE {"V02"})

Response_Eff(r, c) ==
    /\ turn' = [turn EXCEPT ![r].due = [x \in DOMAIN @ \ {c} |-> @[x]]]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, asked, seen, leads, camp, hard, mode>>

(* ---- done: a call of r ends; everything has been answered                   *)
Done_Viol(r) ==
    (IF turn[r].cmd # <<>> \/ turn[r].due # <<>> THEN {"V02"} ELSE {})
    \cup (IF turn[r].ask # {} THEN {"V05"} ELSE {})
    \cup (IF mode[r] = "stopping" THEN {"V07"} ELSE {})
    \cup (IF cf.eph /\ \E u \in DOMAIN props : props[u].r = r /\ ~\E m \in DOMAIN log : log[m].u = u
          THEN {"V07"} ELSE {})

Done_Eff(r) ==
    /\ turn' = [turn EXCEPT ![r] = Idle]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, asked, seen, leads, camp, hard, mode>>

(* ---- save: a snapshot of r                                                  *)
\* The first replica determines the initial counters: the others count from their first snapshot.
Save_Viol(r, vals) ==
    Alive(r) \cup IF (cand[r] = {0} /\ ~cf.eph) \/ Same(vals, cst[pos[r] + 1]) THEN {} ELSE {"V04"}

(* ---- load: r loads a snapshot of history h; afterwards it has counters st   *)
Load_Viol(r, h, vals, st) ==
    Alive(r)
    \cup (IF Len(h) > Len(log) \/ \E m \in DOMAIN h : h[m] # log[m] THEN {"V01"}
          ELSE IF Len(h) < pos[r] THEN {"V01"}
          ELSE IF ~Same(vals, cst[Len(h) + 1]) \/ ~Same(st, cst[Len(h) + 1]) THEN {"V04"} ELSE {})

Load_Eff(r, h) ==
    /\ pos' = [pos EXCEPT ![r] = Len(h)]
    /\ cand' = [cand EXCEPT ![r] =
                 LET low == CHOOSE m \in @ : \A x \in @ : m <= x IN
                 {m \in 1..Len(chain) : m >= low /\ (Len(h) < Len(log) => chain[m].i < log[Len(h) + 1].i)}]
    /\ UNCHANGED <<cf, log, cst, props, turn, chain, asked, seen, leads, camp, hard, mode>>

(* ---- chg, chgr: a change of the configuration is requested and answered     *)
Change_Eff(r, id, add, n, legal, lead) ==
    /\ asked' = PutR(asked, id, [r |-> r, add |-> add, n |-> n, legal |-> legal, lead |-> lead, st |-> "open"])
    /\ turn' = [turn EXCEPT ![r].ask = @ \cup {id}]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, seen, leads, camp, hard, mode>>

\* Changes that have become effective beyond the first configuration.
Effective(add, n) == Cardinality({m \in DOMAIN chain : m > 1 /\ chain[m].add = add /\ chain[m].n = n})
Possible(add, n, but) ==
    Cardinality({x \in DOMAIN asked : /\ asked[x].add = add /\ asked[x].n = n
                                      /\ asked[x].legal /\ asked[x].st # "rejected" /\ x # but})
OpenOf(r) == {x \in DOMAIN asked : asked[x].r = r /\ asked[x].st = "pending"}
LastVoter(v, add, n) == ~add /\ v = {n}

Changed_Viol(r, id, st) ==
    Alive(r) \cup
    IF id \notin turn[r].ask THEN {"V05"} ELSE
    LET a == asked[id] IN
    CASE st = "pending" ->
           IF ~a.lead \/ ~a.legal \/ OpenOf(r) # {} THEN {"V05"} ELSE {}
      [] st = "rejected" ->
           IF \/ Effective(a.add, a.n) > Possible(a.add, a.n, id)
              \/ /\ a.legal /\ seen[r].lead = r /\ ~seen[r].pend
                 /\ ~LastVoter(seen[r].v, a.add, a.n)
           THEN {"V05"} ELSE {}
      [] OTHER -> {"V05"}

\* A change that has become effective already, in the same call, is not open any more.
Changed_Eff(r, id, st) ==
    /\ asked' = [asked EXCEPT ![id].st = IF st = "pending" /\ @ = "made" THEN "made" ELSE st]
    /\ turn' = [turn EXCEPT ![r].ask = @ \ {id}]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, seen, leads, camp, hard, mode>>

(* ---- conf: r makes configuration v effective by adding or removing n, entry i *)
Known(r, i) == {m \in 2..Len(chain) : m - 1 \in cand[r] /\ chain[m].i = i}
New(r, add, n, v, i) ==
    /\ chain # <<>>
    /\ Len(chain) \in cand[r]
    /\ i > chain[Len(chain)].i /\ i > LastIndex
    /\ v = IF add THEN chain[Len(chain)].v \cup {n} ELSE chain[Len(chain)].v \ {n}
    /\ v # {}
    /\ Effective(add, n) < Possible(add, n, 0)

Configure_Viol(r, add, n, v, i) ==
    LET c == [add |-> add, n |-> n, v |-> v, i |-> i] IN
    Alive(r) \cup IF (Known(r, i) # {} /\ \A m \in Known(r, i) : chain[m] = c) \/ New(r, add, n, v, i)
                  THEN {} ELSE {"V05"}

Configure_Eff(r, add, n, v, i) ==
    LET k == Known(r, i) IN
    /\ chain' = IF k = {} THEN Append(chain, [add |-> add, n |-> n, v |-> v, i |-> i]) ELSE chain
    /\ cand' = [cand EXCEPT ![r] = IF k = {} THEN {Len(chain) + 1} ELSE k]
    /\ asked' = [x \in DOMAIN asked |->
                   IF asked[x].r = r /\ asked[x].add = add /\ asked[x].n = n /\ asked[x].st \in {"open", "pending"}
                   THEN [asked[x] EXCEPT !.st = "made"] ELSE asked[x]]
    /\ UNCHANGED <<cf, log, cst, pos, props, turn, seen, leads, camp, hard, mode>>

(* ---- chk: r reports on the cluster                                          *)
Report_Viol(r, lead, term, v, pend) ==
    Alive(r) \cup
    (IF \/ lead \notin {0, r}
        \/ lead = 0 /\ (v # {} \/ pend)
        \/ lead = r /\ (IF seen[r].lead = r THEN term < seen[r].term ELSE term <= seen[r].term)
        \/ lead = r /\ term \in DOMAIN leads /\ leads[term] # r
        \/ lead = r /\ v \notin {chain[m].v : m \in cand[r] \ {0}}
        \/ lead = r /\ seen[r].lead = r /\ term = seen[r].term /\ OpenOf(r) # {} /\ ~pend
     THEN {"V05"} ELSE {})
    \cup
    \* Who is lame may still win the election it has stood for before.
    (IF mode[r] = "lame" /\ lead = r /\ seen[r].lead # r /\ term # camp[r] THEN {"V07"} ELSE {})

Report_Eff(r, lead, term, v, pend) ==
    /\ seen' = [seen EXCEPT ![r] = [lead |-> lead, term |-> IF lead = r THEN term ELSE @.term,
                                     v |-> v, pend |-> pend]]
    /\ leads' = IF lead = r THEN PutR(leads, term, r) ELSE leads
    \* Who is not the leader any more does not know what becomes of a change.
    /\ asked' = IF lead = r THEN asked
                ELSE [x \in DOMAIN asked |-> IF asked[x].r = r /\ asked[x].st = "pending"
                                             THEN [asked[x] EXCEPT !.st = "left"] ELSE asked[x]]
    /\ turn' = [turn EXCEPT ![r].ask = @ \ {"report"}]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, camp, hard, mode>>

(* ---- camp: r asks for votes in a term                                       *)
Campaign_Viol(r, term) ==
    Alive(r) \cup (IF mode[r] = "lame" /\ term # camp[r] THEN {"V07"} ELSE {})
             \cup (IF term <= seen[r].term THEN {"V05"} ELSE {})
Campaign_Eff(r, term) ==
    /\ camp' = [camp EXCEPT ![r] = term]
    /\ UNCHANGED <<cf, log, cst, pos, props, turn, chain, cand, asked, seen, leads, hard, mode>>

(* ---- hard: what r has to keep, lest it vote twice or forget commitments     *)
Hard_Viol(r, term, vote, commit) ==
    Alive(r) \cup IF \/ term < hard[r].term
                     \/ term = hard[r].term /\ hard[r].vote # 0 /\ vote # hard[r].vote
                  THEN {"V05"} ELSE {}
             \cup IF commit < hard[r].commit THEN {"V01"} ELSE {}
Hard_Eff(r, term, vote, commit) ==
    /\ hard' = [hard EXCEPT ![r] = [term |-> term, vote |-> vote, commit |-> commit]]
    /\ UNCHANGED <<cf, log, cst, pos, props, turn, chain, cand, asked, seen, leads, camp, mode>>

Ask_Eff(r) ==
    /\ turn' = [turn EXCEPT ![r].ask = @ \cup {"report"}]
    /\ UNCHANGED <<cf, log, cst, pos, props, chain, cand, asked, seen, leads, camp, hard, mode>>

(* ---- rst: r reports the index it has applied                                *)
State_Viol(r, index) ==
    Alive(r) \cup
    IF \/ pos[r] > 0 /\ index < log[pos[r]].i
       \/ pos[r] < Len(log) /\ index >= log[pos[r] + 1].i
    THEN {"V05"} ELSE {}

(* ---- lame, stop, stopped, crash: life of a replica                          *)
Mode_Eff(r, m) ==
    /\ mode' = [mode EXCEPT ![r] = m]
    /\ UNCHANGED <<cf, log, cst, pos, props, turn, chain, cand, asked, seen, leads, camp, hard>>

(* ---- end: the network and all replicas in up have behaved for a long time   *)
Majority(v, up) == 2 * Cardinality(v \cap up) > Cardinality(v)
Live(up) ==
    /\ chain # <<>>
    /\ Majority(chain[Len(chain)].v, up)
    /\ \A r \in up : \A m \in cand[r] \ {0} : Majority(chain[m].v, up)

End_Viol(up, answered, caught) ==
    IF ~cf.eph /\ Live(up) /\ ~(answered /\ caught) THEN {"V06"} ELSE {}
=============================================================================
