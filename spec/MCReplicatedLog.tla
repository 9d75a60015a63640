--------------------------- MODULE MCReplicatedLog ---------------------------
(* The design of the replication: Raft with changes of the configuration that  *)
(* take effect when they are applied, at most one of them at a time, and       *)
(* snapshots; a replica answers a command when it applies it. Messages are     *)
(* abstracted: a vote, an append or a snapshot reaches its receiver, or not.   *)
(* Checked: the design satisfies ReplicatedLog whatever is interleaved.        *)
EXTENDS ReplicatedLog, Json, SequencesExt

CONSTANTS Ids,       \* the replicas there may ever be
          First,     \* the first configuration
          MaxCmd, MaxChange, MaxCamp, MaxDown, MaxLame, MaxTransfer, MaxLog, SimDepth

VARIABLES
    rf,      \* replica -> [term, role, log, commit, applied, cfg, pci, match, st]
    run,     \* replicas in the middle of a call
    say,     \* what the call has to answer: <<>> or <<[r, kind, c, op]>>
    cnt, viol, hist
mvs == <<rf, run, say, cnt, viol, hist>>
allvars == <<rlvars, time, mvs>>

Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Highest(S) == CHOOSE x \in S : \A y \in S : x >= y
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
Put(f, k, v) == PutR(f, k, v)

Sorted == SetToSortSeq(First, <)
Lead0 == Sorted[1]
\* The first configuration has been reached by adding one replica after the other.
Chain0 == [m \in DOMAIN Sorted |-> [add |-> TRUE, n |-> Sorted[m], v |-> {Sorted[x] : x \in 1..m}, i |-> m - Len(Sorted)]]
Counters0 == [k \in {"a"} |-> [v |-> 0, p |-> 0]]
New0 == [term |-> 0, role |-> "f", log |-> <<>>, commit |-> 0, applied |-> 0, cfg |-> {}, pci |-> 0,
         match |-> [x \in Ids |-> 0], st |-> Counters0]

MCInit ==
    /\ cf = [init |-> Counters0, eph |-> FALSE]
    /\ log = <<>> /\ cst = <<Counters0>>
    /\ pos = [r \in First |-> 0]
    /\ props = <<>>
    /\ turn = [r \in First |-> Idle]
    /\ chain = Chain0
    /\ cand = [r \in First |-> {Len(Chain0)}]
    /\ asked = [m \in 1..Len(Sorted) - 1 |-> [r |-> Lead0, add |-> TRUE, n |-> Sorted[m + 1], legal |-> TRUE,
                                              lead |-> TRUE, st |-> "made"]]
    /\ seen = [r \in First |-> IF r = Lead0 THEN [lead |-> r, term |-> 1, v |-> First, pend |-> FALSE] ELSE Unseen]
    /\ leads = [t \in {1} |-> Lead0]
    /\ camp = [r \in First |-> 0]
    /\ hard = [r \in First |-> [term |-> 1, vote |-> 0, commit |-> 0]]
    /\ mode = [r \in First |-> "up"]
    /\ time = <<>>
    /\ rf = [r \in First |-> [New0 EXCEPT !.term = 1, !.role = IF r = Lead0 THEN "l" ELSE "f", !.cfg = First]]
    /\ run = {} /\ say = <<>>
    /\ cnt = [c |-> 0, chg |-> Len(Sorted) - 1, camp |-> 0, down |-> 0, lame |-> 0, tr |-> 0]
    /\ viol = {}
    /\ hist = <<>>

Alives == {r \in DOMAIN rf : Up(r)}
Half(v, s) == 2 * Cardinality(s \cap v) > Cardinality(v)
LastTerm(l) == IF l = <<>> THEN 0 ELSE l[Len(l)].t
UpToDate(a, b) == \/ LastTerm(a) > LastTerm(b)
                  \/ LastTerm(a) = LastTerm(b) /\ Len(a) >= Len(b)
\* What a leader knows to be committed.
Committed(x, r) ==
    LET c == {n \in x.commit + 1..Len(x.log) :
                /\ x.log[n].t = x.term
                /\ Half(x.cfg, {s \in x.cfg : s = r \/ x.match[s] >= n})}
    IN IF c = {} THEN x.commit ELSE Highest(c)
Settle(x, r) == IF x.role = "l" THEN [x EXCEPT !.commit = Committed(x, r)] ELSE x

Idling == run = {} /\ say = <<>>
NoEvent == UNCHANGED rlvars
Count(f) == cnt' = [cnt EXCEPT ![f] = @ + 1]
Keep == UNCHANGED cnt

NextWith(Log(_)) ==
    (* -------- what comes from outside, when no call is under way ----------- *)
    \/ \E r \in Alives : \E ex \in {0, 1} :
         /\ Idling /\ cnt.c < MaxCmd
         /\ LET op == [k |-> "a", ex |-> ex, nw |-> cnt.c + 1, p |-> cnt.c + 1]
                lead == rf[r].role = "l"
                c == cnt.c + 1 IN
            /\ viol' = viol \cup Command_Viol(r, lead)
            /\ Command_Eff(r, c, lead, TRUE, op)
            /\ say' = <<[r |-> r, kind |-> "cmd", c |-> c]>>
            /\ run' = {r}
            /\ Log([e |-> "cmd", r |-> r, ex |-> ex, nw |-> c])
         /\ Count("c") /\ UNCHANGED rf
    \/ \E r \in Alives : \E n \in Ids : \E add \in BOOLEAN :
         /\ Idling /\ cnt.chg < MaxChange
         /\ Change_Eff(r, cnt.chg + 1, add, n, TRUE, rf[r].role = "l")
         /\ say' = <<[r |-> r, kind |-> "chg", c |-> cnt.chg + 1, add |-> add, n |-> n]>>
         /\ run' = {r}
         /\ Log([e |-> "chg", r |-> r, add |-> add, n |-> n])
         /\ Count("chg") /\ UNCHANGED <<rf, viol>>
    \/ \E r \in Ids \ DOMAIN rf :
         /\ Idling
         /\ Start_Eff(r, FALSE)
         /\ rf' = Put(rf, r, New0)
         /\ Keep /\ UNCHANGED <<run, say, viol>>
         /\ Log([e |-> "start", r |-> r])
    \/ \E r \in Alives : \E kind \in {"stop", "crash", "lame"} :
         /\ Idling
         /\ IF kind = "lame" THEN cnt.lame < MaxLame /\ mode[r] = "up" /\ Count("lame")
            ELSE cnt.down < MaxDown /\ Count("down")
         /\ Mode_Eff(r, IF kind = "lame" THEN "lame" ELSE "down")
         /\ UNCHANGED <<rf, run, say, viol>>
         /\ Log([e |-> kind, r |-> r])
    (* -------- elections ----------------------------------------------------- *)
    \/ \E r \in Alives :
         LET x == rf[r]
             t == x.term + 1
         IN
         /\ Idling /\ mode[r] = "up" /\ x.role # "l" /\ r \in x.cfg /\ cnt.camp < MaxCamp
         /\ viol' = viol \cup Campaign_Viol(r, t)
         /\ Campaign_Eff(r, t)
         /\ rf' = [rf EXCEPT ![r] = [@ EXCEPT !.term = t, !.role = "c"]]
         /\ run' = {r}
         /\ Count("camp") /\ UNCHANGED say
         /\ Log([e |-> "camp", r |-> r])
    \/ \E r \in Alives : \E q \in SUBSET (Alives \cap rf[r].cfg) :
         LET x == rf[r] IN
         /\ Idling /\ x.role = "c" /\ r \in q /\ Half(x.cfg, q)
         /\ \A s \in q \ {r} : rf[s].term < x.term /\ UpToDate(x.log, rf[s].log)
         /\ rf' = [s \in DOMAIN rf |->
                     IF s = r THEN Settle([x EXCEPT !.role = "l", !.pci = Len(x.log),
                                                    !.log = Append(@, [t |-> x.term, k |-> "none"]),
                                                    !.match = [y \in Ids |-> 0]], r)
                     ELSE IF s \in q THEN [rf[s] EXCEPT !.term = x.term, !.role = "f"] ELSE rf[s]]
         /\ run' = q
         /\ NoEvent /\ Keep /\ UNCHANGED <<say, viol>>
         /\ Log([e |-> "win", r |-> r, q |-> SetToSortSeq(q, <)])
    (* -------- replication --------------------------------------------------- *)
    \/ \E a \in Alives : \E f \in Alives \ {a} :
         LET x == rf[a]
             y == rf[f]
         IN
         /\ Idling /\ x.role = "l" /\ f \in x.cfg
         /\ IF y.term > x.term
            THEN /\ rf' = [rf EXCEPT ![a] = [@ EXCEPT !.term = y.term, !.role = "f"]]
                 /\ run' = {a}
            ELSE \* A replica starts with a snapshot: nothing else tells it the configuration.
                 /\ y.cfg # {}
                 /\ \E n \in Greater(x.match[f], y.commit)..Len(x.log) :
                    LET new == SubSeq(x.log, 1, n)
                        more == Len(y.log) > n /\ SubSeq(y.log, 1, n) = new
                        z == [y EXCEPT !.term = x.term, !.role = "f", !.log = IF more THEN @ ELSE new,
                                       !.commit = Greater(@, Lesser(x.commit, n))]
                    IN
                    /\ n >= Lesser(Len(x.log), x.match[f] + 1)
                    /\ rf' = [rf EXCEPT ![f] = z, ![a] = Settle([@ EXCEPT !.match[f] = n], a)]
                    /\ rf' # rf
                    /\ run' = {a, f}
         /\ NoEvent /\ Keep /\ UNCHANGED <<say, viol>>
         /\ Log([e |-> "append", r |-> a, f |-> f])
    \* A snapshot instead of entries.
    \/ \E a \in Alives : \E f \in Alives \ {a} :
         LET x == rf[a]
             y == rf[f]
             h == SubSeq(log, 1, pos[a])
         IN
         /\ Idling /\ x.role = "l" /\ f \in x.cfg /\ y.term <= x.term /\ (y.commit < x.applied \/ y.cfg = {})
         /\ cnt.tr < MaxTransfer
         /\ viol' = viol \cup Save_Viol(a, x.st) \cup Load_Viol(f, h, x.st, x.st)
         /\ Load_Eff(f, h)
         /\ rf' = [rf EXCEPT ![f] = [y EXCEPT !.term = x.term, !.role = "f", !.log = SubSeq(x.log, 1, x.applied),
                                              !.commit = x.applied, !.applied = x.applied, !.cfg = x.cfg, !.st = x.st],
                             ![a] = Settle([x EXCEPT !.match[f] = x.applied], a)]
         /\ run' = {a, f}
         /\ Count("tr") /\ UNCHANGED say
         /\ Log([e |-> "load", r |-> a, f |-> f])
    (* -------- the rest of a call -------------------------------------------- *)
    \/ /\ say # <<>>
       /\ Keep /\ UNCHANGED <<run, hist>>
       /\ say' = <<>>
       /\ LET s == say[1]
              x == rf[s.r]
          IN
          IF s.kind = "cmd" THEN
            IF x.role = "l" THEN
              /\ viol' = viol \cup Propose_Viol(s.r, s.c)
              /\ Propose_Eff(s.r, s.c, s.c)
              /\ rf' = [rf EXCEPT ![s.r] = Settle([@ EXCEPT !.log = Append(@, [t |-> x.term, k |-> "cmd", u |-> s.c])], s.r)]
            ELSE
              /\ viol' = viol \cup Response_Viol(s.r, s.c, Refusal("rej"))
              /\ Response_Eff(s.r, s.c)
              /\ UNCHANGED rf
          ELSE
            LET can == x.role = "l" /\ x.pci <= x.applied /\ ~(~s.add /\ x.cfg = {s.n}) IN
            /\ viol' = viol \cup Changed_Viol(s.r, s.c, IF can THEN "pending" ELSE "rejected")
            /\ Changed_Eff(s.r, s.c, IF can THEN "pending" ELSE "rejected")
            /\ rf' = IF can THEN [rf EXCEPT ![s.r] =
                                    Settle([@ EXCEPT !.pci = Len(x.log) + 1,
                                                     !.log = Append(@, [t |-> x.term, k |-> "conf", add |-> s.add, n |-> s.n])], s.r)]
                     ELSE rf
    \/ /\ say = <<>> /\ run # {}
       /\ Keep /\ UNCHANGED <<say, hist>>
       /\ LET r == Lowest(run)
              x == rf[r]
              i == x.applied + 1
              e == x.log[i]
              lead == x.role = "l"
              pend == lead /\ x.pci > x.applied
          IN
          IF x.applied < x.commit THEN
            /\ UNCHANGED run
            /\ CASE e.k = "none" ->
                      /\ rf' = [rf EXCEPT ![r].applied = i]
                      /\ NoEvent /\ UNCHANGED viol
                 [] e.k = "cmd" ->
                      LET own == props[e.u].r = r IN
                      /\ viol' = viol \cup Apply_Viol(r, i, own, e.u, props[e.u].c)
                      /\ Apply_Eff(r, i, own, e.u, props[e.u].c)
                      /\ rf' = [rf EXCEPT ![r] = [@ EXCEPT !.applied = i, !.st = Cas(x.st, props[e.u]).st]]
                 [] e.k = "conf" ->
                      LET v == IF e.add THEN x.cfg \cup {e.n} ELSE x.cfg \ {e.n}
                          z == [x EXCEPT !.applied = i, !.cfg = v]
                      IN
                      /\ viol' = viol \cup Configure_Viol(r, e.add, e.n, v, i)
                      /\ Configure_Eff(r, e.add, e.n, v, i)
                      /\ rf' = [rf EXCEPT ![r] = Settle(IF r \in v THEN z ELSE [z EXCEPT !.role = "f"], r)]
          ELSE IF \E c \in DOMAIN turn[r].due : TRUE THEN
            LET c == Lowest(DOMAIN turn[r].due)
                u == log[pos[r]].u
                res == Cas(cst[pos[r]], props[u]).res
            IN
            /\ viol' = viol \cup Response_Viol(r, c, CHOOSE y \in turn[r].due[c] : TRUE)
            /\ Response_Eff(r, c)
            /\ UNCHANGED <<run, rf>>
          ELSE IF (IF lead THEN seen[r] # [lead |-> r, term |-> x.term, v |-> x.cfg, pend |-> pend]
                   ELSE seen[r].lead # 0) THEN
            /\ viol' = viol \cup Report_Viol(r, IF lead THEN r ELSE 0, IF lead THEN x.term ELSE 0,
                                             IF lead THEN x.cfg ELSE {}, pend)
            /\ Report_Eff(r, IF lead THEN r ELSE 0, IF lead THEN x.term ELSE 0, IF lead THEN x.cfg ELSE {}, pend)
            /\ UNCHANGED <<run, rf>>
          ELSE
            /\ viol' = viol \cup Done_Viol(r)
            /\ Done_Eff(r)
            /\ run' = run \ {r}
            /\ UNCHANGED rf

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)
MCNext == NextWith(NoLog) /\ UNCHANGED time
SimNext == NextWith(DoLog) /\ UNCHANGED time
MCSpec == MCInit /\ [][MCNext]_allvars
SimSpec == MCInit /\ [][SimNext]_allvars

\* For the generation of behaviours: what is rare does not come first.
Spread == /\ cnt'.chg <= 2 + cnt'.c \div 3
          /\ cnt'.camp <= 1 + cnt'.c \div 2
          /\ cnt'.down <= cnt'.c \div 6
          /\ cnt'.lame <= cnt'.c \div 8
          /\ DOMAIN rf' # DOMAIN rf => cnt'.c >= 3

Bound == \A r \in DOMAIN rf : Len(rf[r].log) <= MaxLog

DesignHolds == viol = {}
(* A replica has the counters of its place in the history.                     *)
StateIsHistory == \A r \in DOMAIN rf : Same(rf[r].st, cst[pos[r] + 1])
(* Two replicas agree on every entry that both have committed.                 *)
Agreement == \A r, s \in DOMAIN rf : \A n \in 1..Lesser(rf[r].commit, rf[s].commit) : rf[r].log[n] = rf[s].log[n]
(* No two leaders of a term.                                                   *)
OneLeader == \A r, s \in DOMAIN rf : rf[r].role = "l" /\ rf[s].role = "l" /\ rf[r].term = rf[s].term => r = s

EmitScript == (TLCGet("level") = SimDepth) => PrintT("SCRIPT " \o ToJson([first |-> Sorted, ops |-> hist]))
=============================================================================
