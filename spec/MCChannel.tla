------------------------------- MODULE MCChannel -------------------------------
(* The design of the channels: replicas that talk to each other over a network    *)
(* that keeps, repeats, reorders, drops and changes whatever passes through.      *)
EXTENDS Channel, Json, Randomization, TLC

CONSTANTS
    N, Timeout, Retry,
    Rogue,       \* the replicas that run something else
    Kinds,
    MaxSend, MaxIn, MaxTick, MaxBad, MaxChange,
    Rounds,      \* how many rounds a good host needs at most
    SimDepth     \* 0: all behaviours; otherwise the length of the random ones

VARIABLES
    wire,     \* all that has been emitted
    given,    \* <<m, p>> -> ids of what m was asked to send to p since it last forgot it
    gone,     \* <<m, p>> -> ids of what m has emitted for p since then, and of superseded heartbeats
    used,     \* how often each kind of step has been taken
    hist
allvars == <<st, cfg, numbers, opened, forgot, kept, wire, given, gone, used, hist>>

Reps == 1..N
Some(S) == IF SimDepth = 0 THEN S ELSE RandomSubset(1, S)
MCInit ==
    /\ \E R \in (IF SimDepth = 0 THEN {Rogue} ELSE {{}, Rogue}) : ChannelInit(Timeout, Retry, R)
    /\ wire = <<>> /\ given = [x \in Reps \X Reps |-> <<>>] /\ gone = [x \in Reps \X Reps |-> {}]
    /\ used = [send |-> 0, in |-> 0, tick |-> 0, bad |-> 0, change |-> 0]
    /\ hist = <<>>

(* What m emits, given what it knows; next is the next free number.               *)
RECURSIVE Emits(_, _, _, _)
Emits(S, m, ps, next) ==
    IF ps = {} THEN [st |-> S, msgs |-> <<>>, next |-> next]
    ELSE LET p == CHOOSE q \in ps : \A q2 \in ps : q <= q2
             r == S[<<m, p>>]
             hs == IF r.pend = "" THEN <<>>
                   ELSE LET h == Handshake(r, next) IN
                        <<[from |-> m, to |-> p, t |-> "hs", side |-> IF r.core.k = "c" THEN "req" ELSE "resp",
                           b |-> h.b, c |-> h.c, s |-> h.s, d |-> 0, n |-> 0, id |-> 0, good |-> TRUE,
                           fit |-> m \notin cfg.rogue]>>
             due == Sealed(r)
             data == [i \in DOMAIN due |->
                        [from |-> m, to |-> p, t |-> IF due[i].k = "hb" THEN "sys" ELSE due[i].k, side |-> "",
                         b |-> "", c |-> due[i].c, s |-> due[i].s, d |-> due[i].d, n |-> due[i].n,
                         id |-> due[i].id, good |-> TRUE, fit |-> TRUE]]
             rest == Emits([S EXCEPT ![<<m, p>>] = Emitted(r, next)], m, ps \ {p},
                           IF Chooses(r) THEN next + 1 ELSE next)
         IN [rest EXCEPT !.msgs = hs \o data \o @]
Next0 == Cardinality(numbers) + 1
(* A step of m that leaves S, after which the host takes what m emits.            *)
After(S, m) ==
    LET e == Emits(S, m, {x[2] : x \in {y \in DOMAIN S : y[1] = m}}, Next0) IN
    /\ st' = e.st
    /\ wire' = wire \o e.msgs
    /\ numbers' = 1..(e.next - 1)
    /\ gone' = [x \in DOMAIN gone |->
                  gone[x] \cup {e.msgs[i].id : i \in {j \in DOMAIN e.msgs : e.msgs[j].t # "hs" /\ <<e.msgs[j].from, e.msgs[j].to>> = x}}]
    /\ UNCHANGED <<cfg, forgot, kept>>
Use(k, max) == used[k] < max /\ used' = [used EXCEPT ![k] = @ + 1]
Bad(x) == [x EXCEPT !.good = FALSE]

NextWith(Log(_)) ==
    \/ \E m \in Some(Reps) : \E p \in Some(Reps \ {m}), k \in Some(Kinds) :
         /\ Use("send", MaxSend)
         /\ LET id == used.send + 1 IN
            /\ After(Put(st, m, p, SendTo(At(st, m, p), [k |-> k, id |-> id])), m)
            /\ given' = [given EXCEPT ![<<m, p>>] = Append(@, [k |-> k, id |-> id])]
            /\ Log([e |-> "send", m |-> m, p |-> p, k |-> k])
         /\ UNCHANGED opened
    \/ \E n \in (IF SimDepth = 0 \/ Len(wire) < 4 THEN DOMAIN wire ELSE {Len(wire), Len(wire) - 1, RandomElement(DOMAIN wire)}) :
       \E good \in (IF SimDepth = 0 THEN BOOLEAN ELSE {RandomElement(1..8) # 1}) :
         /\ IF good THEN Use("in", MaxIn) ELSE Use("bad", MaxBad)
         /\ LET x == IF good THEN wire[n] ELSE Bad(wire[n])
                e == Receive(x.to, x.from, At(st, x.to, x.from), x) IN
            /\ After(Put(st, x.to, x.from, e.r), x.to)
            /\ opened' = opened \cup
                 (IF e.out THEN {[m |-> x.to, p |-> x.from, id |-> x.id, c |-> x.c, s |-> x.s, d |-> x.d, n |-> x.n,
                                  times |-> 1 + Cardinality({o \in opened : o.c = x.c /\ o.s = x.s /\ o.d = x.d /\ o.n = x.n})]}
                  ELSE {})
            /\ Log([e |-> IF good THEN "in" ELSE "bad", n |-> n])
         /\ UNCHANGED given
    \/ \E m \in Reps :
         /\ Use("tick", MaxTick)
         /\ After([x \in DOMAIN st |-> IF x[1] = m THEN Ticked(st[x]) ELSE st[x]], m)
         /\ Log([e |-> "tick", m |-> m])
         /\ UNCHANGED <<opened, given>>
    \/ \E m \in Some(Reps), ids \in Some((SUBSET Reps) \ {{}}) :
         /\ Use("change", MaxChange)
         /\ LET out == Leaves(m, ids) IN
            /\ st' = [x \in DOMAIN st \ out |-> st[x]]
            /\ given' = [x \in DOMAIN given |-> IF x \in out THEN <<>> ELSE given[x]]
            /\ gone' = [x \in DOMAIN gone |-> IF x \in out THEN {} ELSE gone[x]]
            /\ Log([e |-> "change", m |-> m, ids |-> ids])
         /\ UNCHANGED <<opened, wire, numbers, cfg, forgot, kept>>

NoLog(o) == hist' = hist
DoLog(o) == hist' = Append(hist, o)
MCSpec == MCInit /\ [][NextWith(NoLog)]_allvars
SimSpec == MCInit /\ [][NextWith(DoLog)]_allvars

(* What is handed out has been sealed for the one who hands it out by the one it  *)
(* is said to be from, in a session of the two, and is handed out once.           *)
Authentic == \A o \in opened : \E i \in DOMAIN wire :
    /\ wire[i].from = o.p /\ wire[i].to = o.m
    /\ wire[i].c = o.c /\ wire[i].s = o.s /\ wire[i].d = o.d /\ wire[i].n = o.n /\ wire[i].id = o.id
Once == \A o \in opened : o.times = 1
(* A session has one end of each kind.                                            *)
Paired == \A x, y \in DOMAIN st :
    st[x].h = "completed" /\ st[y].h = "completed" /\ st[x].core.c = st[y].core.c /\ x # y =>
        /\ st[x].core.s = st[y].core.s
        /\ st[x].core.k # st[y].core.k
        /\ x[1] = y[2] /\ x[2] = y[1]
(* The other end of a session is somebody who is trusted.                         *)
OnlyTrusted == \A x \in DOMAIN st : st[x].h = "completed" /\ x[1] \notin cfg.rogue =>
    \A i \in DOMAIN wire :
        \/ wire[i].t = "hs" /\ wire[i].b = "areq" /\ st[x].core.k = "s" /\ wire[i].c = st[x].core.c
        \/ wire[i].t = "hs" /\ wire[i].b = "aresp" /\ st[x].core.k = "c" /\ wire[i].s = st[x].core.s
        => wire[i].from \notin cfg.rogue
(* Whatever a replica was asked to send waits or has been emitted, in order, but  *)
(* for heartbeats when there is a later one.                                      *)
Ids(q) == {q[i].id : i \in DOMAIN q}
NothingLost == \A x \in DOMAIN st : \A i \in DOMAIN given[x] :
    \/ given[x][i].id \in gone[x] \cup Ids(st[x].q)
    \/ given[x][i].k = "hb" /\ \E j \in DOMAIN given[x] : j > i /\ given[x][j].k = "hb"
InOrder ==
    /\ \A x \in DOMAIN st : \A i, j \in DOMAIN st[x].q :
          i < j /\ st[x].q[i].k # "hb" /\ st[x].q[j].k # "hb" => st[x].q[i].id < st[x].q[j].id
    /\ \A i, j \in DOMAIN wire :
          i < j /\ wire[i].c = wire[j].c /\ wire[i].s = wire[j].s /\ wire[i].d = wire[j].d
            /\ wire[i].t # "hs" /\ wire[j].t # "hs" => wire[i].n < wire[j].n
(* Nobody opens what nobody has the session for: contents wait for a session.     *)
OnlySealed == \A x \in DOMAIN st : st[x].sent > 0 => st[x].core.ph = "open"

(* From whatever state, a host that delivers everything in order and ticks when   *)
(* it is quiet lets the replicas talk to each other within some rounds.           *)
RECURSIVE Quiet(_, _, _)
RECURSIVE Flush(_, _, _, _)
Flush(S, ms, next, msgs) ==
    IF ms = {} THEN [st |-> S, next |-> next, msgs |-> msgs]
    ELSE LET m == CHOOSE q \in ms : \A q2 \in ms : q <= q2
             ps == {x[2] : x \in {y \in DOMAIN S : y[1] = m}}
             e == Emits(S, m, ps, next)
             f == Emits(e.st, m, ps, e.next) IN
         Flush(f.st, ms \ {m}, f.next, msgs \o e.msgs \o f.msgs)
Quiet(S, next, todo) ==
    LET f == Flush(S, Reps, next, todo) IN
    IF f.msgs = <<>> THEN [st |-> f.st, next |-> f.next, got |-> {}]
    ELSE LET x == Head(f.msgs)
             e == Receive(x.to, x.from, At(f.st, x.to, x.from), x)
             rest == Quiet(Put(f.st, x.to, x.from, e.r), f.next, Tail(f.msgs)) IN
         [rest EXCEPT !.got = @ \cup (IF e.out THEN {<<x.from, x.to, x.id>>} ELSE {})]
RECURSIVE Say(_, _, _)
Say(S, talk, id) ==
    IF talk = {} THEN S
    ELSE LET x == CHOOSE y \in talk : TRUE IN
         Say(Put(S, x[1], x[2], SendTo(At(S, x[1], x[2]), [k |-> "hb", id |-> id])), talk \ {x}, id)
RECURSIVE Round(_, _, _, _)
Round(S, next, talk, n) ==
    LET q == Quiet(Say(S, talk, 1000 + n), next, <<>>) IN
    IF n = Rounds THEN \A x \in talk : <<x[1], x[2], 1000 + n>> \in q.got
    ELSE Round([x \in DOMAIN q.st |-> Ticked(q.st[x])], q.next, talk, n + 1)
Recovers == Round(st, Next0, {<<1, 2>>, <<2, 1>>}, 1)
RecoversForOne == Round(st, Next0, {<<1, 2>>}, 1) /\ Round(st, Next0, {<<2, 1>>}, 1)

EmitScript == (TLCGet("level") = SimDepth) =>
    PrintT("SCRIPT " \o ToJson([n |-> N, conf |-> [timeout |-> Timeout, retry |-> Retry], rogue |-> cfg.rogue, ops |-> hist]))
================================================================================
