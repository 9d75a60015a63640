-------------------------------- MODULE Channel --------------------------------
(* The channels between replicas. A replica has a state for every peer: whether a *)
(* handshake has been started, by whom, whether it has failed and for how long,   *)
(* what is to be sent, and the session in which both ends seal and open messages. *)
(* The network between the replicas belongs to the untrusted host, which reads,   *)
(* keeps, repeats, drops, changes and relabels whatever passes through.           *)
(*                                                                                *)
(* A session is identified by two numbers that its ends have chosen, c by the end *)
(* that started the handshake and s by the other one. Whatever the host makes up  *)
(* or changes (good = FALSE) is recognized by the sessions. Some replicas may run *)
(* something else: with the first message of a handshake each end proves what it  *)
(* runs (fit), and the others have no session with those that are not fit.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    st,       \* <<replica, peer>> -> what the replica knows about the peer
    cfg,      \* timeout and retry: after how many ticks; rogue: who runs something else
    numbers,  \* the numbers that have been chosen
    opened,   \* [m, p, id]: handed out by m as a message of p
    forgot,   \* pairs whose state a change of the cluster has removed
    kept      \* pairs whose state a change of the cluster has left alone
cvars == <<st, cfg, numbers, opened, forgot, kept>>

WINDOW == 3

NoCore == [k |-> "-", ph |-> "-", c |-> 0, s |-> 0]
NewClient == [k |-> "c", ph |-> "hs", c |-> 0, s |-> 0]
NewServer == [k |-> "s", ph |-> "att", c |-> 0, s |-> 0]
New == [h |-> "unknown", n |-> 0, ini |-> FALSE, lost |-> FALSE, pend |-> "", core |-> NoCore,
        q |-> <<>>, sent |-> 0, top |-> 0, seen |-> {}]

At(S, m, p) == IF <<m, p>> \in DOMAIN S THEN S[<<m, p>>] ELSE New
Put(S, m, p, r) == [x \in DOMAIN S \cup {<<m, p>>} |-> IF x = <<m, p>> THEN r ELSE S[x]]

Reset(r) == [New EXCEPT !.q = r.q, !.lost = r.lost]
Failed(r) == [r EXCEPT !.h = "failed", !.n = 0]
Initiate(r) == [r EXCEPT !.h = "initiated", !.n = 0, !.ini = TRUE, !.lost = FALSE, !.pend = "areq",
                         !.core = NewClient]

(* Sending. A heartbeat takes the place of one that still waits.                 *)
Heartbeat(q) == {i \in DOMAIN q : q[i].k = "hb"}
Enqueue(q, msg) ==
    IF msg.k = "hb" /\ Heartbeat(q) # {}
    THEN [q EXCEPT ![CHOOSE i \in Heartbeat(q) : \A j \in Heartbeat(q) : i <= j] = msg]
    ELSE Append(q, msg)
SendTo(r, msg) ==
    LET r1 == IF r.h = "unknown" THEN Initiate(r) ELSE r IN [r1 EXCEPT !.q = Enqueue(r1.q, msg)]

(* Both ends of a handshake.                                                      *)
CoreStep(m, core, x) ==
    CASE ~x.good -> [ok |-> FALSE]
      [] x.b \in {"areq", "aresp"} /\ ~x.fit /\ m \notin cfg.rogue -> [ok |-> FALSE]
      [] core.k = "c" /\ core.ph = "hs" /\ x.side = "resp" /\ x.b = "aresp" /\ x.c = core.c /\ core.c # 0 ->
            [ok |-> TRUE, core |-> [core EXCEPT !.ph = "fin", !.s = x.s], out |-> "hreq"]
      [] core.k = "c" /\ core.ph = "fin" /\ x.side = "resp" /\ x.b = "hresp" /\ x.c = core.c /\ x.s = core.s ->
            [ok |-> TRUE, core |-> [core EXCEPT !.ph = "open"], out |-> ""]
      [] core.k = "s" /\ core.ph = "att" /\ x.side = "req" /\ x.b = "areq" ->
            [ok |-> TRUE, core |-> [core EXCEPT !.ph = "hs", !.c = x.c], out |-> "aresp"]
      [] core.k = "s" /\ core.ph = "hs" /\ x.side = "req" /\ x.b = "hreq" /\ x.c = core.c /\ x.s = core.s
            /\ core.s # 0 ->
            [ok |-> TRUE, core |-> [core EXCEPT !.ph = "open"], out |-> "hresp"]
      [] OTHER -> [ok |-> FALSE]

Opens(r, x) ==
    /\ x.good
    /\ x.c = r.core.c /\ x.s = r.core.s
    /\ x.d = (IF r.core.k = "c" THEN 0 ELSE 1)
    /\ x.n + WINDOW > r.top
    /\ x.n \notin r.seen

(* Replica m receives x as a message of p: what it knows then and whether it      *)
(* hands the contents out.                                                        *)
Receive(m, p, r, x) ==
    LET request == x.t = "hs" /\ x.side = "req"
        collision == request /\ r.h = "initiated" /\ r.ini IN
    IF collision /\ m < p THEN [r |-> r, out |-> FALSE] ELSE
    LET r1 == IF collision \/ (request /\ r.h = "failed" /\ m > p) THEN Reset(r) ELSE r
        first == r1.h = "unknown"
        r2 == IF ~first \/ (r1.lost /\ x.t # "hs") THEN r1 ELSE [r1 EXCEPT !.core = NewServer] IN
    CASE first /\ r1.lost /\ x.t # "hs" -> [r |-> Initiate(r1), out |-> FALSE]
      [] r2.h \in {"unknown", "initiated"} /\ x.t = "hs" ->
            LET step == CoreStep(m, r2.core, x) IN
            IF ~step.ok THEN [r |-> Failed(r2), out |-> FALSE]
            ELSE LET r3 == [r2 EXCEPT !.core = step.core, !.pend = step.out] IN
                 [out |-> FALSE,
                  r |-> IF step.core.ph = "open"
                        THEN [r3 EXCEPT !.h = "completed", !.lost = FALSE, !.sent = 0, !.top = 0, !.seen = {}]
                        ELSE IF first THEN [r3 EXCEPT !.h = "initiated", !.n = 0] ELSE r3]
      [] r2.h \in {"unknown", "initiated"} -> [r |-> Failed([r2 EXCEPT !.lost = first]), out |-> FALSE]
      [] r2.h = "completed" /\ x.t = "hs" -> [r |-> Failed(r2), out |-> FALSE]
      [] r2.h = "completed" ->
            IF Opens(r2, x)
            THEN [r |-> [r2 EXCEPT !.seen = @ \cup {x.n}, !.top = IF x.n > @ THEN x.n ELSE @], out |-> TRUE]
            ELSE [r |-> r2, out |-> FALSE]
      [] OTHER -> [r |-> r2, out |-> FALSE]

(* What replica m emits for p: the next message of the handshake or, once there   *)
(* is a session, all that waits. num is the number that m chooses if it has to.   *)
Chooses(r) == r.pend \in {"areq", "aresp"}
Handshake(r, num) ==
    [b |-> r.pend,
     c |-> IF r.pend = "areq" THEN num ELSE r.core.c,
     s |-> IF r.pend = "areq" THEN 0 ELSE IF r.pend = "aresp" THEN num ELSE r.core.s]
Sealed(r) ==
    IF r.pend # "" \/ r.h # "completed" THEN <<>>
    ELSE [i \in DOMAIN r.q |-> [k |-> r.q[i].k, id |-> r.q[i].id, c |-> r.core.c, s |-> r.core.s,
                               d |-> IF r.core.k = "c" THEN 1 ELSE 0, n |-> r.sent + i]]
Emitted(r, num) ==
    IF r.pend # ""
    THEN [r EXCEPT !.pend = "",
                   !.core = CASE r.pend = "areq" -> [@ EXCEPT !.c = num]
                              [] r.pend = "aresp" -> [@ EXCEPT !.s = num]
                              [] OTHER -> @]
    ELSE IF r.h = "completed" THEN [r EXCEPT !.q = <<>>, !.sent = @ + Len(r.q)]
    ELSE r

Ticked(r) ==
    CASE r.h = "initiated" /\ r.n + 1 >= cfg.timeout ->
            IF cfg.retry = 0 THEN Reset(r) ELSE Failed(r)
      [] r.h = "initiated" -> [r EXCEPT !.n = @ + 1]
      [] r.h = "failed" /\ r.n + 1 >= cfg.retry -> Reset(r)
      [] r.h = "failed" -> [r EXCEPT !.n = @ + 1]
      [] OTHER -> r

--------------------------------------------------------------------------------
ChannelInit(timeout, retry, rogue) ==
    /\ st = <<>> /\ cfg = [timeout |-> timeout, retry |-> retry, rogue |-> rogue]
    /\ numbers = {} /\ opened = {} /\ forgot = {} /\ kept = {}

(* Whose fault a surprise is that concerns m and p.                               *)
Blame(m, p, props) == props \cup (IF <<m, p>> \in forgot \cup kept THEN {"C05"} ELSE {})

(* m does for p what it may only do for somebody who is trusted.                  *)
Outsider(m, p) == IF p \in cfg.rogue /\ m \notin cfg.rogue THEN {"C06"} ELSE {}

Send_Viol(m, p, ok) == IF ok THEN {} ELSE {"C03"}
Send_Eff(m, p, msg) ==
    /\ st' = Put(st, m, p, SendTo(At(st, m, p), msg))
    /\ UNCHANGED <<cfg, numbers, opened, forgot, kept>>

Receive_Viol(m, p, x, ok, res) ==
    LET out == Receive(m, p, At(st, m, p), x).out IN
    IF ~ok THEN {"C03"}
    ELSE IF out /\ res = <<>> THEN Blame(m, p, {"C04"})
    ELSE IF res # <<>> /\ (~out \/ res # <<[t |-> x.t, from |-> p, id |-> x.id]>>)
         THEN Blame(m, p, {"C02"}) \cup Outsider(m, p)
    ELSE {}
Receive_Eff(m, p, x) ==
    LET e == Receive(m, p, At(st, m, p), x) IN
    /\ st' = Put(st, m, p, e.r)
    /\ opened' = opened \cup (IF e.out THEN {[m |-> m, p |-> p, id |-> x.id]} ELSE {})
    /\ forgot' = IF e.r.h = "completed" THEN forgot \ {<<m, p>>} ELSE forgot
    /\ kept' = IF e.out \/ e.r.h # "completed" THEN kept \ {<<m, p>>} ELSE kept
    /\ UNCHANGED <<cfg, numbers>>

(* The messages msgs leave replica m.                                             *)
To(msgs, p) == SelectSeq(msgs, LAMBDA y : y.to = p)
Pairs(m) == {x \in DOMAIN st : x[1] = m}
Number(msgs, m, p) ==
    LET hs == SelectSeq(To(msgs, p), LAMBDA y : y.t = "hs") IN
    IF hs = <<>> THEN 0 ELSE IF st[<<m, p>>].pend = "areq" THEN hs[1].c ELSE hs[1].s
OutTo_Viol(m, p, msgs) ==
    LET r == At(st, m, p)
        hs == SelectSeq(To(msgs, p), LAMBDA y : y.t = "hs")
        data == SelectSeq(To(msgs, p), LAMBDA y : y.t # "hs")
        due == Sealed(r)
        hsOk == IF r.pend = "" THEN hs = <<>>
                ELSE /\ Len(hs) = 1
                     /\ LET num == IF r.pend = "areq" THEN hs[1].c ELSE hs[1].s IN
                        /\ [b |-> hs[1].b, c |-> hs[1].c, s |-> hs[1].s] = Handshake(r, num)
                        /\ hs[1].side = (IF r.core.k = "c" THEN "req" ELSE "resp")
        dataOk == /\ Len(data) = Len(due)
                  /\ \A i \in DOMAIN due :
                        /\ [c |-> data[i].c, s |-> data[i].s, d |-> data[i].d, id |-> data[i].id]
                           = [c |-> due[i].c, s |-> due[i].s, d |-> due[i].d, id |-> due[i].id]
                        /\ data[i].t = (IF due[i].k = "hb" THEN "sys" ELSE due[i].k)
                        /\ data[i].same
    IN (IF hsOk THEN {} ELSE Blame(m, p, {"C03"}) \cup (IF hs # <<>> THEN Outsider(m, p) ELSE {}))
       \cup (IF dataOk THEN {} ELSE Blame(m, p, {"C04"}) \cup (IF data # <<>> THEN Outsider(m, p) ELSE {}))
       \cup (IF \E i \in DOMAIN hs : hs[i].b \in {"areq", "aresp"} /\ hs[i].fit = (m \in cfg.rogue)
             THEN {"C06"} ELSE {})
       \cup (IF hsOk /\ Chooses(r) /\ Number(msgs, m, p) \in numbers THEN {"C02"} ELSE {})
       \cup (IF \E i \in DOMAIN data : data[i].n = 0
                    \/ [c |-> data[i].c, s |-> data[i].s] # [c |-> r.core.c, s |-> r.core.s]
             THEN {"C02"} ELSE {})
Out_Viol(m, msgs) ==
    UNION {OutTo_Viol(m, p, msgs) : p \in {x[2] : x \in Pairs(m)} \cup {msgs[i].to : i \in DOMAIN msgs}}
    \cup (IF \E i \in DOMAIN msgs : msgs[i].from # m THEN {"C02"} ELSE {})
Out_Eff(m, msgs) ==
    /\ st' = [x \in DOMAIN st |-> IF x[1] = m THEN Emitted(st[x], Number(msgs, m, x[2])) ELSE st[x]]
    /\ numbers' = numbers \cup {Number(msgs, m, x[2]) : x \in {y \in Pairs(m) : Chooses(st[y])}}
    /\ kept' = kept \ {x \in Pairs(m) : Sealed(st[x]) # <<>>}
    /\ UNCHANGED <<cfg, opened, forgot>>

Tick_Eff(m) ==
    /\ st' = [x \in DOMAIN st |-> IF x[1] = m THEN Ticked(st[x]) ELSE st[x]]
    /\ UNCHANGED <<cfg, numbers, opened, forgot, kept>>

(* The cluster consists of ids now.                                               *)
Leaves(m, ids) == {x \in Pairs(m) : m \notin ids \/ x[2] \notin ids}
Change_Eff(m, ids) ==
    /\ st' = [x \in DOMAIN st \ Leaves(m, ids) |-> st[x]]
    /\ forgot' = forgot \cup Leaves(m, ids)
    /\ kept' = (kept \ Leaves(m, ids)) \cup {x \in Pairs(m) \ Leaves(m, ids) : st[x].h = "completed"}
    /\ UNCHANGED <<cfg, numbers, opened>>

(* The host has behaved for long enough.                                          *)
End_Viol(sent) == IF \A i \in DOMAIN sent : [m |-> sent[i].p, p |-> sent[i].m, id |-> sent[i].id] \in opened
                  THEN {} ELSE {"C03"}
================================================================================
