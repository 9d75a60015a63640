------------------------------ MODULE DataCache ------------------------------
(* The tablet data cache: loads and stores the contents of tablets as blobs in *)
(* an untrusted storage that may fail, answer late and answer with anything.   *)
(*                                                                             *)
(* Contents are numbers; the hash of contents is the same number. Blob uris    *)
(* are numbers, 0 is the missing uri of a tablet that was never stored.        *)
(* Metadata is [id, v, u: uri, h: recorded hash or NoHash].                    *)
EXTENDS Integers, FiniteSets, Sequences

NoHash == -1       \* the metadata does not record a hash
Garbage == -2      \* contents that cannot be decoded
Unstorable == 99   \* contents that cannot be encoded

VARIABLES
    bound,    \* uri -> what it was created for: [id, v, c]; for foreign blobs c is the hash
    key,      \* uri -> "none" | "wanted" | "load" | "unsent" | "store" | "cache" | "error"
    val,      \* uri -> contents held by the cache
    durable,  \* uris of blobs known to be in the storage
    net,      \* correlation id -> [k, u] request that was not answered yet
    batch,    \* batch -> [k, ms, done, fail]
    zero      \* tablets without blob: [asked, sent, bad]

dvars == <<bound, key, val, durable, net, batch, zero>>

PutD(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RangeD(s) == {s[i] : i \in DOMAIN s}
KeyOf(u) == IF u \in DOMAIN key THEN key[u] ELSE "none"

DataInit ==
    /\ bound = <<>> /\ key = <<>> /\ val = <<>> /\ durable = {} /\ net = <<>> /\ batch = <<>>
    /\ zero = [asked |-> 0, sent |-> 0, bad |-> FALSE]

Uris(ms) == {ms[n].u : n \in DOMAIN ms} \ {0}
Count(s, e) == Cardinality({n \in DOMAIN s : s[n] = e})

(* ---- load: ms is a sequence of metadata                                     *)
Load_Eff(b, ms) ==
    LET new == {u \in Uris(ms) : KeyOf(u) = "none"}
        zeros == {n \in DOMAIN ms : ms[n].u = 0}
    IN  /\ key' = [u \in DOMAIN key \cup new |-> IF u \in new THEN "wanted" ELSE key[u]]
        /\ bound' = [u \in DOMAIN bound \cup Uris(ms) |->
              IF u \in DOMAIN bound THEN bound[u]
              ELSE LET m == ms[CHOOSE n \in DOMAIN ms : ms[n].u = u] IN [id |-> m.id, v |-> m.v, c |-> m.h]]
        /\ batch' = PutD(batch, b, [k |-> "load", ms |-> ms, done |-> FALSE,
              fail |-> (\E u \in Uris(ms) : KeyOf(u) = "error") \/ (zeros # {} /\ zero.bad)])
        /\ zero' = [zero EXCEPT !.asked = @ + Cardinality(zeros)]
        /\ UNCHANGED <<val, durable, net>>

(* ---- store: ts is a sequence of [id, v, c, sz] (the previous version and    *)
(* the new contents with their size) with the new metadata [id2, v2, u2, s2,   *)
(* h2]; ser tells whether all contents could be encoded                        *)
Store_Viol(b, ts, ser) ==
    IF ~ser THEN {} ELSE
    IF \E n \in DOMAIN ts :
          \/ ts[n].id2 # ts[n].id
          \/ ts[n].v2 # ts[n].v + 1
          \/ ts[n].h2 # ts[n].c
          \/ ts[n].s2 # ts[n].sz
          \/ ts[n].u2 = 0
          \/ ts[n].u2 \in DOMAIN bound /\
                bound[ts[n].u2] # [id |-> ts[n].id, v |-> ts[n].v2, c |-> ts[n].c]
          \/ \E m \in DOMAIN ts : ts[m].u2 = ts[n].u2 /\
                <<ts[m].id, ts[m].v, ts[m].c>> # <<ts[n].id, ts[n].v, ts[n].c>>
    THEN {"D03"} ELSE {}

Store_Eff(b, ts, ser) ==
    IF ~ser THEN
        /\ batch' = PutD(batch, b, [k |-> "store", ms |-> <<>>, done |-> FALSE, fail |-> TRUE])
        /\ UNCHANGED <<bound, key, val, durable, net, zero>>
    ELSE
    LET us == {ts[n].u2 : n \in DOMAIN ts}
        new == {u \in us : KeyOf(u) = "none"}
    IN  /\ key' = [u \in DOMAIN key \cup new |-> IF u \in new THEN "unsent" ELSE key[u]]
        /\ bound' = [u \in DOMAIN bound \cup us |->
              IF u \in DOMAIN bound THEN bound[u]
              ELSE LET t == ts[CHOOSE n \in DOMAIN ts : ts[n].u2 = u] IN [id |-> t.id, v |-> t.v2, c |-> t.c]]
        /\ batch' = PutD(batch, b, [k |-> "store", done |-> FALSE,
              ms |-> [n \in DOMAIN ts |-> [id |-> ts[n].id, v |-> ts[n].v2, u |-> ts[n].u2, h |-> ts[n].c]],
              fail |-> \E u \in us : KeyOf(u) = "error"])
        /\ UNCHANGED <<val, durable, net, zero>>

(* ---- lreq, sreq: requests to the storage                                    *)
LoadRequest_Viol(c, u) ==
    IF u = 0 THEN (IF zero.sent < zero.asked THEN {} ELSE {"D04"})
    ELSE IF KeyOf(u) = "wanted" THEN {}
    ELSE IF u \in DOMAIN key THEN {"D04"} ELSE {"D01", "D04"}

LoadRequest_Eff(c, u) ==
    /\ key' = IF u = 0 THEN key ELSE PutD(key, u, "load")
    /\ zero' = IF u = 0 THEN [zero EXCEPT !.sent = @ + 1] ELSE zero
    /\ net' = PutD(net, c, [k |-> "load", u |-> u])
    /\ UNCHANGED <<bound, val, durable, batch>>

StoreRequest_Viol(c, u, x) ==
    IF u \notin DOMAIN bound THEN {"D03"}
    ELSE (IF bound[u].c # x THEN {"D03"} ELSE {}) \cup (IF KeyOf(u) # "unsent" THEN {"D04"} ELSE {})

StoreRequest_Eff(c, u, x) ==
    /\ key' = PutD(key, u, "store")
    /\ net' = PutD(net, c, [k |-> "store", u |-> u])
    /\ UNCHANGED <<bound, val, durable, batch, zero>>

Drop(c) == net' = [x \in DOMAIN net \ {c} |-> net[x]]

(* All batches that wait for the uri may report a failure from now on.         *)
Fail(u) == [b \in DOMAIN batch |->
              IF ~batch[b].done /\ \E n \in DOMAIN batch[b].ms : batch[b].ms[n].u = u
              THEN [batch[b] EXCEPT !.fail = TRUE] ELSE batch[b]]

(* ---- lresp: the storage answers a load with contents x, or fails            *)
Acceptable(u, x) ==
    /\ x # Garbage
    /\ IF u = 0 THEN x = 0 ELSE bound[u].c = NoHash \/ bound[u].c = x

LoadResponse_Eff(c, ok, x) ==
    LET u == net[c].u
        good == ok /\ Acceptable(u, x)
    IN  /\ Drop(c)
        /\ IF u = 0
           THEN /\ zero' = IF good THEN zero ELSE [zero EXCEPT !.bad = TRUE]
                /\ batch' = IF good THEN batch ELSE Fail(u)
                /\ UNCHANGED <<key, val, durable>>
           ELSE /\ key' = [key EXCEPT ![u] = IF good THEN "cache" ELSE "error"]
                /\ val' = IF good THEN PutD(val, u, x) ELSE val
                /\ durable' = IF good THEN durable \cup {u} ELSE durable
                /\ batch' = IF good THEN batch ELSE Fail(u)
                /\ zero' = zero
        /\ UNCHANGED bound

(* ---- sresp: the storage answers a store                                     *)
StoreResponse_Eff(c, ok) ==
    LET u == net[c].u IN
    /\ Drop(c)
    /\ key' = PutD(key, u, IF ok THEN "cache" ELSE "error")
    /\ val' = IF ok THEN PutD(val, u, bound[u].c) ELSE val
    /\ durable' = IF ok THEN durable \cup {u} ELSE durable
    /\ batch' = IF ok THEN batch ELSE Fail(u)
    /\ UNCHANGED <<bound, zero>>

(* ---- tick: failed entries are forgotten, what failed may be tried again     *)
Tick_Eff ==
    /\ key' = [u \in DOMAIN key |-> IF key[u] = "error" THEN "none" ELSE key[u]]
    /\ zero' = [zero EXCEPT !.bad = FALSE]
    /\ UNCHANGED <<bound, val, durable, net, batch>>

(* ---- res: a batch completes; out is a sequence of [id, v, u, h, c]          *)
Meta(o) == [id |-> o.id, v |-> o.v, u |-> o.u, h |-> o.h]

Result_Viol(b, ok, failed, out) ==
    IF b \notin DOMAIN batch THEN {"D05"} ELSE
    IF batch[b].done THEN {"D05"} ELSE
    IF ok = failed THEN {"D05"} ELSE   \* a failure says so
    LET ms == batch[b].ms
        got == [n \in DOMAIN out |-> Meta(out[n])]
    IN
    IF ~ok THEN (IF batch[b].fail THEN {} ELSE IF batch[b].k = "load" THEN {"D01"} ELSE {"D03"})
    ELSE IF batch[b].k = "store"
    THEN (IF batch[b].ms = <<>> /\ batch[b].fail THEN {"D03"} ELSE {})
         \cup (IF \E n \in DOMAIN ms : ms[n].u \notin durable THEN {"D03"} ELSE {})
    ELSE (IF \/ Len(out) # Len(ms)
             \/ \E n \in DOMAIN ms : Count(got, ms[n]) # Count(ms, ms[n])
          THEN {"D01"} ELSE {})
         \cup (IF \E n \in DOMAIN out :
                    IF out[n].u = 0 THEN out[n].c # 0
                    ELSE out[n].h # NoHash /\ out[n].c # out[n].h
               THEN {"D01", "D02"} ELSE {})
         \cup (IF \E n \in DOMAIN out : out[n].u # 0 /\
                    (out[n].u \notin DOMAIN val \/ val[out[n].u] # out[n].c)
               THEN {"D01"} ELSE {})

Result_Eff(b) ==
    /\ batch' = [batch EXCEPT ![b].done = TRUE]
    /\ UNCHANGED <<bound, key, val, durable, net, zero>>

End_Viol ==
    IF \E b \in DOMAIN batch : ~batch[b].done THEN {"D05"} ELSE {}

(* ---- invariants of the design                                               *)
CachedIsGenuine ==
    \A u \in DOMAIN key : key[u] = "cache" =>
        /\ u \in DOMAIN val /\ u \in durable
        /\ bound[u].c # NoHash => val[u] = bound[u].c

PendingIsOutstanding ==
    \A u \in DOMAIN key : key[u] \in {"load", "store"} =>
        Cardinality({c \in DOMAIN net : net[c].u = u}) = 1
=============================================================================
