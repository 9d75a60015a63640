-------------------------------- MODULE Ring --------------------------------
(* The consistent hashing ring. A tablet is identified by its position on the  *)
(* ring and owns the keys from the previous tablet (exclusive) up to itself    *)
(* (inclusive); the first tablet also owns everything after the last one.      *)
EXTENDS Integers, FiniteSets, Sequences

LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The tablet that owns the given key: the first at or clockwise after it.     *)
Owner(ids, k) ==
    LET after == {i \in ids : i >= k}
    IN  IF after = {} THEN MinOf(ids) ELSE MinOf(after)

(* All tablets that own some key of the inclusive range f..l, without          *)
(* enumerating the keys. A range with f > l wraps around the end of the ring.  *)
Cover(ids, f, l) ==
    IF ids = {} THEN {}
    ELSE (IF f <= l THEN {i \in ids : f <= i /\ i <= l}
                    ELSE {i \in ids : f <= i \/ i <= l}) \cup {Owner(ids, l)}

Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
