------------------------------ MODULE MCObjects ------------------------------
(***************************************************************************)
(* Why coherence matters: a hash table over objects whose hash only        *)
(* depends on the content implements exactly the collection of contents.   *)
(* All hash functions of contents and all histories are explored.          *)
(***************************************************************************)
EXTENDS Objects

CONSTANT Buckets, MaxLen

D == [ a1 |-> [kind |-> "abs", name |-> "a"], a2 |-> [kind |-> "abs", name |-> "a"],
       b  |-> [kind |-> "abs", name |-> "b"],
       m1 |-> [kind |-> "meta", of |-> "sequence", ordered |-> TRUE, sub |-> <<"a1", "b">>],
       m2 |-> [kind |-> "meta", of |-> "sequence", ordered |-> TRUE, sub |-> <<"a2", "b">>],
       m3 |-> [kind |-> "meta", of |-> "sequence", ordered |-> TRUE, sub |-> <<"b", "a1">>],
       s1 |-> [kind |-> "meta", of |-> "parallel", ordered |-> FALSE, sub |-> <<"a1", "b">>],
       s2 |-> [kind |-> "meta", of |-> "parallel", ordered |-> FALSE, sub |-> <<"b", "a2">>] ]
Names == DOMAIN D
Class(x) == {y \in Names : Same(D, x, y)}

VARIABLES hash,   \* hash of each class of contents
          table   \* bucket -> set of [key, val]

Find(x) == {e \in table[hash[Class(x)]] : Same(D, e.key, x)}

Init == /\ CInit
        /\ hash \in [{Class(x) : x \in Names} -> Buckets]
        /\ table = [h \in Buckets |-> {}]

Next == \E x \in Names, v \in 0..1 :
    \/ /\ Len(coll) < MaxLen \/ In(D, x)
       /\ Put(D, x, v) /\ UNCHANGED hash
       /\ table' = [table EXCEPT ![hash[Class(x)]] =
             IF Find(x) = {} THEN @ \cup {[key |-> x, val |-> v]}
             ELSE (@ \ Find(x)) \cup {[key |-> e.key, val |-> v] : e \in Find(x)}]
    \/ /\ v = 0 /\ Del(D, x) /\ UNCHANGED hash
       /\ table' = [table EXCEPT ![hash[Class(x)]] = @ \ Find(x)]

Spec == Init /\ [][Next]_<<coll, hash, table>>

Equivalence == \A x, y, z \in Names :
    /\ Same(D, x, x) /\ (Same(D, x, y) <=> Same(D, y, x))
    /\ Same(D, x, y) /\ Same(D, y, z) => Same(D, x, z)
OnePerContent == \A i, j \in 1..Len(coll) : Same(D, coll[i].key, coll[j].key) => i = j
Implements ==
    /\ ToSet(coll) = UNION {table[h] : h \in Buckets}
    /\ \A x \in Names : In(D, x) <=> Find(x) # {}
=============================================================================
