------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* The objects tasks are made of (states, conditions, actions, circuits,   *)
(* beliefs), their contents, and the collections that hold them.           *)
(*                                                                         *)
(* An object is described by a record with a kind and the fields that      *)
(* define its content.  Same is the equivalence of contents; collections   *)
(* (sets and dictionaries) hold one entry per content.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ToSet(s) == {s[i] : i \in 1..Len(s)}

\* Contents.  D maps names to descriptions.
RECURSIVE Same(_, _, _)
Same(D, x, y) ==
    LET a == D[x]
        b == D[y]
    IN x = y \/
       /\ a.kind = b.kind
       /\ CASE a.kind = "nd"      -> a.shape = b.shape /\ a.v = b.v
            [] a.kind = "own"     -> a.v = b.v
            [] a.kind = "cond"    -> a.m = b.m /\ a.v = b.v
            [] a.kind = "all"     -> TRUE
            [] a.kind = "prepost" -> Same(D, a.pre, b.pre) /\ Same(D, a.post, b.post)
            [] a.kind = "abs"     -> a.name = b.name
            [] a.kind = "meta"    ->
                  /\ a.of = b.of /\ a.ordered = b.ordered
                  /\ Len(a.sub) = Len(b.sub)
                  /\ IF a.ordered
                     THEN \A i \in 1..Len(a.sub) : Same(D, a.sub[i], b.sub[i])
                     ELSE /\ \A i \in 1..Len(a.sub) : \E j \in 1..Len(b.sub) :
                                Same(D, a.sub[i], b.sub[j])
                          /\ \A j \in 1..Len(b.sub) : \E i \in 1..Len(a.sub) :
                                Same(D, a.sub[i], b.sub[j])
            [] a.kind = "part"    -> a.id = b.id /\ a.label = b.label
            [] a.kind = "circuit" -> a.board = b.board /\ ToSet(a.parts) = ToSet(b.parts)
            [] a.kind = "belief"  -> a.v = b.v
            [] OTHER              -> FALSE   \* foreign objects: identity only

\* A (mask, value) condition on features.
Holds(m, v, f) == \A i \in 1..Len(m) : f[i] * m[i] = v[i]
WellFormed(m, v) == \A i \in 1..Len(m) : (1 - m[i]) * v[i] = 0

\* Circuits: a board holds parts, given as <<id, row, column, orientation>>.
Orientations == 4
PartIds == 20
Features(board, parts) == parts
Flat(board, x) ==   \* index of a part in the flattened features
    ((x[1] * board[1] + x[2]) * board[2] + x[3]) * Orientations + x[4]
PlaceExplains(x, before, after) == x \notin before /\ x \in after

------------------------------------------------------------------------------
(* Collections: the contents they hold, each with the last value put.       *)

VARIABLES coll    \* sequence of [key, val], one per content

CInit == coll = <<>>

IndexOf(D, x) == {i \in 1..Len(coll) : Same(D, coll[i].key, x)}
In(D, x) == IndexOf(D, x) # {}
Get(D, x) == LET i == CHOOSE i \in IndexOf(D, x) : TRUE IN coll[i].val

Put(D, x, v) ==
    coll' = IF In(D, x)
            THEN [i \in 1..Len(coll) |-> IF i \in IndexOf(D, x)
                     THEN [coll[i] EXCEPT !.val = v] ELSE coll[i]]
            ELSE Append(coll, [key |-> x, val |-> v])

Del(D, x) ==
    /\ In(D, x)
    /\ LET i == CHOOSE i \in IndexOf(D, x) : TRUE
       IN coll' = SubSeq(coll, 1, i - 1) \o SubSeq(coll, i + 1, Len(coll))
=============================================================================
