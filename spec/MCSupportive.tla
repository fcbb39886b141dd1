---------------------------- MODULE MCSupportive ----------------------------
(* Runs of small models of supportive behaviours, in all their states.       *)
EXTENDS Supportive
CONSTANTS Level
VARIABLES m, x, done, total, ended

vars == <<m, x, done, total, ended>>
Cond(c, o) == [c |-> c, o |-> o]
L(hold, conds) == [hold |-> hold, conds |-> conds]
Shapes == { [leaf |-> <<l>>, succs |-> << <<2>> >>, init |-> <<1>>] :
              l \in {L("h", <<Cond("S", 1)>>), L("v", <<Cond("C", 1), Cond("U", 2)>>), L("", <<>>)} }
          \cup { [leaf |-> <<L("h", <<Cond("U", 2)>>), L("v", <<Cond("C", 1)>>)>>,
                  succs |-> << <<2>>, <<3>> >>, init |-> <<1>>],
                 [leaf |-> <<L("h", <<Cond("S", 2)>>), L("", <<Cond("C", 1)>>)>>,
                  succs |-> << <<3>>, <<3>> >>, init |-> <<1, 2>>] }
          \cup IF Level < 2 THEN {} ELSE
               { [leaf |-> <<L("h", <<Cond("U", 2), Cond("C", 2)>>), L("v", <<Cond("C", 1)>>), L("h", <<Cond("S", 1), Cond("S", 2)>>)>>,
                  succs |-> << <<2, 3>>, <<4>>, <<4>> >>, init |-> <<1>>] }
ClearOf(sh) == [o \in 1..2 |-> \E i \in 1..Len(sh.leaf) : \E j \in 1..Len(sh.leaf[i].conds) :
                  sh.leaf[i].conds[j].o = o /\ sh.leaf[i].conds[j].c # "C"]
Models == {[leaf |-> sh.leaf, succs |-> sh.succs, init |-> sh.init, nobj |-> 2, clear |-> ClearOf(sh),
            npref |-> 1, ppref |-> <<Rat(3, 10)>>, pfail |-> Rat(1, 10), pall |-> Rat(1, 2),
            pobj |-> po, pchange |-> po, rsub |-> 10, rfin |-> 100, rpref |-> 7, indep |-> i,
            cget |-> 15, cintr |-> 1, chold |-> 2] :
           sh \in Shapes, po \in {RZero, Rat(1, 10)}, i \in BOOLEAN}

Set(l) == {l[i] : i \in 1..Len(l)}
Init == /\ m \in Models /\ x \in {s.x : s \in Set(Starts(m))}
        /\ done = <<>> /\ total = 0 /\ ended = 0
Next == /\ ended < 2
        /\ \E a \in Set(Actions(m)) : \E y \in Set(Outcomes(m, a, x, TRUE)) :
             /\ x' = y.t
             /\ done' = IF y.t.h # x.h /\ x.h <= Steps(m) THEN Append(done, x.h) ELSE done
             /\ total' = IF y.r > 50 THEN total + 1 ELSE total
             /\ ended' = IF x.h = Final(m) THEN 2 ELSE ended
        /\ UNCHANGED m
Spec == Init /\ [][Next]_vars

Acts == Set(Actions(m))
Both == BOOLEAN
Sums == \A a \in Acts, r \in Both : PSum(Outcomes(m, a, x, r)) = ROne
StartSums == PSum(Starts(m)) = ROne
Codes == \A s \in 0..(NStates(m) - 1) : Encode(m, Decode(m, s)) = s
CodesBack == Decode(m, Encode(m, x)) = x /\ Encode(m, x) \in 0..(NStates(m) - 1)
Moves == \A a \in Acts : \A y \in Set(Outcomes(m, a, x, TRUE)) :
    /\ y.t.body = x.body
    /\ y.t.h = x.h \/ (x.h <= Steps(m) /\ y.t.h \in Set(m.succs[x.h])) \/ (x.h = Clean(m) /\ y.t.h = Final(m))
    /\ y.o # "none" => y.t.h = x.h
\* The final reward is given once, when everything was cleaned.
FinalOnce == total = IF x.h = Final(m) THEN 1 ELSE 0
\* What was done makes up an execution, or its beginning.
Follows == LET W == AllWalks(m, Steps(m)) IN
    /\ x.h > Steps(m) => done \in W
    /\ \E w \in W : Len(done) <= Len(w) /\ SubSeq(w, 1, Len(done)) = done
\* Without randomness, what happens was possible, with the same reward.
Likely == \A a \in Acts : \A y \in Set(Outcomes(m, a, x, FALSE)) :
    \E z \in Set(Outcomes(m, a, x, TRUE)) : z.t = y.t /\ z.o = y.o /\ z.r = y.r
\* The best reward is the same whatever the preference, when so chosen.
BestOf(y) == LET R == UNION {{z.r : z \in Set(Act(m, a, y, FALSE))} : a \in {b \in Acts : b.k \in {"wait", "H", "V"}}}
             IN CHOOSE r \in R : \A q \in R : q <= r
Fair == (m.indep /\ x.h <= Steps(m) /\ m.leaf[x.h].hold # "") =>
    BestOf([x EXCEPT !.pr = <<0>>]) = BestOf([x EXCEPT !.pr = <<1>>])
\* Waiting until the end is always possible.
CanEnd == x.h # Final(m) => \A y \in Set(Act(m, Kind("wait", 0), x, FALSE)) : y.t.h # x.h
Numbers == Cardinality(Acts) = Len(Actions(m)) /\ Len(Actions(m)) = 4 + 2 + Cardinality({o \in 1..2 : m.clear[o]})
=============================================================================
