--------------------------- MODULE MCHoldRelease ---------------------------
EXTENDS HoldRelease
VARIABLES st, done, last
M == [wait |-> 1, fail |-> 10, com |-> 3, p |-> <<1, 5>>]
Init == st = "zero" /\ done = FALSE /\ last = <<"", "nothing">>
Next == \E a \in Actions : \E n \in DOMAIN Trans(M, a, st) :
          /\ st' = n
          /\ done' = (done \/ (n = "one"))
          /\ last' = <<a, Obs(a, n)>>
Spec == Init /\ [][Next]_<<st, done, last>> /\ WF_st(Next /\ st # "final" /\ st' # st)
ReleaseAfterHuman == st = "final" => done
Told == last[1] = "communicate" /\ st # "final" => (last[2] = "done" <=> st = "one")
Finishes == <>(st = "final")
Sums == \A a \in Actions : LET d == Trans(M, a, st) IN
    RSum([i \in 1..3 |-> IF <<"zero", "one", "final">>[i] \in DOMAIN d
                         THEN d[<<"zero", "one", "final">>[i]] ELSE RZero]) = ROne
=============================================================================
