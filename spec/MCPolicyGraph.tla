--------------------------- MODULE MCPolicyGraph ---------------------------
(* All small policy graphs, followed by both kinds of runners.               *)
EXTENDS PolicyGraph
CONSTANTS NN, MaxSteps
VARIABLES g, cur, w, last, k
\* A model whose states are observed with errors.
M == [n |-> 2, D |-> 4, start |-> <<2, 2>>,
      T |-> <<<< <<4, 0>>, <<0, 4>> >>, << <<2, 2>>, <<0, 4>> >> >>,
      O |-> <<<< <<3, 1>>, <<1, 3>> >>, << <<4, 0>>, <<0, 4>> >> >>]
ASSUME Valid(M)
Graphs == {[actions |-> [i \in 1..NN |-> IF i = 1 THEN 1 ELSE 2], trans |-> t,
            values |-> v] : t \in [1..NN -> [1..2 -> 0..NN]],
            v \in [1..NN -> {<<0, 2>>, <<2, 0>>, <<1, 1>>}]}
Init == /\ g \in Graphs /\ w = Start(M) /\ cur \in BestNodes(g, w) /\ last = "reset" /\ k = 0
Step(o) == /\ last' = "step" /\ UNCHANGED g
           /\ IF g.trans[cur][o] = 0 \/ ~ Possible(M, g.actions[cur], o, w)
              THEN UNCHANGED <<cur, w>>   \* error
              ELSE cur' = g.trans[cur][o] /\ w' = Bayes(M, g.actions[cur], o, w)
Reset == last' = "reset" /\ w' = Start(M) /\ cur' \in BestNodes(g, w') /\ UNCHANGED g
Next == k < MaxSteps /\ k' = k + 1 /\ (Reset \/ \E o \in 1..2 : Step(o))
Spec == Init /\ [][Next]_<<g, cur, w, last, k>>
InGraph == cur \in Nodes(g) /\ WellFormed(g)
ResetIsBest == last = "reset" => \A n \in Nodes(g) : Dot(g.values[n], w) <= Dot(g.values[cur], w)
BestExists == BestNodes(g, w) # {}
=============================================================================
