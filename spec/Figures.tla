------------------------------ MODULE Figures -------------------------------
(***************************************************************************)
(* Launchers of experiments and figures.                                   *)
(* A launcher prepares one configuration for each combination that its     *)
(* experiment compares; jobs run them, in any order, and leave results;    *)
(* figures then show, for each configuration, the mean (and the standard   *)
(* deviation) or the quartiles of the results of this configuration.       *)
(* Numbers are integers; x and y read on figures are multiplied by 1000,   *)
(* deviations by 100.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC


------------------------------------------------------------------------------
(* Statistics of non-empty sequences of integers. *)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Squares(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
\* Variance times the square of the length.
Variance(s) == Len(s) * Squares(s) - Sum(s) * Sum(s)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
\* Four times the quartile k = 1, 2, 3 (linear interpolation).
Quartile(s, k) ==
    LET t == Sorted(s)
        q == (Len(s) - 1) * k
        i == q \div 4
        f == q % 4
    IN IF f = 0 THEN 4 * t[i + 1] ELSE (4 - f) * t[i + 1] + f * t[i + 2]

Abs(n) == IF n < 0 THEN - n ELSE n
\* y (times 1000) is num / den.
Near(y, num, den) == Abs(y * den - 1000 * num) <= den
IsMean(y, s) == Near(y, Sum(s), Len(s))
IsQuartile(y, s, k) == Near(y, Quartile(s, k), 4)
\* d (times 100) is the standard deviation.
IsDeviation(d, s) ==
    LET n == Len(s) IN d >= 0 /\ Abs(n * n * d * d - 10000 * Variance(s)) <= n * n * (2 * d + 2)

------------------------------------------------------------------------------
(* What the launchers announce: sets of configurations (texts). *)
Policies == [preferences |-> {"never-hold", "always-hold", "pomcp"},
             multitask |-> {"pomcp", "repeat", "random"}]
Tasks == {"sequence", "uniform", "alternative"}
Twentieths == 0..20
Transitions == {3, 5, 7, 10, 15, 20, 25, 30, 35, 40, 60, 80, 100}
Subtasks == 1..9
Iterations == {15, 20, 30} \cup {50 * i : i \in 1..20}
Rollouts == {1, 5, 10, 30, 50, 75, 100}

\* Probabilities are given in twentieths.
Preference(i, p) == ("p_preference" :> ToString(i)) @@ ("policy" :> p) @@ ("n_evaluations" :> "100")
Multitask(t, p) == ("task" :> t) @@ ("policy" :> p)
HorizonOf(t, n, s) == ("horizon-type" :> t) @@ ("horizon-length" :> ToString(n)) @@ ("intermediate-rewards" :> s)
IterationsOf(n, r) == ("iterations" :> ToString(n)) @@ ("rollout-iterations" :> ToString(r))

Announced(script) ==
    CASE script = "preference" -> {Preference(i, p) : i \in Twentieths, p \in Policies.preferences}
      [] script = "multitask" -> {Multitask(t, p) : t \in Tasks, p \in Policies.multitask}
      [] OTHER -> {HorizonOf("transitions", n, s) : n \in Transitions, s \in {"true", "false"}}
                  \cup {HorizonOf("htm", n, s) : n \in Subtasks, s \in {"true", "false"}}
                  \cup {IterationsOf(n, r) : n \in Iterations, r \in Rollouts}

------------------------------------------------------------------------------
(* Lines of figures: what is on both axes, label, and for each x the configuration
   of which the results c ("ret" or "calls") are averaged. *)
Line(y, x, label, c, at) == [y |-> y, x |-> x, label |-> label, c |-> c, at |-> at]
Label(s) == IF s = "true" THEN "subtask rewards" ELSE "final rewards only"
Lines(script) ==
    CASE script = "preference" ->
           {Line("Average Return", "$p_H$", p, "ret", [x \in {50 * i : i \in Twentieths} |-> Preference(x \div 50, p)])
              : p \in Policies.preferences}
      [] script = "multitask" -> {}
      [] OTHER ->
           UNION {{Line(v[1], "Number of Transitions", Label(s), v[2],
                        [x \in {1000 * n : n \in Transitions} |-> HorizonOf("transitions", x \div 1000, s)]),
                   Line(v[1], "Number of HTM Transitions", Label(s), v[2],
                        [x \in {1000 * n : n \in Subtasks} |-> HorizonOf("htm", x \div 1000, s)])}
                    : v \in {<<"Average return", "ret">>, <<"Average number of calls to simulator", "calls">>},
                      s \in {"true", "false"}}
           \cup {Line("Average return", "Number of iterations", ToString(r) \o " rollout iterations", "ret",
                      [x \in {1000 * n : n \in Iterations} |-> IterationsOf(x \div 1000, r)]) : r \in Rollouts}

\* Boxes: title of the axes and configurations, by label.
Title(t) == CASE t = "sequence" -> "Sequence" [] t = "uniform" -> "Uniform" [] OTHER -> "Alternative"
Boxes(all) == {[title |-> Title(t),
                at |-> [p \in IF all \/ t = "sequence" THEN Policies.multitask ELSE Policies.multitask \ {"repeat"}
                          |-> Multitask(t, p)]] : t \in Tasks}

------------------------------------------------------------------------------
(* Launchers as transition systems. *)
NoResult == <<>>
Launcher(configs) == [configs |-> configs, prepared |-> {}, results |-> [c \in configs |-> NoResult], shown |-> {}]
Prepare(l) == [l EXCEPT !.prepared = l.configs]
Run(l, c, r) == [l EXCEPT !.results[c] = r]
Complete(l) == \A c \in l.configs : l.results[c] # NoResult
Show(l) == [l EXCEPT !.shown = {<<c, Sum(l.results[c]), Len(l.results[c])>> : c \in l.configs}]

------------------------------------------------------------------------------
(* Bars of progress. *)
Filled(size, done, todo) == (size * done) \div todo
Percent(done, todo) == (100 * done) \div todo
=============================================================================
