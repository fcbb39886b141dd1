----------------------------- MODULE MCFigures ------------------------------
(* Launchers of all scripts, with jobs that give any short results.          *)
EXTENDS Figures
CONSTANTS Values, Longest, Jobs
VARIABLES l

Results == UNION {[1..n -> Values] : n \in 1..Longest}
Init == l = Launcher(Jobs)
PrepareAll == l.prepared = {} /\ l' = Prepare(l)
RunOne == \E c \in l.prepared : l.results[c] = NoResult /\ \E r \in Results : l' = Run(l, c, r)
ShowAll == l.prepared # {} /\ Complete(l) /\ l.shown = {} /\ l' = Show(l)
Next == PrepareAll \/ RunOne \/ ShowAll
Spec == Init /\ [][Next]_l /\ WF_l(Next)

\* Nothing runs that is not prepared, nothing is shown before all of it has run.
OnlyPrepared == \A c \in l.configs : l.results[c] # NoResult => c \in l.prepared
OnlyComplete == l.shown # {} => Complete(l)
OncePerConfiguration == l.shown # {} => \A c \in l.configs : Cardinality({x \in l.shown : x[1] = c}) = 1
\* Statistics.
Statistics == \A c \in l.configs : LET s == l.results[c] IN s # NoResult =>
    LET t == Sorted(s) n == Len(s) IN
    /\ n * t[1] <= Sum(s) /\ Sum(s) <= n * t[n]
    /\ Variance(s) >= 0 /\ ((Variance(s) = 0) <=> (t[1] = t[n]))
    /\ 4 * t[1] <= Quartile(s, 1) /\ Quartile(s, 1) <= Quartile(s, 2)
    /\ Quartile(s, 2) <= Quartile(s, 3) /\ Quartile(s, 3) <= 4 * t[n]
    /\ Quartile(Reverse(s), 2) = Quartile(s, 2)
    /\ Quartile([i \in 1..n |-> - s[i]], 1) = - Quartile(s, 3)
    /\ 2 * Cardinality({i \in 1..n : 4 * s[i] <= Quartile(s, 2)}) >= n
\* Figures only show announced experiments, and all of these.
ASSUME \A script \in {"preference", "pomcp"} :
    /\ \A y \in Lines(script) : \A x \in DOMAIN y.at : y.at[x] \in Announced(script)
    /\ \A c \in Announced(script) : \E y \in Lines(script) : \E x \in DOMAIN y.at : y.at[x] = c
ASSUME UNION {{b.at[p] : p \in DOMAIN b.at} : b \in Boxes(TRUE)} = Announced("multitask")
ASSUME Cardinality(Announced("preference")) = 63 /\ Cardinality(Announced("multitask")) = 9
ASSUME Cardinality(Announced("pomcp")) = 2 * 13 + 2 * 9 + 23 * 7
Shown == <>(l.shown # {})
=============================================================================
