------------------------------ MODULE TaskTree ------------------------------
(* The machine: a task tree that is expanded, copied and given probabilities. *)

EXTENDS TaskTrees

VARIABLE tree

SetProba(p, pr) == At(tree, p).k = "Alternative" /\ ValidProba(pr)
                   /\ tree' = Replace(tree, p, [At(tree, p) EXCEPT !.pr = pr])
RejectProba(p, pr) == ~ ValidProba(pr) /\ UNCHANGED tree
ExpandAt(p, x) == At(tree, p).k = "Parallel" /\ IsExpansion(At(tree, p), x)
                  /\ tree' = Replace(tree, p, x)
CopyAt(p, suffix) == tree' = Replace(tree, p, CopyTree(At(tree, p), suffix))
=============================================================================
