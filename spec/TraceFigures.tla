---------------------------- MODULE TraceFigures ----------------------------
(* Traces of launchers, figures and bars.                                    *)
EXTENDS Figures, TraceLib

VARIABLES x
tvars == <<x>>
TInit == TraceLibInit /\ x = 0
Query(op, fails) == /\ IsEvent(op) /\ UNCHANGED <<tr, x>>
                    /\ IF fails = {} THEN Accept ELSE Reject(fails)

Same(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
Contents(f) == {f[n] : n \in DOMAIN f}

\* Configurations of jobs, by name.
TJobs == IsEvent("jobs") /\ Query("jobs",
    Must("prepared", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
       Must("configurations", Contents(Ev.jobs) = Announced(Ev.script))
       \cup Must("configuration-twice", Cardinality(DOMAIN Ev.jobs) = Cardinality(Announced(Ev.script)))
       \cup Must("files", Same(Ev.files, Ev.jobs))
       \cup Must("unknown-parameters", \A n \in DOMAIN Ev.jobs : DOMAIN Ev.jobs[n] \subseteq {Ev.known[i] : i \in DOMAIN Ev.known})
       \cup Must("script-of-jobs", Ev.right)))

\* Results of a configuration.
Of(c) == LET r == CHOOSE i \in DOMAIN Ev.results : Ev.results[i].cfg = c IN Ev.results[r]
Column(c, k) == IF k = "ret" THEN Of(c).ret ELSE Of(c).calls
Drawn(d, y) == d.y = y.y /\ d.x = y.x /\ d.label = y.label
Follows(d, y) ==
    /\ Len(d.pts) = Cardinality(DOMAIN y.at)
    /\ {d.pts[i][1] : i \in DOMAIN d.pts} = DOMAIN y.at
    /\ \A i \in DOMAIN d.pts : IsMean(d.pts[i][2], Column(y.at[d.pts[i][1]], y.c))
Deviates(d, y) ==
    \A i \in DOMAIN d.pts : \A j \in 3..Len(d.pts[i]) : IsDeviation(d.pts[i][j], Column(y.at[d.pts[i][1]], y.c))
TFigure == IsEvent("figure") /\ Query("figure",
    Must("drawn", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
       LET E == Lines(Ev.script) IN
       Must("number-of-lines", Len(Ev.lines) = Cardinality(E))
       \cup (IF \E y \in E : ~ \E i \in DOMAIN Ev.lines : Drawn(Ev.lines[i], y) THEN {"missing-line"} ELSE
         UNION {LET d == Ev.lines[CHOOSE i \in DOMAIN Ev.lines : Drawn(Ev.lines[i], y)] IN
                  IF ~ Follows(d, y) THEN {"means"}
                  ELSE Must("deviations", Deviates(d, y))
                       \cup Must("deviations-shown", \A i \in DOMAIN d.pts : (Len(d.pts[i]) > 2) <=> Ev.var)
                : y \in E})
       \cup Must("legend", \A i \in DOMAIN Ev.legend : Ev.legend[i][1] = Ev.legend[i][2])))

BoxOf(b, s) == /\ IsQuartile(b[2], s, 1) /\ IsQuartile(b[3], s, 2) /\ IsQuartile(b[4], s, 3)
TBoxes == IsEvent("boxes") /\ Query("boxes",
    Must("drawn", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
       LET E == Boxes(Ev.all) IN
       Must("number-of-axes", Len(Ev.axes) = Cardinality(E))
       \cup UNION {
          LET A == {i \in DOMAIN Ev.axes : Ev.axes[i].title = b.title} IN
          IF Cardinality(A) # 1 THEN {"missing-axes"}
          ELSE LET a == Ev.axes[CHOOSE i \in A : TRUE].boxes IN
               IF ~ (Len(a) = Cardinality(DOMAIN b.at) /\ {a[i][1] : i \in DOMAIN a} = DOMAIN b.at) THEN {"labels-of-boxes"}
               ELSE Must("boxes", \A i \in DOMAIN a : BoxOf(a[i], Of(b.at[a[i][1]]).ret))
          : b \in E}))
\* Averages that are printed: [task, policy, average]
TPrinted == IsEvent("printed") /\ Query("printed",
    Must("printed", Ev.out = "ok" /\ {<<Ev.avg[i][1], Ev.avg[i][2]>> : i \in DOMAIN Ev.avg} = Tasks \X Policies.multitask
                    /\ Len(Ev.avg) = 9)
    \cup (IF Ev.out # "ok" THEN {} ELSE
       Must("averages", \A i \in DOMAIN Ev.avg : <<Ev.avg[i][1], Ev.avg[i][2]>> \in Tasks \X Policies.multitask
             => IsMean(Ev.avg[i][3], Of(Multitask(Ev.avg[i][1], Ev.avg[i][2])).ret))))
\* Parameters for printing: given ones come last.
TPrint == IsEvent("print") /\ Query("print",
    Must("parameters-for-printing", Ev.out = "ok")
    \cup Must("given-parameters-for-printing", Ev.out = "ok" => \A i \in DOMAIN Ev.set : Ev.set[i][2] = Ev.set[i][3])
    \cup Must("defaults-for-printing", Ev.kept))

\* Library.
TCurve == IsEvent("curve") /\ Query("curve",
    Must("drawn", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
       Must("points", Len(Ev.pts) = Len(Ev.data) /\ \A i \in DOMAIN Ev.pts : Ev.pts[i][1] = Ev.xs[i])
       \cup (IF Len(Ev.pts) # Len(Ev.data) THEN {} ELSE
         Must("means", \A i \in DOMAIN Ev.pts : IsMean(Ev.pts[i][2], Ev.data[i]))
         \cup Must("fill", IF Ev.var /\ Ev.style \in {"fill", "both"}
                           THEN Len(Ev.fill) = Len(Ev.data) /\ \A i \in DOMAIN Ev.fill : IsDeviation(Ev.fill[i], Ev.data[i])
                           ELSE Ev.fill = <<>>)
         \cup Must("bars", IF Ev.var /\ Ev.style \in {"bar", "both"}
                           THEN Len(Ev.bars) = Len(Ev.data) /\ \A i \in DOMAIN Ev.bars : IsDeviation(Ev.bars[i], Ev.data[i])
                           ELSE Ev.bars = <<>>))
       \cup Must("axes", Ev.axes) \cup Must("colour", Ev.colour)))
TBox == IsEvent("box") /\ Query("box",
    Must("drawn", Ev.out = "ok")
    \cup (IF Ev.out # "ok" THEN {} ELSE
       Must("boxes", Len(Ev.boxes) = Len(Ev.data) /\ \A i \in DOMAIN Ev.boxes : BoxOf(Ev.boxes[i], Ev.data[i]))
       \cup Must("labels-of-boxes", [i \in DOMAIN Ev.boxes |-> Ev.boxes[i][1]] = Ev.labels)
       \cup Must("axes", Ev.axes) \cup Must("colour", Ev.colour)))
\* Beliefs, or any matrix: cells, labels at the centres of rows and columns.
Centres(n) == [i \in 1..n |-> 1000 * i - 500]
Indices(n) == [i \in 1..n |-> ToString(i - 1)]
TMesh == IsEvent("mesh") /\ Query("mesh",
    LET rows == Len(Ev.data) cols == Len(Ev.data[1])
        good == (Ev.xl.is => Len(Ev.xl.l) = cols) /\ (Ev.yl.is => Len(Ev.yl.l) = rows)
    IN IF Ev.beliefs /\ ~ good THEN Must("wrong-labels-accepted", Ev.out # "ok")
       ELSE Must("drawn", Ev.out = "ok")
       \cup (IF Ev.out # "ok" THEN {} ELSE
         Must("cells", Ev.cells = Ev.data)
         \cup Must("limits", Ev.lim = <<0, 1000 * cols, 0, 1000 * rows>>)
         \cup Must("axes", Ev.axes)
         \cup (IF ~ (Ev.beliefs \/ Ev.xl.is) THEN {} ELSE
               Must("x-labels", Ev.xt = Centres(cols) /\ Ev.xs = IF Ev.xl.is THEN Ev.xl.l ELSE Indices(cols)))
         \cup (IF ~ (Ev.beliefs \/ Ev.yl.is) THEN {} ELSE
               Must("y-labels", Ev.yt = Centres(rows) /\ Ev.ys = IF Ev.yl.is THEN Ev.yl.l ELSE Indices(rows)))))
\* What is removed from axes.
TJunk == IsEvent("junk") /\ Query("junk",
    Must("removed", Ev.out = "ok" /\ Ev.hidden = Ev.gone /\ Ev.unnamed = Ev.names /\ Ev.unticked = Ev.ticks))
TBar == IsEvent("bar") /\ Query("bar",
    Must("bar", Ev.out = "ok" /\ Ev.filled = Filled(Ev.size, Ev.done, Ev.todo)
                /\ Ev.filled + Ev.empty = Ev.size /\ Ev.percent = Percent(Ev.done, Ev.todo))
    \cup Must("count", Ev.count = IF Ev.counted THEN <<Ev.done, Ev.todo>> ELSE <<>>))

TCrash == \/ Query("crash", {"unexpected-exception"})
          \/ Query("hang", {"does-not-terminate"})
TNext == \/ TJobs \/ TFigure \/ TBoxes \/ TPrinted \/ TPrint \/ TCurve \/ TBox \/ TMesh \/ TBar \/ TJunk \/ TCrash
         \/ (Finish /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_<<tvars, tr, ln>>
=============================================================================
