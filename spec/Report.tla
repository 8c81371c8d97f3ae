-------------------------------- MODULE Report ---------------------------------
(* What a run prints.  Rank 0 prints lines with figures; each describes what    *)
(* the run has done up to then.  What the run does: sweeps (transport sweeps,   *)
(* or sweeps of every partition for itself), exchanges of boundary values, and  *)
(* linear solves (which may be nested).                                         *)
(*                                                                              *)
(* p as in Source, and algo, si, ddIterMax, ranks, threads, sig (the printed    *)
(* cross sections), fl: sweep -> cell -> angle -> vertex -> group -> flux after *)
(* it; sched: group of angles -> step -> rank -> pairs solved.                  *)
(*                                                                              *)
(* Lines [k: kind, n: number, x: real as printed, "bad" if not finite, l: list].*)
EXTENDS Source, TLC

VARIABLES
    swept,     \* sweeps done
    inSource,  \* source iterations reported in this source iteration (call)
    mark,      \* sweeps done when the last source iteration was reported
    calls,     \* completed calls: their numbers of iterations
    dd,        \* sweeps since the last count of an inner Jacobi iteration
    swapped,   \* was the last event (but lines) an exchange?
    ddMark,    \* sweep whose flux the last relative change was reported for
    open,      \* stack of linear solves [xc: exchanges within, nest: solves within]
    solves,    \* finished linear solves [its, rnorm, applies, deep, xc, nest]
    count      \* kind -> lines printed

reportVars == <<swept, inSource, mark, calls, dd, swapped, ddMark, open, solves, count>>
Kinds == {"sigma", "threads", "steps", "eff", "iter", "over", "krylov", "pbj", "list", "local", "rel",
          "schurIts", "schurNorm", "schurSweeps", "outerIts", "outerNorm", "outerQ", "outerKSP", "outerEnd",
          "skIts", "skNorm", "l2", "diff"}

ReportInit ==
    /\ swept = 0 /\ inSource = 0 /\ mark = 0 /\ calls = << >> /\ dd = 0 /\ swapped = FALSE /\ ddMark = 0
    /\ open = << >> /\ solves = << >> /\ count = [k \in Kinds |-> 0]

\* ---- figures -----------------------------------------------------------------
\* A real as printed is value v: seven digits
Printed(x, v) == IF x = "bad" THEN ~FFinite(v) ELSE FFinite(v) /\ FClose(FDec(x), v, FDec("2e-6"), FDec("1e-12"))
PrintedF(x, v) == IF x = "bad" THEN ~FFinite(v) ELSE FFinite(v) /\ FClose(FDec(x), v, FInt(0), FDec("1.1e-6"))

NC(p) == Len(p.points)
NA(p) == Len(p.wt)
NoPsi(p) == [c \in 1..NC(p) |-> [a \in 1..NA(p) |-> [v \in 1..4 |-> [g \in 1..p.ng |-> FInt(0)]]]]
PsiAfter(p, n) == IF n = 0 THEN NoPsi(p) ELSE p.fl[n]
PhiAfter(p, n) == IF n = 0 THEN NoFlux(p) ELSE Moments(p, p.fl[n])
RelChange(u, w) == FDiv(FAbsSum([i \in 1..Len(u) |-> FSub(w[i], u[i])]), FAbsSum(w))
PhiChange(p, m, n) == RelChange(Flat(p, PhiAfter(p, m)), Flat(p, PhiAfter(p, n)))
FlatPsi(p, fl) == LET na == NA(p) m == na * 4 * p.ng IN
    [i \in 1..(NC(p) * m) |-> fl[((i-1) \div m) + 1][(((i-1) \div (4*p.ng)) % na) + 1][(((i-1) \div p.ng) % 4) + 1][((i-1) % p.ng) + 1]]
PsiChange(p, m, n) == RelChange(FlatPsi(p, PsiAfter(p, m)), FlatPsi(p, PsiAfter(p, n)))

\* The solution that the external source belongs to, at the middle of a cell
Middle(q) == [i \in 1..3 |-> FDiv(FAdd(FAdd(q[1][i], q[2][i]), FAdd(q[3][i], q[4][i])), FInt(4))]
Hat(x) == LET c == VNorm(Centre(x)) IN IF FLe(c, FInt(30)) THEN FSub(FInt(1), FDiv(c, FInt(30))) ELSE FInt(0)
CellMean(fl, c, a, g) == FDiv(FAdd(FAdd(fl[c][a][1][g], fl[c][a][2][g]), FAdd(fl[c][a][3][g], fl[c][a][4][g])), FInt(4))
Means(p, fl) == LET m == NA(p) * p.ng IN
    [i \in 1..(NC(p) * m) |-> CellMean(fl, ((i-1) \div m) + 1, (((i-1) \div p.ng) % NA(p)) + 1, ((i-1) % p.ng) + 1)]
HatError(p, fl) ==
    LET m == NA(p) * p.ng
        u == Strict(Means(p, fl))
        h == Strict([c \in 1..NC(p) |-> Hat(Middle(p.points[c]))])
        d == [i \in 1..Len(u) |-> FSub(u[i], h[((i-1) \div m) + 1])]
    IN FSqrt(FDiv(FDot(d, d), FDot(u, u)))

\* Largest difference of a group from the first, relative to the largest value of the first.
GroupSpread(p, fl) ==
    LET one(c, a, v) == fl[c][a][v][1]
        d(c, a, v) == FMaxAbs([g \in 1..p.ng |-> FSub(fl[c][a][v][g], one(c, a, v))])
    IN FDiv(FMaxAbs([c \in 1..NC(p) |-> FMaxAbs([a \in 1..NA(p) |-> FMaxAbs([v \in 1..4 |-> d(c, a, v)])])]),
            FMaxAbs([c \in 1..NC(p) |-> FMaxAbs([a \in 1..NA(p) |-> FMaxAbs([v \in 1..4 |-> one(c, a, v)])])]))

\* Work of all ranks over the time of the schedule, if a step takes as long as its longest part
RECURSIVE SumOf(_)
SumOf(q) == IF q = << >> THEN 0 ELSE q[1] + SumOf(Tail(q))
MaxOf(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= m
Pairs(s) == SumOf([i \in 1..Len(s) |-> SumOf(s[i])])
Span(s) == SumOf([i \in 1..Len(s) |-> MaxOf(s[i])])
Efficiency(p, s) == FDiv(FInt(Pairs(s)), FInt(p.ranks * Span(s)))

\* ---- what is done ----------------------------------------------------------------
SweepDone == /\ swept' = swept + 1 /\ dd' = dd + 1 /\ swapped' = FALSE
             /\ UNCHANGED <<inSource, mark, calls, ddMark, open, solves, count>>
ExchangeDone == /\ swapped' = TRUE
                /\ open' = [i \in 1..Len(open) |-> [open[i] EXCEPT !.xc = TRUE]]
                /\ UNCHANGED <<swept, inSource, mark, calls, dd, ddMark, solves, count>>
SolveBegins == /\ open' = Append([i \in 1..Len(open) |-> [open[i] EXCEPT !.nest = TRUE]], [xc |-> FALSE, nest |-> FALSE])
               /\ UNCHANGED <<swept, inSource, mark, calls, dd, swapped, ddMark, solves, count>>
SolveEnds(e) ==
    LET o == open[Len(open)] IN
    /\ open' = SubSeq(open, 1, Len(open) - 1)
    /\ solves' = Append(solves, [its |-> e.its, rnorm |-> e.rnorm, applies |-> e.applies, deep |-> Len(open) - 1, xc |-> o.xc, nest |-> o.nest])
    /\ UNCHANGED <<swept, inSource, mark, calls, dd, swapped, ddMark, count>>

\* ---- which figures are right ---------------------------------------------------------
\* the last linear solve of kind Q(x)
Last(Q(_)) == LET s == {i \in 1..Len(solves) : Q(solves[i])} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
Inner(x) == x.deep = Len(open)
\* the solve for the scalar flux: with Schur, the one that has solves within, or does nothing
Outer(p, x) == x.deep = Len(open) /\ (p.algo = "Schur" => x.nest \/ x.applies = 0)
\* the solve over boundary values that SchurOuter and SchurKrylov make
Boundary(x) == x.deep = 0 /\ (x.xc \/ x.applies = 0)
SchurSolve(x) == x.deep = Len(open)
HasIts(i, n) == i # 0 /\ solves[i].its = n
HasNorm(i, x) == i # 0 /\ Printed(x, solves[i].rnorm)
Full(p) == p.algo \in {"TraverseGraph", "OriginalTycho1", "OriginalTycho2"}
\* number with which an iteration over the boundary values ends
Ending(p, n, late) == IF n < p.ddIterMax - 1 THEN {n}
                      ELSE IF late THEN {n + 1} ELSE {n}
LineOk(p, e) ==
    CASE e.k = "sigma" -> e.l = p.sig
      [] e.k = "threads" -> e.n = p.threads
      [] e.k = "steps" -> count["steps"] < Len(p.sched) /\ e.n = Len(p.sched[count["steps"] + 1])
      [] e.k = "eff" -> count["eff"] < Len(p.sched) /\ PrintedF(e.x, Efficiency(p, p.sched[count["eff"] + 1]))
      [] e.k = "iter" -> /\ e.n = inSource
                         /\ Full(p) => swept = mark + 1
                         /\ \/ Printed(e.x, PhiChange(p, mark, swept))
                            \/ inSource = 0 /\ Printed(e.x, PhiChange(p, 0, swept))
      [] e.k = "over" -> Full(p) => (mark = swept /\ inSource = swept)
      [] e.k = "krylov" -> IF p.algo = "Schur" THEN \E i \in 1..Len(solves) : Outer(p, solves[i]) /\ HasIts(i, e.n) /\ HasNorm(i, e.x)
                           ELSE HasIts(Last(Inner), e.n) /\ HasNorm(Last(Inner), e.x)
      [] e.k = "pbj" -> IF p.algo = "PBJ" THEN e.n \in Ending(p, dd, swapped \/ dd = 0)
                        ELSE IF p.algo = "PBJOuter" THEN e.n \in Ending(p, count["rel"], swapped \/ count["rel"] = 0)
                        ELSE e.n \in Ending(p, count["rel"], TRUE) \cup Ending(p, count["rel"], FALSE)
      [] e.k = "list" -> e.l = (IF p.algo = "PBJOuter" THEN calls ELSE << >>)
      [] e.k = "local" -> e.n = swept
      [] e.k = "rel" -> IF p.algo = "PBJOuter" THEN Printed(e.x, PsiChange(p, ddMark, swept)) /\ Len(calls) = count["rel"] + 1
                        ELSE Printed(e.x, PhiChange(p, swept - 1, swept))
      [] e.k = "schurIts" -> HasIts(Last(SchurSolve), e.n)
      [] e.k = "schurNorm" -> HasNorm(Last(SchurSolve), e.x)
      \* counted as if every iteration made one sweep
      [] e.k = "schurSweeps" -> LET all == SumOf([i \in 1..Len(solves) |-> solves[i].its + 2]) IN
                                \/ e.n = swept
                                \/ p.si /\ e.n = all
                                \/ ~p.si /\ \E i \in 1..Len(solves) : Outer(p, solves[i]) /\ e.n = all - solves[i].its - 2
      [] e.k \in {"outerIts", "skIts"} -> \E i \in 1..Len(solves) : Boundary(solves[i]) /\ solves[i].its = e.n
      [] e.k \in {"outerNorm", "skNorm"} -> \E i \in 1..Len(solves) : Boundary(solves[i]) /\ Printed(e.x, solves[i].rnorm)
      [] e.k = "outerQ" -> Len(calls) > 0 /\ e.n = calls[1]
      [] e.k = "outerEnd" -> Len(calls) > 1 /\ e.n = calls[Len(calls)]
      [] e.k = "outerKSP" -> /\ Len(calls) > 1 /\ e.l = SubSeq(calls, 2, Len(calls) - 1)
                             /\ \E i \in 1..Len(solves) : Boundary(solves[i]) /\ solves[i].applies = Len(e.l)
      [] e.k = "l2" -> Printed(e.x, HatError(p, PsiAfter(p, swept)))
      [] e.k = "diff" -> Printed(e.x, GroupSpread(p, PsiAfter(p, swept)))
LinePrinted(p, e) ==
    /\ count' = [count EXCEPT ![e.k] = @ + 1]
    /\ inSource' = IF e.k = "iter" THEN inSource + 1 ELSE IF e.k \in {"over", "krylov"} THEN 0 ELSE inSource
    /\ mark' = IF e.k = "iter" THEN swept ELSE mark
    /\ calls' = IF e.k = "over" THEN Append(calls, inSource) ELSE IF e.k = "krylov" THEN Append(calls, e.n) ELSE calls
    /\ dd' = IF e.k = "pbj" THEN 0 ELSE dd
    /\ swapped' = IF e.k = "pbj" THEN FALSE ELSE swapped
    /\ ddMark' = IF e.k = "rel" THEN swept ELSE ddMark
    /\ UNCHANGED <<swept, open, solves>>

\* ---- what must have been printed at the end -------------------------------------------
Wanted(p) ==
    LET one(s) == [k \in s |-> 1]
        schur == IF p.si THEN Len(solves) ELSE Len(solves) - 1
        base == one({"sigma", "threads", "l2", "diff"})
        calling == IF p.si THEN "over" ELSE "krylov"
        W(f) == f @@ base
    IN CASE p.algo \in {"OriginalTycho1", "OriginalTycho2"} -> W([k \in {"steps", "eff"} |-> Len(p.sched)] @@ one({calling}))
         [] p.algo = "TraverseGraph" -> W(one({calling}))
         [] p.algo = "PBJ" -> W(one({calling, "local"}) @@ (IF p.si THEN [k \in {"pbj"} |-> count["iter"]] ELSE << >>))
         [] p.algo = "PBJOuter" -> W(one({"pbj", "list"}) @@ [k \in {calling, "rel"} |-> Len(calls)])
         [] p.algo = "PBJSI" -> W(one({"pbj", "list"}) @@ [k \in {"rel"} |-> swept])
         [] p.algo = "Schur" -> W(one({calling, "schurSweeps"}) @@ [k \in {"schurIts", "schurNorm"} |-> schur])
         [] p.algo = "SchurOuter" -> W(one({"outerIts", "outerNorm", "outerQ", "outerKSP", "outerEnd"}) @@ [k \in {calling} |-> Len(calls)])
         [] p.algo = "SchurKrylov" -> W(one({"skIts", "skNorm"}))
Complete(p) == \A k \in DOMAIN Wanted(p) : count[k] = Wanted(p)[k]
================================================================================
