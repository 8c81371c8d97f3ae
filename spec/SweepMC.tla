------------------------------- MODULE SweepMC --------------------------------
(* Sweep for every small problem, with symbolic values: whatever the order in   *)
(* which ranks begin and end sweeps, solve cells and exchange, every result is  *)
(* the one that the recurrence Ref gives (so all behaviours end alike), nothing *)
(* gets stuck, and the trace rules of Sweep (SolveOk, InflowOk) agree with it.  *)
(*                                                                              *)
(* Cells 1..N, face j of cell i leads to cell j; edges i -> j (i < j).          *)
(* variant names wrong implementations: "early" (does not wait for upwind       *)
(* cells), "fresh" (uses the newest values of other ranks, not those of the     *)
(* exchange), "skip" (a rank may leave out an exchange), "again" (solves twice),*)
(* "short" (ends a sweep before all cells are solved), "cycle" (adds the edge   *)
(* N -> 1).                                                                     *)
EXTENDS Sweep, TLC
CONSTANTS N, Ranks, Sweeps, Couplings, Variants, Edges
VARIABLES pr, bad
mcVars == <<pr, bad>>

C == 1..N
AllEdges == {e \in C \X C : e[1] < e[2]}
Owners(n) == {f \in [C -> 1..n] : (\A c \in C : \A m \in 1..(f[c]-1) : \E b \in 1..(c-1) : f[b] = m) /\ \E c \in C : f[c] = n}
Kind(g, c, f) == IF <<f, c>> \in g THEN "in" ELSE IF <<c, f>> \in g THEN "out"
                 ELSE IF f = c THEN "in" ELSE "along"    \* face c of cell c lies on the boundary
Problem(n, f, g, k, v) ==
    [nr |-> n, own |-> f, cpl |-> k, variant |-> v, zeroable |-> FALSE,
     adj |-> [c \in C |-> [x \in Faces |-> IF x # c /\ x <= N /\ (<<c, x>> \in g \/ <<x, c>> \in g) THEN x ELSE 0]],
     adjf |-> [c \in C |-> [x \in Faces |-> c]],
     side |-> [c \in C |-> [x \in Faces |-> Kind(g, c, x)]]]
Problems == {Problem(n, f, IF v = "cycle" THEN g \cup {<<N, 1>>} ELSE g, k, v) :
    n \in 1..Ranks, f \in UNION {Owners(i) : i \in 1..Ranks}, g \in {x \in SUBSET AllEdges : Cardinality(x) \in Edges},
    k \in Couplings, v \in Variants}

Init == /\ \E p \in {x \in Problems : \E c \in C : x.own[c] = x.nr /\ \A d \in C : x.own[d] <= x.nr} : pr = p
        /\ SweepInit(pr) /\ bad = ""

\* ---- the recurrence ----------------------------------------------------------
Term(n, c, f, ins) == "<" \o ToString(c) \o "." \o ToString(n) \o "." \o ToString(f) \o ":" \o ins[1] \o "," \o ins[2] \o "," \o ins[3] \o "," \o ins[4] \o ">"
RECURSIVE Ref(_, _, _)
RefIn(p, c, n, f) ==
    IF p.side[c][f] # "in" \/ p.adj[c][f] = 0 THEN Zero
    ELSE IF Coupled(p, c, f) THEN Ref(p, p.adj[c][f], n)[p.adjf[c][f]]
    ELSE IF n = 1 THEN Zero ELSE Ref(p, p.adj[c][f], n - 1)[p.adjf[c][f]]
Ref(p, c, n) == LET ins == [f \in Faces |-> RefIn(p, c, n, f)] IN [f \in Faces |-> Term(n, c, f, ins)]

\* ---- what an implementation does --------------------------------------------------
Newest(c, f) == IF hist[c] = << >> THEN Zero ELSE hist[c][1].o[f]
Inflow(c, n, f) ==
    LET u == pr.adj[c][f] g == pr.adjf[c][f] IN
    IF pr.side[c][f] # "in" \/ u = 0 THEN Zero
    ELSE IF Coupled(pr, c, f) THEN (IF SolvedIn(u, n) THEN ResultOf(u, n)[g] ELSE Newest(u, g))
    ELSE IF pr.variant = "fresh" THEN Newest(u, g)
    ELSE Lagged(pr, c, f)
MayBegin(r) == /\ ~busy[r] /\ swp[r] < Sweeps
               /\ pr.cpl = "lag" => xn[r] = swp[r] \/ pr.variant = "skip"
Begin(r) == MayBegin(r) /\ BeginOk(r) /\ BeginEff(r) /\ UNCHANGED mcVars
End(r) == /\ busy[r] /\ (AllSolved(pr, r, swp[r]) \/ pr.variant = "short")
          /\ bad' = IF EndOk(pr, r) THEN bad ELSE "a sweep ends before all cells are solved"
          /\ EndEff(r) /\ UNCHANGED pr
Solve(r, c) ==
    LET n == swp[r] ins == [f \in Faces |-> Inflow(c, n, f)] IN
    /\ busy[r] /\ pr.own[c] = r
    /\ NotYetSolved(c, n) \/ (pr.variant = "again" /\ Len(hist[c]) < Window)
    /\ UpwindSolved(pr, c, n) \/ pr.variant = "early"
    /\ bad' = IF ~SolveOk(pr, r, c) THEN "a solve out of order"
              ELSE IF \E f \in Faces : ~InflowOk(pr, c, n, f, ins[f]) THEN "an inflow that is not the upwind value"
              ELSE bad
    /\ SolveEff(r, c, [f \in Faces |-> Term(n, c, f, ins)]) /\ UNCHANGED pr
Near(r) == {q \in 1..pr.nr : q # r /\ \E c, d \in C : pr.own[c] = r /\ pr.own[d] = q /\ pr.adj[c][d] = d}
\* The others have finished the sweep whose values are exchanged.
Posted(q, x) == xn[q] >= x \/ (xn[q] = x - 1 /\ swp[q] = x /\ ~busy[q])
Exchange(r) ==
    /\ pr.cpl = "lag" /\ ~busy[r] /\ swp[r] = xn[r] + 1 /\ swp[r] < Sweeps
    /\ \A q \in Near(r) : Posted(q, xn[r] + 1) \/ pr.variant = "skip"
    /\ ExchangeOk(r) /\ ExchangeEff(pr, r) /\ UNCHANGED mcVars
Finished == \A r \in 1..pr.nr : swp[r] = Sweeps /\ ~busy[r]

Next == \/ /\ bad = ""
           /\ \E r \in 1..pr.nr : Begin(r) \/ End(r) \/ Exchange(r) \/ \E c \in C : Solve(r, c)
        \/ Finished /\ UNCHANGED <<sweepVars, mcVars>>

\* ---- properties -----------------------------------------------------------------
Good == bad = ""
\* Every result is that of the recurrence.
Confluent == \A c \in C : \A i \in 1..Len(hist[c]) : hist[c][i].o = Ref(pr, c, hist[c][i].n)
\* Exactly once per sweep
Once == \A c \in C : \A i, j \in 1..Len(hist[c]) : i # j => hist[c][i].n # hist[c][j].n
Complete == Finished => \A c \in C : SolvedIn(c, Sweeps)
===============================================================================
