-------------------------------- MODULE Krylov ---------------------------------
(* The interface between the transport problem and a Krylov solver.            *)
(*                                                                             *)
(* The solver is given an operator A, a right-hand side b, an initial guess, a *)
(* tolerance and an iteration limit; it applies A to vectors and returns x.    *)
(* The unknowns of a rank are the values entering its cells through faces on   *)
(* partition boundaries (one for each direction, face, vertex and group), the  *)
(* scalar flux in its cells (one for each cell, vertex and group), or both.    *)
(*   boundary: A x = x - what the cells across the faces have after a sweep    *)
(*             of every partition with inflow x                                *)
(*   scalar:   A x = x - scalar flux after a sweep with the scattering of x    *)
(*   b is what the same gives for the external source (and no inflow).         *)
(* After the solve a sweep with the external source and x gives the flux; how  *)
(* much it differs from x is the residual.                                     *)
(*                                                                             *)
(* p: as in Source, and own (cell -> rank), nr, side (angle -> cell -> face -> *)
(* kind), adj (cell -> face -> cell), same (cell -> face -> vertex -> the      *)
(* vertex of the neighbour at the same node).                                  *)
(* A sweep s: s[c][a] = [q, p: vertex -> group, b: face -> vertex -> group].   *)
(* Unknowns are <<"b", c, a, f, v, g>> or <<"s", c, 0, 0, v, g>>.              *)
EXTENDS Source

VARIABLES
    kind,      \* what the solver works on now, or "none"
    rhs,       \* rank -> unknown -> right-hand side of the current solve
    lastX,     \* rank -> unknown -> solution of the last boundary solve
    phiLast    \* the scalar flux whose scattering is part of the source

krylovVars == <<kind, rhs, lastX, phiLast>>

Crossing(p, c, f) == p.adj[c][f] # 0 /\ p.own[p.adj[c][f]] # p.own[c]
BoundaryUnknowns(p, r) == {u \in {"b"} \X {c \in 1..Len(p.own) : p.own[c] = r} \X (1..Len(p.wt)) \X (1..4) \X (1..4) \X (1..p.ng) :
    u[4] # u[5] /\ p.side[u[3]][u[2]][u[4]] = "in" /\ Crossing(p, u[2], u[4])}
ScalarUnknowns(p, r) == {<<"s", c, 0, 0, v, g>> : c \in {c \in 1..Len(p.own) : p.own[c] = r}, v \in 1..4, g \in 1..p.ng}
\* knd is "boundary", "scalar" or "both"; m: sequence of unknowns of rank r
RightUnknowns(p, knd, r, m) ==
    LET u == (IF knd = "scalar" THEN {} ELSE BoundaryUnknowns(p, r)) \cup (IF knd = "boundary" THEN {} ELSE ScalarUnknowns(p, r))
    IN {m[k] : k \in 1..Len(m)} = u /\ Len(m) = Cardinality(u)

\* ---- what a sweep gives --------------------------------------------------------
\* The scalar flux after sweep s.
ScalarOf(p, s) == [c \in 1..Len(s) |-> [v \in 1..4 |-> [g \in 1..p.ng |-> FDot(p.wt, [a \in 1..Len(p.wt) |-> s[c][a].p[v][g]])]]]
\* The value of unknown u after sweep s with scalar flux ph.
After(p, s, ph, u) == IF u[1] = "b" THEN s[p.adj[u[2]][u[4]]][u[3]].p[p.same[u[2]][u[4]][u[5]]][u[6]] ELSE ph[u[2]][u[5]][u[6]]
\* The value of unknown u that sweep s was made with.
InflowOf(s, u) == s[u[2]][u[3]].b[u[4]][u[5]][u[6]]

Image(p, s, maps) == LET ph == Strict(ScalarOf(p, s)) IN [r \in 1..p.nr |-> [k \in 1..Len(maps[r]) |-> After(p, s, ph, maps[r][k])]]
Minus(x, y) == [r \in 1..Len(x) |-> [k \in 1..Len(x[r]) |-> FSub(x[r][k], y[r][k])]]
CloseTo(x, y) == \A r \in 1..Len(x) : Len(x[r]) = 0 \/ FCloseSeq(x[r], y[r], FDec("1e-11"), FDec("1e-14"))
Norm2(x) == FSqrt(FSum([r \in 1..Len(x) |-> FDot(x[r], x[r])]))

\* Sweep s was made with the boundary unknowns of x (bit for bit), or with none.
UsesInflow(p, s, maps, x) == \A r \in 1..p.nr : \A k \in 1..Len(maps[r]) :
    maps[r][k][1] = "b" => FEq(InflowOf(s, maps[r][k]), x[r][k])
NoInflow(p, s) == \A c \in 1..Len(s), f \in 1..4 : Crossing(p, c, f) =>
    \A a \in 1..Len(p.wt) : p.side[a][c][f] = "in" => \A v \in (1..4) \ {f}, g \in 1..p.ng : FEq(s[c][a].b[f][v][g], FInt(0))
\* The scalar unknowns of x as a scalar flux; index[c][v][g]: their position.
ScalarIndex(p, maps) == [c \in 1..Len(p.own) |-> [v \in 1..4 |-> [g \in 1..p.ng |->
    LET r == p.own[c] IN CHOOSE k \in 1..Len(maps[r]) : maps[r][k] = <<"s", c, 0, 0, v, g>>]]]
ScalarPart(p, index, x) == [c \in 1..Len(p.own) |-> [v \in 1..4 |-> [g \in 1..p.ng |-> x[p.own[c]][index[c][v][g]]]]]
\* The source is the scattering of ph alone, without the external source.
OnlyScatters(p, s, ph) == \A c \in 1..Len(s), a \in 1..Len(p.wt), v \in 1..4, g \in 1..p.ng :
    FClose(s[c][a].q[v][g], Scattering(p, c, ph[c][v][g]), FDec("1e-11"), FDec("1e-15"))
\* The source is the scattering of a flux about that after the sweep: the inner iteration has converged.
ScattersAbout(p, s, tol) ==
    LET ph == Strict(ScalarOf(p, s))
        was == [c \in 1..Len(s) |-> [v \in 1..4 |-> [g \in 1..p.ng |-> FDiv(FMul(s[c][1].q[v][g], FourPi), p.sigS[c])]]]
    IN FLe(Change(p, was, ph), FMul(tol, FDec("1.001"))) \/ FLe(FAbsSum(Flat(p, ph)), FDec("1e-300"))

\* ---- the algorithms ---------------------------------------------------------------
\* p.algo, p.si (source iteration), iterMax, errMax, ddIterMax, ddErrMax
Tolerance(p, knd) == IF knd = "scalar" THEN p.errMax ELSE p.ddErrMax
Limit(p, knd) == IF knd = "scalar" THEN p.iterMax ELSE p.ddIterMax
\* Partition boundaries are fixed while the scalar flux is solved for.
FixedInflow(p) == p.algo \in {"PBJOuter", "SchurOuter"}
\* Nothing is iterated inside the operator.
ExactOperator(p, knd) == CASE knd = "both" -> TRUE
                           [] knd = "boundary" -> p.algo = "Schur"
                           [] knd = "scalar" -> p.algo \notin {"Schur", "PBJ"}

KrylovInit(p) == kind = "none" /\ rhs = << >> /\ lastX = << >> /\ phiLast = NoFlux(p)

\* The solver begins with right-hand side b and first guess x0 (nz: it is used); s: the last sweep before.
BeginBad(p, knd, maps, b, x0, nz, rtol, maxit, s) ==
    IF kind # "none" THEN "a solve begins in a solve"
    ELSE IF ~FEq(rtol, Tolerance(p, knd)) THEN "wrong tolerance"
    ELSE IF maxit # Limit(p, knd) THEN "wrong iteration limit"
    ELSE IF \E r \in 1..p.nr : ~RightUnknowns(p, knd, r, maps[r]) THEN "the unknowns are not each boundary value or scalar flux once"
    ELSE IF ~CloseTo(b, Image(p, s, maps)) THEN "right-hand side is not what the sweep gives"
    ELSE IF knd # "scalar" /\ ~NoInflow(p, s) THEN "right-hand side is made with inflow"
    ELSE IF (p.algo = "Schur" \/ knd # "boundary") /\ WrongSource(p, IF knd = "boundary" THEN phiLast ELSE NoFlux(p), s) # {}
         THEN "right-hand side is made with another source"
    ELSE IF p.algo = "Schur" /\ p.si
         THEN IF ~nz \/ ~(IF lastX = << >> THEN \A r \in 1..p.nr : FEq(FAbsSum(x0[r]), FInt(0)) ELSE x0 = lastX)
              THEN "first guess is not the last solution" ELSE ""
    ELSE ""
BeginEff(knd, b) == kind' = knd /\ rhs' = b /\ UNCHANGED <<lastX, phiLast>>

\* The operator maps x to y; s: the last sweep in it, one of n.
ApplyBad(p, maps, index, x, y, s, n) ==
    IF kind = "none" THEN "operator applied outside of a solve"
    ELSE IF ~CloseTo(y, Minus(x, Image(p, s, maps))) THEN "operator is not the identity minus a sweep"
    ELSE IF kind # "scalar" /\ ~UsesInflow(p, s, maps, x) THEN "operator sweeps with other boundary values than x"
    ELSE IF kind = "boundary" /\ p.algo = "Schur" /\ ~OnlyScatters(p, s, NoFlux(p)) THEN "operator sweeps with a source"
    ELSE IF kind = "boundary" /\ p.algo = "SchurOuter" /\ p.si /\ n < p.iterMax /\ ~ScattersAbout(p, s, p.errMax)
         THEN "source iteration in the operator stops early or has an external source"
    ELSE IF kind # "boundary" /\ ~OnlyScatters(p, s, ScalarPart(p, index, x)) THEN "operator does not sweep with the scattering of x"
    ELSE IF kind = "scalar" /\ FixedInflow(p) /\ ~NoInflow(p, s) THEN "operator sweeps with inflow"
    ELSE ""

\* The solver returns x; s: the sweep made with it.
SolutionBad(p, maps, index, x, s, converged) ==
    IF kind = "none" THEN "a solve ends that did not begin"
    ELSE IF kind # "scalar" /\ ~UsesInflow(p, s, maps, x) THEN "the flux is made with other boundary values than the solution"
    ELSE IF kind = "boundary" /\ p.algo = "Schur" /\ WrongSource(p, phiLast, s) # {} THEN "the flux is made with another source than the right-hand side"
    ELSE IF kind # "boundary" /\ WrongSource(p, ScalarPart(p, index, x), s) # {} THEN "the flux is not made with the external source and the scattering of the solution"
    ELSE IF converged /\ ExactOperator(p, kind)
            /\ LET d == Norm2(Minus(x, Image(p, s, maps))) IN
               ~FLe(d, FAdd(FMul(FMul(Tolerance(p, kind), FDec("1.01")), Norm2(rhs)), FMul(FDec("1e-11"), Norm2(x))))
         THEN "the flux does not satisfy the transport problem to the tolerance"
    ELSE ""
SolutionEff(p, index, x, s) ==
    /\ kind' = "none" /\ rhs' = << >>
    /\ lastX' = IF kind = "boundary" THEN x ELSE lastX
    /\ phiLast' = IF kind = "boundary" THEN (IF p.si THEN Strict(ScalarOf(p, s)) ELSE phiLast) ELSE Strict(ScalarPart(p, index, x))
===============================================================================
