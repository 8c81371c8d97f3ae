------------------------------ MODULE LocalSolve -------------------------------
(* The linear discontinuous finite-element equations of one cell: with the     *)
(* linear functions l_1..l_4 (l_i is 1 at vertex i and 0 at the others) and    *)
(* the flux psi = sum of x_j l_j, for every i                                  *)
(*                                                                             *)
(*   integral over the faces of (o.n) psiup l_i                                *)
(*     - integral of psi o.grad l_i + st * integral of psi l_i                 *)
(*     = integral of q l_i                                                     *)
(*                                                                             *)
(* psiup is psi on outgoing faces and the inflow on incoming ones.             *)
EXTENDS Geometry, FiniteSets

\* Area of the faces times o.n, and the volume.
Shape(p) == [area |-> [f \in 1..4 |-> VScale(FRat(1, 2), AreaVector(p, f))], vol |-> Volume(p),
             unit |-> [f \in 1..4 |-> Normal(p, f)]]
Flow(s, o, f) == FDot(o, s.area[f])

Overlap(i, j) == IF i = j THEN FInt(2) ELSE FInt(1)
\* Terms of the left side of equation i; x: flux at the vertices, b[f][j]: inflow on face f at vertex j.
FaceTerms(s, o, x, b, i) ==
    LET fs == {f \in 1..4 : f # i}
        up(f, j) == IF Side(o, s.unit[f]) = "in" THEN b[f][j] ELSE x[j]
        term(f) == LET v == FaceVertices(f) IN
            FMul(FDiv(Flow(s, o, f), FInt(12)), FDot([k \in 1..3 |-> Overlap(i, v[k])], [k \in 1..3 |-> up(f, v[k])]))
    IN [f \in 1..4 |-> IF f \in fs THEN term(f) ELSE FInt(0)]
\* grad l_i is minus the area vector of face i over three volumes
Streaming(s, o, x, i) == FMul(FDiv(Flow(s, o, i), FInt(12)), FSum(x))
MassTerm(s, x, i) == FMul(FDiv(s.vol, FInt(20)), FAdd(FSum(x), x[i]))

Equation(s, o, st, x, b, q, i) ==
    FaceTerms(s, o, x, b, i) \o <<Streaming(s, o, x, i), FMul(st, MassTerm(s, x, i)), FNeg(MassTerm(s, q, i))>>
\* The size of what is added up, as if no signs cancelled.
Magnitude(s, o, st, x, b, q) ==
    LET ax == FAbsSum(x) ab == FMaxAbs([k \in 1..16 |-> b[((k-1) \div 4) + 1][((k-1) % 4) + 1]])
        aa == FSum([f \in 1..4 |-> FAbs(Flow(s, o, f))])
    IN FAdd(FMul(aa, FAdd(ax, ab)), FMul(s.vol, FAdd(FMul(st, ax), FAbsSum(q))))

\* Outflow + absorption = inflow + source.
Balance(s, o, st, x, b, q) ==
    LET face(f) == LET v == FaceVertices(f) IN
            FMul(FDiv(Flow(s, o, f), FInt(3)), FSum([k \in 1..3 |-> IF Side(o, s.unit[f]) = "in" THEN b[f][v[k]] ELSE x[v[k]]]))
    IN FAdd(FSum([f \in 1..4 |-> face(f)]), FMul(FDiv(s.vol, FInt(4)), FSub(FMul(st, FSum(x)), FSum(q))))

SmallIn(r, m) == FFinite(r) /\ FLe(FAbs(r), FMul(FDec("1e-9"), m))
Solved(s, o, st, x, b, q) ==
    LET m == Magnitude(s, o, st, x, b, q) IN
    /\ \A i \in 1..4 : SmallIn(FSum(Equation(s, o, st, x, b, q, i)), m)
    /\ SmallIn(Balance(s, o, st, x, b, q), m)
Residual(s, o, st, x, b, q) ==
    FStr(FDiv(FMaxAbs([i \in 1..4 |-> FSum(Equation(s, o, st, x, b, q, i))]), Magnitude(s, o, st, x, b, q)))
================================================================================
