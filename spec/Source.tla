-------------------------------- MODULE Source ---------------------------------
(* The source of the transport problem and its scalar flux.                    *)
(*                                                                             *)
(* The problem p: points (cell -> vertex -> point), omega, wt (angle ->        *)
(* direction, weight), sigT, sigS (cell -> cross sections), ng groups.  The    *)
(* flux is flux[c][a][v][g], the scalar flux ph[c][v][g].                      *)
EXTENDS Fp, Integers, Sequences, FiniteSets

FourPi == FMul(FInt(4), FPi)

\* ---- the external source ----------------------------------------------------
\* A hat of radius 30 around the middle of a box of side 100.
Centre(x) == <<FSub(x[1], FInt(50)), FSub(x[2], FInt(50)), FSub(x[3], FInt(50))>>
External(x, o, st, ss) ==
    LET d == Centre(x)
        c == VNorm(d)
        removal == FSub(st, ss)
    IN IF FEq(c, FInt(0)) THEN removal
       ELSE IF FLt(FInt(30), c) THEN FInt(0)
       ELSE FAdd(FNeg(FDiv(FDot(d, o), FMul(FInt(30), c))),
                 FMul(removal, FSub(FInt(1), FDiv(c, FInt(30)))))
\* Where the hat ends the source jumps: both values are allowed there.
OnEdge(x) == FClose(VNorm(Centre(x)), FInt(30), FDec("1e-12"), FInt(0))

\* ---- one sweep ---------------------------------------------------------------
Scattering(p, c, ph) == FDiv(FMul(p.sigS[c], ph), FourPi)
SourceOf(p, ph, c, a, v, g) == FAdd(External(p.points[c][v], p.omega[a], p.sigT[c], p.sigS[c]),
                                Scattering(p, c, ph[c][v][g]))
SourceScale(p, ph, c, a, v, g) == FAdd(FAdd(FAbs(p.sigT[c]), FDec("0.04")), FAbs(Scattering(p, c, ph[c][v][g])))
\* ph: the scalar flux that scatters; q: the source used
SourceOk(p, ph, c, a, v, g, q) ==
    \/ FLe(FAbs(FSub(q, SourceOf(p, ph, c, a, v, g))), FMul(FDec("1e-11"), SourceScale(p, ph, c, a, v, g)))
    \/ OnEdge(p.points[c][v])

\* The (cell, angle) pairs of a sweep (cell -> angle -> [q (source), ...]) with another source than that.
WrongSource(p, ph, sol) == {<<c, a>> \in (1..Len(sol)) \X (1..Len(p.wt)) :
    \E v \in 1..4, g \in 1..p.ng : ~SourceOk(p, ph, c, a, v, g, sol[c][a].q[v][g])}

Moments(p, flux) ==
    [c \in 1..Len(flux) |-> [v \in 1..4 |-> [g \in 1..p.ng |->
        FDot(p.wt, [a \in 1..Len(p.wt) |-> flux[c][a][v][g]])]]]
Flat(p, ph) == [i \in 1..(Len(ph) * 4 * p.ng) |->
    ph[((i-1) \div (4 * p.ng)) + 1][(((i-1) \div p.ng) % 4) + 1][((i-1) % p.ng) + 1]]
Change(p, old, new) ==
    LET u == Flat(p, old) w == Flat(p, new)
        norm == FAbsSum(w)
        diff == FAbsSum([i \in 1..Len(u) |-> FSub(w[i], u[i])])
    IN IF FEq(norm, FInt(0)) /\ FEq(diff, FInt(0)) THEN FInt(0)   \* no flux at all
       ELSE FDiv(diff, norm)
NoFlux(p) == [c \in 1..Len(p.points) |-> [v \in 1..4 |-> [g \in 1..p.ng |-> FInt(0)]]]
================================================================================
