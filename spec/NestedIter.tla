------------------------------ MODULE NestedIter -------------------------------
(* Source iterations inside an iteration over partition boundaries, which is a *)
(* sequence of calls.  Every call is a source iteration of its own, with its   *)
(* own count and change, that begins with the flux of the call before.         *)
(*                                                                             *)
(*   PBJOuter    call, exchange, call, exchange, ...; the external source in   *)
(*               every call; when it ends is BlockJacobi's matter              *)
(*   SchurOuter  one call with the external source, exchange: the right-hand   *)
(*               side; in the Krylov solve any number of (call without         *)
(*               external source, exchange), the first of them from no flux;   *)
(*               one call with external source                                 *)
EXTENDS SourceIter

VARIABLES
    phase      \* "iterate" (PBJOuter), "rhs", "solve", "operator", "final" (SchurOuter)

NestedInit(p) ==
    /\ SourceIterInit(p)
    /\ phase = IF p.algo = "SchurOuter" THEN "rhs" ELSE "iterate"

Scatters(p, ph, sol) == \A c \in 1..Len(sol), a \in 1..Len(p.wt), v \in 1..4, g \in 1..p.ng :
    FClose(sol[c][a].q[v][g], Scattering(p, c, ph[c][v][g]), FDec("1e-11"), FDec("1e-15"))
RightSource(p, ph, sol) == IF phase = "operator" THEN Scatters(p, ph, sol) ELSE WrongSource(p, ph, sol) = {}
Begin == sweeps' = 0 /\ change' = FInt(1) /\ UNCHANGED phiLast

SweepBad(p, sol) ==
    IF phase = "solve" THEN "a sweep between the right-hand side and the solve"
    ELSE IF ~Continues(p) THEN "a sweep after the source iteration had to stop"
    ELSE IF ~RightSource(p, phiLast, sol) THEN "source is not that of the call plus scattering of the last sweep"
    ELSE ""
NestedSweep(p, sol) ==
    /\ SweepEff(p, [c \in 1..Len(sol) |-> [a \in 1..Len(p.wt) |-> sol[c][a].p]])
    /\ UNCHANGED phase

ExchangeBad(p) ==
    IF phase \in {"solve", "final"} THEN "an exchange where none is due"
    ELSE IF ~Stops(p) THEN "the source iteration stops early" ELSE ""
NestedExchange(p) == Begin /\ phase' = (IF phase = "rhs" THEN "solve" ELSE phase)

KrylovBad(p) == IF phase # "solve" THEN "the solve begins before the right-hand side is known" ELSE ""
NestedKrylov(p) == phase' = "operator" /\ phiLast' = NoFlux(p) /\ UNCHANGED <<sweeps, change>>
SolvedBad(p) == IF phase # "operator" \/ sweeps # 0 THEN "the solve ends inside the operator" ELSE ""
NestedSolved(p) == phase' = "final" /\ Begin

EndBad(p) == IF phase = "iterate" THEN (IF sweeps > 0 /\ ~Stops(p) THEN "the source iteration stops early" ELSE "")
             ELSE IF phase # "final" THEN "ends without the last source iteration"
             ELSE IF ~Stops(p) THEN "the source iteration stops early" ELSE ""
================================================================================
