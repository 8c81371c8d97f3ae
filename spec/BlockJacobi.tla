----------------------------- MODULE BlockJacobi ------------------------------
(* The control flow of the block-Jacobi algorithms.  Two kinds of event:       *)
(* "sweep", a sweep of every partition for itself, with the flux it leaves,    *)
(* and "exchange" of the values on partition boundaries.                       *)
(*                                                                             *)
(*   PBJ       inside every sweep of the source iteration: sweep, and exchange *)
(*             unless the flux has changed by less than ddErrMax, at most      *)
(*             ddIterMax - 1 times                                             *)
(*   PBJOuter  a whole source iteration with the boundary values fixed, then   *)
(*             exchange unless the flux has changed by less than ddErrMax      *)
(*             since the last one, at most ddIterMax - 1 times                 *)
(*   PBJSI     one sweep with the scattering of the last one, then exchange,   *)
(*             until the scalar flux changes by less than ddErrMax             *)
(*                                                                             *)
(* p as in SourceIter, and algo, si (source iteration, not Krylov), ddIterMax, *)
(* ddErrMax.                                                                   *)
EXTENDS SourceIter

VARIABLES
    want,      \* what may come next: a set of "sweep", "exchange", "end"
    inner,     \* PBJ: sweeps made in this source iteration
    outer,     \* PBJOuter, PBJSI: domain-decomposition iterations made
    psiLast,   \* flux after the last sweep
    psiOuter,  \* PBJOuter: flux when the last iteration ended
    ddSaid     \* the change that decides (for messages)

bjVars == <<want, inner, outer, psiLast, psiOuter, ddSaid>>

FlatFlux(p, fl) == LET na == Len(p.wt) m == na * 4 * p.ng IN
    [i \in 1..(Len(fl) * m) |->
        fl[((i-1) \div m) + 1][(((i-1) \div (4*p.ng)) % na) + 1][(((i-1) \div p.ng) % 4) + 1][((i-1) % p.ng) + 1]]
FluxChange(p, old, new) ==
    LET u == FlatFlux(p, old) w == FlatFlux(p, new)
    IN FDiv(FAbsSum([i \in 1..Len(u) |-> FSub(w[i], u[i])]), FAbsSum(w))
ZeroFlux(p) == [c \in 1..Len(p.points) |-> [a \in 1..Len(p.wt) |-> [v \in 1..4 |-> [g \in 1..p.ng |-> FInt(0)]]]]

\* Is change d below the tolerance?  Within rounding of it, or without any flux, both answers are right.
Unclear(p, d) == FClose(d, p.ddErrMax, FDec("1e-6"), FDec("1e-13")) \/ ~FFinite(d)
Small(p, d) == FLt(d, p.ddErrMax) \/ Unclear(p, d)
Large(p, d) == ~FLt(d, p.ddErrMax) \/ Unclear(p, d)

\* After a source iteration that is (or may be) over: begin the next or end.
AfterSource(p) == (IF Continues(p) \/ ~p.si THEN {"sweep"} ELSE {}) \cup (IF Stops(p) \/ ~p.si THEN {"end"} ELSE {})

BJInit(p) ==
    /\ SourceIterInit(p)
    /\ inner = 0 /\ outer = 0
    /\ psiLast = ZeroFlux(p) /\ psiOuter = ZeroFlux(p)
    /\ ddSaid = FInt(1)
    /\ want = CASE p.algo = "PBJ" -> IF p.ddIterMax > 1 THEN AfterSource(p) ELSE {"end"}
                [] OTHER -> IF p.ddIterMax > 1 THEN {"sweep"} ELSE {"end"}

\* ---- PBJ ------------------------------------------------------------------
\* The phi of the source iteration is compared when the inner loop is over.
EndInner(p, flux) == SweepEff(p, flux) /\ inner' = 0
PBJSweep(p, flux) ==
    LET d == FluxChange(p, psiLast, flux)
        k == inner + 1
    IN /\ psiLast' = flux /\ ddSaid' = d
       /\ UNCHANGED <<outer, psiOuter>>
       /\ \* below the tolerance: the loop is over, no exchange
          \/ /\ Small(p, d)
             /\ EndInner(p, flux)
             /\ want' = AfterSource(p)'
          \/ /\ Large(p, d)
             /\ inner' = k
             /\ want' = {"exchange"}
             /\ UNCHANGED <<sweeps, phiLast, change>>
PBJExchange(p) ==
    /\ UNCHANGED <<outer, psiLast, psiOuter, ddSaid>>
    /\ IF inner < p.ddIterMax - 1
       THEN /\ want' = {"sweep"} /\ UNCHANGED <<inner, sweeps, phiLast, change>>
       ELSE /\ EndInner(p, psiLast)
            /\ want' = AfterSource(p)'

\* ---- PBJOuter -----------------------------------------------------------------
\* After a sweep the source iteration goes on, or is over and the flux compared.
OuterSweep(p, flux) ==
    LET d == FluxChange(p, psiOuter, flux) IN
    /\ psiLast' = flux /\ ddSaid' = d
    /\ UNCHANGED <<outer, psiOuter, inner>>
    /\ SweepEff(p, flux)
    /\ LET goes == Continues(p)'
           over == Stops(p)'
       IN want' = (IF goes \/ ~p.si THEN {"sweep"} ELSE {})
                  \cup (IF (over \/ ~p.si) /\ Small(p, d) THEN {"end"} ELSE {})
                  \cup (IF (over \/ ~p.si) /\ Large(p, d) THEN {"exchange"} ELSE {})
OuterExchange(p) ==
    /\ outer' = outer + 1
    /\ psiOuter' = psiLast
    /\ sweeps' = 0 /\ change' = FInt(1) /\ UNCHANGED phiLast
    /\ want' = IF outer' < p.ddIterMax - 1 THEN {"sweep"} ELSE {"end"}
    /\ UNCHANGED <<inner, psiLast, ddSaid>>

\* ---- PBJSI ----------------------------------------------------------------------
SISweep(p, flux) ==
    /\ psiLast' = flux
    /\ SweepEff(p, flux)
    /\ ddSaid' = change'
    /\ want' = {"exchange"}
    /\ UNCHANGED <<outer, psiOuter, inner>>
NoFluxYet(p) == FEq(FAbsSum(Flat(p, phiLast)), FInt(0))    \* then the relative change is undefined
SIExchange(p) ==
    /\ outer' = outer + 1
    /\ want' = (IF outer' < p.ddIterMax - 1 /\ (Large(p, change) \/ NoFluxYet(p)) THEN {"sweep"} ELSE {})
               \cup (IF outer' >= p.ddIterMax - 1 \/ Small(p, change) THEN {"end"} ELSE {})
    /\ UNCHANGED <<inner, psiLast, psiOuter, ddSaid, sweeps, phiLast, change>>

\* ---- all ------------------------------------------------------------------------
SweepEvent(p, flux) ==
    CASE p.algo = "PBJ" -> PBJSweep(p, flux)
      [] p.algo = "PBJOuter" -> OuterSweep(p, flux)
      [] p.algo = "PBJSI" -> SISweep(p, flux)
ExchangeEvent(p) ==
    CASE p.algo = "PBJ" -> PBJExchange(p)
      [] p.algo = "PBJOuter" -> OuterExchange(p)
      [] p.algo = "PBJSI" -> SIExchange(p)
===============================================================================
