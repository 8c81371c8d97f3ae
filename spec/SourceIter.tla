----------------------------- MODULE SourceIter ------------------------------
(* Source iteration: sweep n solves with the external source plus the          *)
(* scattering of the scalar flux of sweep n-1.                                 *)
(* p as in Source, and iterMax and errMax.                                     *)
EXTENDS Source

VARIABLES
    sweeps,    \* sweeps done
    phiLast,   \* cell -> vertex -> group -> scalar flux left by the last sweep
    change     \* relative change of the scalar flux in the last sweep

SourceIterInit(p) == sweeps = 0 /\ phiLast = NoFlux(p) /\ change = FInt(1)
SweepEff(p, flux) ==
    LET ph == Strict(Moments(p, flux)) IN
    /\ sweeps' = sweeps + 1
    /\ phiLast' = ph
    /\ change' = Change(p, phiLast, ph)

\* ---- when to stop ---------------------------------------------------------------
\* A change within rounding of the tolerance may be judged either way.
Near(p) == FClose(change, p.errMax, FDec("1e-6"), FDec("1e-13"))
Continues(p) == sweeps < p.iterMax /\ (FLt(p.errMax, change) \/ Near(p))
Stops(p) == sweeps >= p.iterMax \/ ~FLt(p.errMax, change) \/ Near(p)
==============================================================================
