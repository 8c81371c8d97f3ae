-------------------------------- MODULE Sweep --------------------------------
(* What a transport sweep is, whatever algorithm performs it.                  *)
(*                                                                             *)
(* A problem is a mesh distributed over ranks with, for one direction, the     *)
(* kind ("in", "out", "along") of every face of every cell.  Ranks begin and   *)
(* end sweeps, solve cells, and (in the domain-decomposed algorithms) exchange *)
(* boundary data.  A solve takes one inflow value per face and yields one      *)
(* outflow value per face; values are opaque.                                  *)
(*                                                                             *)
(* Sweeps of different ranks may overlap: rank r is in its sweep number        *)
(* swp[r].  hist[c] keeps the results of cell c's last sweeps, newest first.   *)
(*                                                                             *)
(* Problem fields: own (cell -> rank), adj (cell -> face -> cell or 0),        *)
(* adjf (cell -> face -> the neighbour's face), nr (ranks), side (cell -> face *)
(* -> kind), cpl: how values cross ranks:                                      *)
(*   "full" in the same sweep; "lag" through the last exchange;                *)
(*   "free" through a Krylov vector (not constrained here).                    *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    swp,     \* rank -> number of the current (or last) sweep
    busy,    \* rank -> in a sweep
    hist,    \* cell -> sequence of [n, o]: sweep number, outflow per face
    xn,      \* rank -> number of exchanges completed
    snap     \* cell -> sequence of [n, o]: exchange number, outflow sent in it

sweepVars == <<swp, busy, hist, xn, snap>>

Zero == "0"
Window == 3
Cells(p) == 1..Len(p.own)
Faces == 1..4
RankSet(p) == 1..p.nr
Keep(s) == IF Len(s) > Window THEN SubSeq(s, 1, Window) ELSE s

SweepInit(p) ==
    /\ swp = [r \in RankSet(p) |-> 0]
    /\ busy = [r \in RankSet(p) |-> FALSE]
    /\ hist = [c \in Cells(p) |-> << >>]
    /\ xn = [r \in RankSet(p) |-> 0]
    /\ snap = [c \in Cells(p) |-> << >>]

SolvedIn(c, n) == \E i \in 1..Len(hist[c]) : hist[c][i].n = n
ResultOf(c, n) == LET i == CHOOSE j \in 1..Len(hist[c]) : hist[c][j].n = n IN hist[c][i].o

\* Faces of c whose values come from a cell of the same sweep.
Coupled(p, c, f) ==
    /\ p.side[c][f] = "in"
    /\ p.adj[c][f] # 0
    /\ (p.cpl = "full" \/ p.own[p.adj[c][f]] = p.own[c])
Foreign(p, c, f) ==
    /\ p.side[c][f] = "in" /\ p.adj[c][f] # 0 /\ p.own[p.adj[c][f]] # p.own[c]

\* ---- order --------------------------------------------------------------------
OwnerSolves(p, r, c) == p.own[c] = r
InSweep(r) == busy[r]
NotYetSolved(c, n) == ~SolvedIn(c, n)
UpwindSolved(p, c, n) == \A f \in Faces : Coupled(p, c, f) => SolvedIn(p.adj[c][f], n)
AllSolved(p, r, n) == \A c \in Cells(p) : p.own[c] = r => SolvedIn(c, n)

\* ---- values -------------------------------------------------------------------
\* What the neighbour across face f of c sent in the last exchange c's rank made.
Lagged(p, c, f) ==
    LET x == xn[p.own[c]]
        u == p.adj[c][f]
        g == p.adjf[c][f]
        s == {i \in 1..Len(snap[u]) : snap[u][i].n = x}
    IN IF x = 0 THEN Zero
       ELSE IF s # {} THEN snap[u][CHOOSE i \in s : TRUE].o[g]
       ELSE IF xn[p.own[u]] = x - 1 /\ hist[u] # << >> THEN hist[u][1].o[g]
       ELSE "?"
InflowOk(p, c, n, f, v) ==
    IF p.adj[c][f] = 0 THEN p.side[c][f] = "in" => v = Zero
    ELSE IF Coupled(p, c, f) THEN
        SolvedIn(p.adj[c][f], n) => v = ResultOf(p.adj[c][f], n)[p.adjf[c][f]]
    ELSE IF p.cpl = "lag" /\ Foreign(p, c, f) THEN
        \/ v = Lagged(p, c, f)
        \/ p.zeroable /\ v = Zero
    ELSE TRUE

\* ---- actions -----------------------------------------------------------------
BeginOk(r) == ~busy[r]
BeginEff(r) == /\ swp' = [swp EXCEPT ![r] = @ + 1]
               /\ busy' = [busy EXCEPT ![r] = TRUE]
               /\ UNCHANGED <<hist, xn, snap>>

EndOk(p, r) == busy[r] /\ AllSolved(p, r, swp[r])
EndEff(r) == /\ busy' = [busy EXCEPT ![r] = FALSE]
             /\ UNCHANGED <<swp, hist, xn, snap>>

SolveOk(p, r, c) == /\ OwnerSolves(p, r, c)
                    /\ InSweep(r)
                    /\ NotYetSolved(c, swp[r])
                    /\ UpwindSolved(p, c, swp[r])
SolveEff(r, c, out) == /\ hist' = [hist EXCEPT ![c] = Keep(<<[n |-> swp[r], o |-> out]>> \o @)]
                       /\ UNCHANGED <<swp, busy, xn, snap>>

ExchangeOk(r) == ~busy[r]
ExchangeEff(p, r) ==
    /\ xn' = [xn EXCEPT ![r] = @ + 1]
    /\ snap' = [c \in Cells(p) |->
                 IF p.own[c] = r /\ hist[c] # << >>
                 THEN Keep(<<[n |-> xn[r] + 1, o |-> hist[c][1].o]>> \o snap[c])
                 ELSE snap[c]]
    /\ UNCHANGED <<swp, busy, hist>>
=============================================================================
