-------------------------------- MODULE Flux ---------------------------------
(* The result of a run: cell -> sequence of all values of the cell (angle,     *)
(* vertex, group; group fastest).  When are two results the same?              *)
EXTENDS Fp, Integers, Sequences

\* the largest magnitude of a result
Magnitude(a) == FMaxAbs([c \in 1..Len(a) |-> FMaxAbs(a[c])])
SameCell(u, v, rel, abs) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FClose(u[i], v[i], rel, abs)

\* group g (from 1) of ng of a cell
Group(u, ng, g) == [i \in 1..(Len(u) \div ng) |-> u[(i-1)*ng + g]]

\* The largest difference of a group from the first, relative to the largest
\* value of the first.
CellDiff(u, ng) == FMaxAbs([i \in 1..Len(u) |-> FSub(u[i], u[((i-1) \div ng)*ng + 1])])
Spread(a, ng) == FDiv(FMaxAbs([c \in 1..Len(a) |-> CellDiff(a[c], ng)]),
                      FMaxAbs([c \in 1..Len(a) |-> FMaxAbs(Group(a[c], ng, 1))]))
==============================================================================
