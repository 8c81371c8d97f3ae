------------------------------ MODULE QuadCheck -------------------------------
(* Checks recorded quadratures: one state per direction, and one per order.    *)
EXTENDS Quadrature, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, dir, bad
N == Input[kase].n
Ds == Input[kase].d
Init == /\ kase \in 1..Len(Input)
        /\ dir \in 0..Len(Input[kase].d)
        /\ bad = IF dir = 0
                 THEN IF ~RightNumbering(N, Ds) THEN "number of directions or numbering"
                      ELSE IF ~Integrates(N, Ds, IF N <= 8 THEN 7 ELSE 3) THEN "integral of a monomial"
                      ELSE ""
                 ELSE IF ~Unit(Ds[dir].o) THEN "not a unit vector"
                      ELSE IF ~RightDirection(N, dir, Ds[dir].o, Ds[dir].w) THEN "direction or weight"
                      ELSE IF (N <= 12 \/ dir % 37 = 1) /\ ~Symmetric(Ds, dir) THEN "not symmetric"
                      ELSE ""
        /\ bad # "" => PrintT(<<"BAD", Input[kase].id, "order", N, "direction", dir - 1, bad>>)
Next == UNCHANGED <<kase, dir, bad>>
Accepted == bad = ""
===============================================================================
