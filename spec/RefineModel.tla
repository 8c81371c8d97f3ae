------------------------------ MODULE RefineModel ------------------------------
(* Refinement of small meshes in every possible way.  Nodes are points with    *)
(* integer coordinates; a refinement doubles the scale.                        *)
EXTENDS Refine, TLC
CONSTANTS MaxLevel, Shape
VARIABLES tets, level, outside, cut

PMid(p, q) == [i \in 1..3 |-> p[i] + q[i]]
O == <<0, 0, 0>>  A == <<3, 0, 0>>  B == <<1, 2, 0>>  C == <<1, 1, 4>>  D == <<-2, 3, 1>>
Start == CASE Shape = "one" -> {{O, A, B, C}}
           [] Shape = "two" -> {{O, A, B, C}, {O, B, C, D}}
           [] Shape = "edge" -> {{O, A, B, C}, {O, B, D, <<-3, -3, 0>>}}            \* an edge in common
           [] Shape = "cube" -> {{O, <<1,1,1>>, x[1], [i \in 1..3 |-> x[1][i] + x[2][i]]} :
                                 x \in {y \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>} \X {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>} : y[1] # y[2]}}

Det(p) == LET u(i) == p[2][i] - p[1][i]  v(i) == p[3][i] - p[1][i]  w(i) == p[4][i] - p[1][i]
          IN u(1) * (v(2)*w(3) - v(3)*w(2)) - u(2) * (v(1)*w(3) - v(3)*w(1)) + u(3) * (v(1)*w(2) - v(2)*w(1))
Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n > 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE -1
AnySeq(s) == CHOOSE p \in [1..Cardinality(s) -> s] : \A i, j \in 1..Cardinality(s) : i # j => p[i] # p[j]
Vol(t) == Abs(Det(AnySeq(t)))      \* six times the volume, in units of the level
\* t lies on this side of its triangle f
Side(t, f) == LET p == AnySeq(f) q == CHOOSE x \in t \ f : TRUE IN Sign(Det(<<p[1], p[2], p[3], q>>))

Init == /\ tets = Start /\ level = 0 /\ cut = [t \in {} |-> {}]
        /\ outside = Boundary(Start)
\* All choices at once; level two and on, one choice for all tetrahedra in turn.
Next == /\ level < MaxLevel
        /\ \E ch \in [tets -> 1..3] :
             /\ level = 0 \/ \A t, u \in tets : ch[t] = ch[u]
             /\ cut' = [t \in tets |-> LET p == AnySeq(t) IN CASE ch[t] = 1 -> Cut(p[1], p[2], p[3], p[4])
                                                             [] ch[t] = 2 -> Cut(p[1], p[3], p[2], p[4])
                                                             [] ch[t] = 3 -> Cut(p[1], p[4], p[2], p[3])]
        /\ tets' = UNION {cut'[t] : t \in tets}
        /\ outside' = UNION {TriangleParts(f) : f \in outside}
        /\ level' = level + 1

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
EightTimes == Cardinality(tets) = Cardinality(Start) * Pow(8, level)
Tetra == \A t \in tets : Cardinality(t) = 4 /\ Vol(t) > 0
\* in the doubled scale, an eighth of the volume is the same number
Eighths == \A t \in DOMAIN cut : Cardinality(cut[t]) = 8 /\ \A u \in cut[t] : Vol(u) = Vol(t)
Conform == /\ Conforming(tets)
           /\ \A f \in AllTriangles(tets) : \A t, u \in SidesOf(tets, f) : t # u => Side(t, f) = -Side(u, f)
SameBoundary == Boundary(tets) = outside
================================================================================
