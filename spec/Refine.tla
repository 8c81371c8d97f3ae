-------------------------------- MODULE Refine ---------------------------------
(* Refinement of a tetrahedral mesh.  A tetrahedron is a set of four nodes.    *)
(* Mid(p, q) is the node of the refined mesh in the middle of the edge between *)
(* the nodes p and q of the old one; Mid(p, p) is the old node p.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Mid(_, _)

\* The eight parts of the tetrahedron a b c d that is cut along the diagonal
\* between the middles of a b and c d.
Cut(a, b, c, d) ==
    {{Mid(p, q) : q \in {a, b, c, d}} : p \in {a, b, c, d}}
    \cup {{Mid(a, b), Mid(c, d)} \cup s : s \in {{Mid(a, c), Mid(b, c)}, {Mid(b, c), Mid(b, d)},
                                                 {Mid(b, d), Mid(a, d)}, {Mid(a, d), Mid(a, c)}}}
\* The three ways to cut a tetrahedron given as a sequence of its nodes.
Cuts(p) == {Cut(p[1], p[2], p[3], p[4]), Cut(p[1], p[3], p[2], p[4]), Cut(p[1], p[4], p[2], p[3])}

Triangles(t) == {t \ {q} : q \in t}
AllTriangles(ts) == UNION {Triangles(t) : t \in ts}
SidesOf(ts, f) == {t \in ts : f \subseteq t}
Boundary(ts) == {f \in AllTriangles(ts) : Cardinality(SidesOf(ts, f)) = 1}
Conforming(ts) == \A f \in AllTriangles(ts) : Cardinality(SidesOf(ts, f)) \in {1, 2}

\* The four parts of a triangle
Different(f) == {y \in f \X f : y[1] # y[2]}
TriangleParts(f) == {{Mid(p, q) : q \in f} : p \in f} \cup {{Mid(y[1], y[2]) : y \in Different(f)}}
================================================================================
