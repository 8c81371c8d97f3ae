------------------------------ MODULE Geometry ------------------------------
(* Tetrahedra.  A cell is a sequence of four points (each a sequence of three *)
(* doubles); its face f is the triangle opposite to its vertex f.             *)
EXTENDS Fp, Integers, Sequences

Eps == FDec("1e-10")

\* the three vertices of face f, ascending
FaceVertices(f) == CASE f = 1 -> <<2,3,4>> [] f = 2 -> <<1,3,4>>
                     [] f = 3 -> <<1,2,4>> [] f = 4 -> <<1,2,3>>

\* twice the area, along the outward normal of face f
AreaVector(p, f) ==
    LET v == FaceVertices(f)
        n == VCross(VSub(p[v[2]], p[v[1]]), VSub(p[v[3]], p[v[1]]))
        out == VSub(p[v[1]], p[f])
    IN IF FLt(FDot(n, out), FInt(0)) THEN VScale(FInt(-1), n) ELSE n

FaceArea(p, f) == FDiv(VNorm(AreaVector(p, f)), FInt(2))
Normal(p, f) == LET n == AreaVector(p, f) IN VScale(FDiv(FInt(1), VNorm(n)), n)
Volume(p) == FDiv(FAbs(FDot(VSub(p[2], p[1]),
                            VCross(VSub(p[3], p[1]), VSub(p[4], p[1])))), FInt(6))

\* Does direction o enter, leave or run along a face with unit normal n?
Side(o, n) == LET d == FDot(o, n)
              IN IF FLt(FAbs(d), Eps) THEN "along" ELSE IF FLt(d, FInt(0)) THEN "in" ELSE "out"
=============================================================================
