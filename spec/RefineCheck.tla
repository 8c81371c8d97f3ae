------------------------------ MODULE RefineCheck ------------------------------
(* Recorded refinements.  A case: [id, old, new: words of the serial meshes    *)
(* before and after, name: first bytes of the new file, rest].                 *)
(* One state per old cell, and one (cell -1) for the mesh as a whole.          *)
EXTENDS MeshFile, Refine, TLC, Json, IOUtils
Input == JsonDeserialize(IOEnv.CASES)
VARIABLES kase, cell, bad
K == Input[kase]
Kases == 1..Len(Input)
Pair(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>

At(s, i) == s[i + 1]
Places(s) == 0..Len(s)-1
Ints(q) == [i \in 1..Len(q) |-> HInt(q[i])]
Set(q) == {HInt(q[i]) : i \in 1..Len(q)}

Old == Strict([k \in Kases |-> SerialMesh(Input[k].old)])
Fine(k) == /\ Readable("serial", Input[k].name, Input[k].new) /\ Len(Input[k].new) >= 4 /\ Input[k].rest = 0
           /\ Len(Input[k].new) = SerialLength(Input[k].new)
New == Strict([k \in Kases |-> IF Fine(k) THEN SerialMesh(Input[k].new) ELSE Old[k]])

OldCell(k, c) == Ints(At(Old[k].cells, c).n)
OldTets(k) == {Set(At(Old[k].cells, c).n) : c \in Places(Old[k].cells)}
\* The nodes the refined mesh must have, and where.
Nodes(k) == UNION {{Pair(p, q) : p, q \in t} : t \in OldTets(k)}
X(m, n) == At(m.nodes, n).x
Place(k, e) == LET p == X(Old[k], e[1]) q == X(Old[k], e[2]) IN
    IF e[1] = e[2] THEN p ELSE [i \in 1..3 |-> FMul(FDec("0.5"), FAdd(p[i], q[i]))]
\* Rounding: relative to the largest coordinate.
Size == Strict([k \in Kases |-> FMaxAbs([i \in 1..3 * Len(Old[k].nodes) |-> Old[k].nodes[((i-1) \div 3) + 1].x[((i-1) % 3) + 1]])])
Near(k, x, y) == \A i \in 1..3 : FClose(x[i], y[i], FInt(0), FMul(Size[k], FDec("1e-15")))
\* Which of them each node of the refined mesh is (none, or several: <<>>).
Names == Strict([k \in Kases |->
    LET ns == Nodes(k)
        pl == Strict([e \in ns |-> Place(k, e)])
    IN [n \in Places(New[k].nodes) |-> {e \in ns : Near(k, X(New[k], n), pl[e])}]])
Named(k, n) == IF n \in Places(New[k].nodes) /\ Cardinality(Names[k][n]) = 1 THEN CHOOSE e \in Names[k][n] : TRUE ELSE <<>>
Tet(k, d) == {Named(k, n) : n \in Set(At(New[k].cells, d).n)}
Tets == Strict([k \in Kases |-> [d \in Places(New[k].cells) |-> Tet(k, d)]])

\* ---- one old cell ------------------------------------------------------------------
Within(k, c) == LET t == Set(At(Old[k].cells, c).n) IN
    {d \in Places(New[k].cells) : \A e \in Tets[k][d] : e # <<>> /\ e[1] \in t /\ e[2] \in t}
Volume6(x) == LET a == VSub(x[2], x[1]) b == VSub(x[3], x[1]) c == VSub(x[4], x[1]) IN FAbs(FDot(a, VCross(b, c)))
Volume(m, c) == Volume6([i \in 1..4 |-> X(m, HInt(At(m.cells, c).n[i]))])
CellBad(c) ==
    LET w == Within(kase, c)
        ts == {Tets[kase][d] : d \in w}
        v == FDiv(Volume(Old[kase], c), FInt(8))
    IN IF Cardinality(w) # 8 \/ ts \notin Cuts(OldCell(kase, c)) THEN "the parts of a cell do not fill it"
       ELSE IF \E d \in w : At(New[kase].cells, d).m # At(Old[kase].cells, c).m THEN "material"
       ELSE IF \E d \in w : ~FClose(Volume(New[kase], d), v, FDec("1e-6"), FInt(0)) THEN "volume of a part"
       ELSE ""

\* ---- the whole ------------------------------------------------------------------------
NewTriangle(k, f) == Set(At(New[k].faces, f).n)
RightFace(k, f) ==
    LET s == Set(At(New[k].faces, f).c) \ {-1}
        q == At(New[k].faces, f).c
    IN /\ Cardinality(NewTriangle(k, f)) = 3
       /\ q[1] # Invalid /\ (Cardinality(s) = 1 => q[2] = Invalid)
       /\ s = {d \in Places(New[k].cells) : NewTriangle(k, f) \subseteq Set(At(New[k].cells, d).n)}
\* The faces of a cell are its four triangles.
RightFaces(k, d) == LET c == At(New[k].cells, d) IN
    /\ Set(c.f) \subseteq Places(New[k].faces)
    /\ {NewTriangle(k, f) : f \in Set(c.f)} = Triangles(Set(c.n))
OutsideOf(k) == {f \in Places(New[k].faces) : At(New[k].faces, f).c[2] = Invalid}
OldOutside(k) == {Set(At(Old[k].faces, f).n) : f \in {x \in Places(Old[k].faces) : Invalid \in {At(Old[k].faces, x).c[i] : i \in 1..2}}}
WholeBad ==
    LET ns == Places(New[kase].nodes) ds == Places(New[kase].cells) fs == Places(New[kase].faces)
        odd == {n \in ns : Named(kase, n) = <<>>}
        wf == {f \in fs : ~RightFace(kase, f)}
        wc == {d \in ds : ~RightFaces(kase, d)}
    IN IF ~Fine(kase) THEN <<"the file is not a mesh", 0>>
       ELSE IF odd # {} THEN <<"a node is no old node nor the middle of an old edge", CHOOSE n \in odd : TRUE>>
       ELSE IF Cardinality(ns) # Cardinality(Nodes(kase)) \/ {Named(kase, n) : n \in ns} # Nodes(kase) THEN <<"nodes twice or missing", 0>>
       ELSE IF Cardinality(ds) # 8 * Len(Old[kase].cells) THEN <<"number of cells", 0>>
       ELSE IF wf # {} THEN <<"face", CHOOSE f \in wf : TRUE>>
       ELSE IF wc # {} THEN <<"faces of cell", CHOOSE d \in wc : TRUE>>
       ELSE IF Cardinality({NewTriangle(kase, f) : f \in fs}) # Cardinality(fs) THEN <<"a face twice", 0>>
       ELSE IF {{Named(kase, n) : n \in NewTriangle(kase, f)} : f \in OutsideOf(kase)} # UNION {TriangleParts(f) : f \in OldOutside(kase)}
            THEN <<"the outside boundary is not the old one", 0>>
       ELSE <<"", 0>>
Init == /\ kase \in Kases
        /\ cell \in -1..Len(Old[kase].cells)-1
        /\ LET b == IF cell = -1 THEN WholeBad ELSE <<CellBad(cell), cell>>
           IN bad = b[1] /\ IF b[1] = "" THEN TRUE ELSE PrintT(<<"BAD", K.id, "cell", cell, b[1], b[2]>>)
Next == UNCHANGED <<kase, cell, bad>>
Accepted == bad = ""
================================================================================
