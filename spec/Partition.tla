------------------------------- MODULE Partition -------------------------------
(* Partitioning.  S: a serial mesh (MeshFile!SerialMesh), own: cell -> part,   *)
(* from 0, np parts, P: the parts (MeshFile!Parts).  Numbers in a file start   *)
(* at 0; below, cell, face and node numbers of the file are used as they are.  *)
EXTENDS MeshFile, FiniteSets

NoneOf == -1                                   \* HInt of the invalid number
Num(s) == {HInt(s[i]) : i \in 1..Len(s)}
At(s, i) == s[i + 1]                           \* i-th from 0
Places(s) == 0..Len(s)-1

\* ---- what part k (from 0) must hold -----------------------------------------------
CellsOf(own, k) == {c \in Places(own) : At(own, c) = k}
FacesOf(S, own, k) == UNION {Num(At(S.cells, c).f) : c \in CellsOf(own, k)}
NodesOf(S, own, k) == UNION {Num(At(S.cells, c).n) : c \in CellsOf(own, k)}

Once(seq, set) == /\ {HInt(seq[i].g) : i \in 1..Len(seq)} = set
                  /\ Len(seq) = Cardinality(set)
RightNumbers(S, own, k, p) ==
    /\ <<HInt(p.nc), HInt(p.nf), HInt(p.nn)>> = <<Len(p.cells), Len(p.faces), Len(p.nodes)>>
    /\ Once(p.cells, CellsOf(own, k)) /\ Once(p.faces, FacesOf(S, own, k)) /\ Once(p.nodes, NodesOf(S, own, k))

\* numbers of a part -> numbers of the mesh, by position
IsIn(i, s) == i \in Places(s)
Global(s, q) == [i \in 1..Len(q) |-> IF IsIn(HInt(q[i]), s) THEN HInt(At(s, HInt(q[i])).g) ELSE NoneOf]
Ints(q) == [i \in 1..Len(q) |-> HInt(q[i])]

RightCell(S, p, c) ==
    LET s == At(S.cells, HInt(c.g)) IN
    /\ Global(p.faces, c.f) = Ints(s.f)
    /\ Global(p.nodes, c.n) = Ints(s.n)
    /\ c.m = s.m
RightNode(S, n) == n.x = At(S.nodes, HInt(n.g)).x

\* A face names its two sides: the part and the number in it of each cell.
Sides(P, f) == {<<HInt(f.p[i]), IF HInt(f.p[i]) \in Places(P) /\ IsIn(HInt(f.c[i]), At(P, HInt(f.p[i])).cells)
                                THEN HInt(At(At(P, HInt(f.p[i])).cells, HInt(f.c[i])).g) ELSE NoneOf>> : i \in 1..2}
RightFace(S, own, P, k, f) ==
    LET s == At(S.faces, HInt(f.g))
        cs == Num(s.c) \ {NoneOf}
    IN /\ Global(At(P, k).nodes, f.n) = Ints(s.n)
       /\ IF Cardinality(cs) = 1
          THEN /\ f.b = "0000000000000000"
               /\ Sides(P, f) = {<<At(own, c), c>> : c \in cs} \cup {<<NoneOf, NoneOf>>}
               /\ f.c[2] = Invalid /\ f.p[2] = Invalid
          ELSE /\ f.b = IF Cardinality({At(own, c) : c \in cs}) = 1 THEN "0000000000000002" ELSE "0000000000000001"
               /\ Sides(P, f) = {<<At(own, c), c>> : c \in cs}

\* ---- columns ------------------------------------------------------------------------
\* Cells sorted by the first coordinate of their centroid into nx columns, each by
\* the second into ny parts; columns, and parts of a column, differ by at most one cell.
Centroid(S, c) == LET n == At(S.cells, c).n IN
    [d \in 1..3 |-> FDiv(FSum([i \in 1..4 |-> At(S.nodes, HInt(n[i])).x[d]]), FInt(4))]
Slack == FDec("1e-12")
AtMost(x, y) == FLe(x, FAdd(y, FMul(Slack, FAdd(FAbs(x), FAbs(y)))))
Even(sizes) == \A x, y \in {sizes[i] : i \in DOMAIN sizes} : x - y <= 1
RECURSIVE Extreme(_, _, _)
Extreme(Less(_, _), s, set) ==
    IF set = {} THEN s ELSE LET e == CHOOSE e \in set : TRUE IN Extreme(Less, IF Less(e, s) THEN e ELSE s, set \ {e})
\* the least and the greatest of a set, <<>> if there is none
More(x, y) == FLt(y, x)
Range(s) == IF s = {} THEN <<>> ELSE <<Extreme(FLt, CHOOSE x \in s : TRUE, s), Extreme(More, CHOOSE x \in s : TRUE, s)>>
\* every x of the first set is at most every x of the second
Below(a, b) == a = <<>> \/ b = <<>> \/ AtMost(a[2], b[1])
Ordered(r, n) == \A i \in 0..n-2 : \A j \in i+1..n-1 : Below(r[i], r[j])
RightColumns(S, own, nx, ny) ==
    LET cen == Strict([c \in Places(own) |-> Centroid(S, c)])
        col == Strict([i \in 0..nx-1 |-> {c \in Places(own) : At(own, c) \div ny = i}])
        cut == Strict([i \in 0..nx-1 |-> [j \in 0..ny-1 |-> {c \in col[i] : At(own, c) % ny = j}]])
        X(set, d) == Range({cen[c][d] : c \in set})
    IN /\ \A c \in Places(own) : At(own, c) \in 0..(nx*ny)-1
       /\ Even(Strict([i \in 0..nx-1 |-> Cardinality(col[i])]))
       /\ Ordered(Strict([i \in 0..nx-1 |-> X(col[i], 1)]), nx)
       /\ \A i \in 0..nx-1 : /\ Even(Strict([j \in 0..ny-1 |-> Cardinality(cut[i][j])]))
                             /\ Ordered(Strict([j \in 0..ny-1 |-> X(cut[i][j], 2)]), ny)
\* ---- graphs -------------------------------------------------------------------------
\* The graph to partition: the cells, joined where they share a face.
Neighbours(S, c) == UNION {Num(At(S.faces, f).c) : f \in Num(At(S.cells, c).f)} \ {c, NoneOf}
RightGraph(S, np, g) ==
    /\ g.n = Len(S.cells) /\ g.parts = np /\ Len(g.adj) = g.n
    /\ \A c \in Places(S.cells) : LET a == At(g.adj, c) IN
          {a[i] : i \in 1..Len(a)} = Neighbours(S, c) /\ Len(a) = Cardinality(Neighbours(S, c))
================================================================================
