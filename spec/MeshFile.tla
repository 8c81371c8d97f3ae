------------------------------- MODULE MeshFile --------------------------------
(* The mesh files.  A file is its first 32 bytes and then a sequence of 64-bit *)
(* words, written as 16 hexadecimal digits.                                    *)
(*   serial:    name, version, #cells, #faces, #nodes,                         *)
(*              cells (4 faces, 4 nodes, material), faces (2 cells, 3 nodes),  *)
(*              nodes (3 coordinates)                                          *)
(*   parallel:  name, version, #parts, #parts + 1 offsets in bytes, parts      *)
(*   a part:    #cells, #faces, #nodes, cells (4 faces, 4 nodes, number,       *)
(*              material), faces (2 cells, 3 nodes, number, 2 parts, kind of   *)
(*              boundary), nodes (3 coordinates, number)                       *)
EXTENDS Fp, Integers, Sequences

SerialName == <<84,121,99,104,111,32,50,32,83,101,114,105,97,108,32,77,101,115,104,0,0,0,0,0,0,0,0,0,0,0,0,0>>
ParallelName == <<84,121,99,104,111,32,50,32,80,97,114,97,108,108,101,108,32,77,101,115,104,0,0,0,0,0,0,0,0,0,0,0>>
Version == "0000000000000002"
Invalid == "ffffffffffffffff"

\* ---- serial ------------------------------------------------------------------
SCellWords == 9
SFaceWords == 5
SNodeWords == 3
SerialMesh(w) ==
    LET nc == HInt(w[2]) nf == HInt(w[3]) nn == HInt(w[4])
        C(i) == 4 + (i-1) * SCellWords
        F(i) == 4 + nc * SCellWords + (i-1) * SFaceWords
        N(i) == 4 + nc * SCellWords + nf * SFaceWords + (i-1) * SNodeWords
    IN Strict([nc |-> w[2], nf |-> w[3], nn |-> w[4],
        cells |-> [i \in 1..nc |-> [f |-> SubSeq(w, C(i)+1, C(i)+4), n |-> SubSeq(w, C(i)+5, C(i)+8), m |-> w[C(i)+9]]],
        faces |-> [i \in 1..nf |-> [c |-> SubSeq(w, F(i)+1, F(i)+2), n |-> SubSeq(w, F(i)+3, F(i)+5)]],
        nodes |-> [i \in 1..nn |-> [x |-> SubSeq(w, N(i)+1, N(i)+3)]]])
SerialLength(w) == 4 + HInt(w[2]) * SCellWords + HInt(w[3]) * SFaceWords + HInt(w[4]) * SNodeWords

\* the words of a sequence of records, R(record) being the words of one
Flat(s, R(_), n) == Strict([k \in 1..Len(s) * n |-> R(s[((k-1) \div n) + 1])[((k-1) % n) + 1]])
SerialWords(s) ==
    LET C(c) == c.f \o c.n \o <<c.m>>
        F(f) == f.c \o f.n
        N(n) == n.x
    IN <<Version, s.nc, s.nf, s.nn>> \o Flat(s.cells, C, SCellWords) \o Flat(s.faces, F, SFaceWords) \o Flat(s.nodes, N, SNodeWords)

\* ---- parallel ----------------------------------------------------------------
PCellWords == 10
PFaceWords == 9
PNodeWords == 4
NumParts(w) == HInt(w[2])
\* the part that starts after k words
Part(w, k) ==
    LET nc == HInt(w[k+1]) nf == HInt(w[k+2]) nn == HInt(w[k+3])
        C(i) == k + 3 + (i-1) * PCellWords
        F(i) == k + 3 + nc * PCellWords + (i-1) * PFaceWords
        N(i) == k + 3 + nc * PCellWords + nf * PFaceWords + (i-1) * PNodeWords
    IN Strict([nc |-> w[k+1], nf |-> w[k+2], nn |-> w[k+3],
        cells |-> [i \in 1..nc |-> [f |-> SubSeq(w, C(i)+1, C(i)+4), n |-> SubSeq(w, C(i)+5, C(i)+8), g |-> w[C(i)+9], m |-> w[C(i)+10]]],
        faces |-> [i \in 1..nf |-> [c |-> SubSeq(w, F(i)+1, F(i)+2), n |-> SubSeq(w, F(i)+3, F(i)+5), g |-> w[F(i)+6],
                                    p |-> SubSeq(w, F(i)+7, F(i)+8), b |-> w[F(i)+9]]],
        nodes |-> [i \in 1..nn |-> [x |-> SubSeq(w, N(i)+1, N(i)+3), g |-> w[N(i)+4]]]])
PartLength(w, k) == 3 + HInt(w[k+1]) * PCellWords + HInt(w[k+2]) * PFaceWords + HInt(w[k+3]) * PNodeWords

\* number of words before part i (from 1), by counting and by the offset
RECURSIVE StartsFrom(_, _, _)
StartsFrom(w, k, n) == IF n = 0 THEN <<k>> ELSE <<k>> \o StartsFrom(w, k + PartLength(w, k), n - 1)
Starts(w) == Strict(StartsFrom(w, 2 + NumParts(w) + 1, NumParts(w)))        \* and where the last ends
OffsetWords(w, i) == (HInt(w[2 + i]) - 32) \div 8

Parts(w) == LET s == Starts(w) IN Strict([i \in 1..NumParts(w) |-> Part(w, s[i])])
PartWords(p) ==
    LET C(c) == c.f \o c.n \o <<c.g, c.m>>
        F(f) == f.c \o f.n \o <<f.g>> \o f.p \o <<f.b>>
        N(n) == n.x \o <<n.g>>
    IN <<p.nc, p.nf, p.nn>> \o Flat(p.cells, C, PCellWords) \o Flat(p.faces, F, PFaceWords) \o Flat(p.nodes, N, PNodeWords)
RECURSIVE AllWords(_, _)
AllWords(ps, i) == IF i > Len(ps) THEN <<>> ELSE PartWords(ps[i]) \o AllWords(ps, i + 1)
ParallelWords(n, off, ps) == <<Version, n>> \o off \o AllWords(ps, 1)

\* a well-formed parallel file: the offsets say where the parts are
WellPlaced(w) ==
    /\ Len(w) >= 3 + NumParts(w)
    /\ LET s == Starts(w) IN
       /\ \A i \in 1..NumParts(w) + 1 : OffsetWords(w, i) = s[i]
       /\ Len(w) = s[NumParts(w) + 1]

\* ---- readers -----------------------------------------------------------------
\* A reader takes a file with the right name and version, and collective readers
\* only one with as many parts as there are ranks.
Readable(kind, name, w) ==
    /\ name = IF kind = "serial" THEN SerialName ELSE ParallelName
    /\ Len(w) >= 1 /\ w[1] = Version
CollectivelyReadable(name, w, ranks) ==
    /\ Readable("parallel", name, w)
    /\ Len(w) >= 2 /\ NumParts(w) = ranks

\* ---- large parallel files ------------------------------------------------------
\* Given by a function from positions to words, which has the words of the header
\* and the three counts of each part; all other words missing from it are zero.
Sparse(s) == Strict([p \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = p][2]])
Zero == "0000000000000000"
\* the place of word p in a part that starts after s words
PartPlace(w, s, p) ==
    LET o == p - s - 4
        nc == HInt(w[s+1]) nf == HInt(w[s+2])
        f == nc * PCellWords
        n == f + nf * PFaceWords
    IN IF o < f THEN <<"cell", o \div PCellWords, o % PCellWords>>
       ELSE IF o < n THEN <<"face", (o - f) \div PFaceWords, (o - f) % PFaceWords>>
       ELSE <<"node", (o - n) \div PNodeWords, (o - n) % PNodeWords>>
LargeParts(w) == LET s == Starts(w) IN
    [i \in 1..NumParts(w) |->
       [nc |-> w[s[i]+1], nf |-> w[s[i]+2], nn |-> w[s[i]+3],
        sizes |-> <<HInt(w[s[i]+1]), HInt(w[s[i]+2]), HInt(w[s[i]+3])>>,
        some |-> {PartPlace(w, s[i], p) \o <<w[p]>> : p \in {p \in DOMAIN w : p > s[i] + 3 /\ p <= s[i+1] /\ w[p] # Zero}}]]
================================================================================
