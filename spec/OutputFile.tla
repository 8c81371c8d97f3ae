------------------------------ MODULE OutputFile -------------------------------
(* The flux and the output file.  Every solve sets the flux of a (cell, angle) *)
(* pair; the file written at the end holds, in 64-bit words,                   *)
(*   the name in 32 bytes (four words), padded with zeros,                     *)
(*   version 1, the number of cells, of angles, of groups,                     *)
(*   the final flux, groups first, then vertices, angles and cells in the      *)
(*   numbering of the mesh file.                                               *)
(* p: nc, na, ng.  A value is 16 hexadecimal digits.                           *)
EXTENDS Fp, Integers, Sequences, FiniteSets

VARIABLE flux     \* cell -> angle -> vertex -> group -> value

FileName == <<84,121,99,104,111,32,50,32,80,115,105,32,79,117,116,112,117,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>   \* Tycho 2 Psi Output
HeaderWords == 8

NoSolution(p) == [c \in 1..p.nc |-> [a \in 1..p.na |-> [v \in 1..4 |-> [g \in 1..p.ng |-> FInt(0)]]]]
Solve(c, a, x) == flux' = [flux EXCEPT ![c][a] = x]

Position(p, c, a, v, g) == HeaderWords + (((c-1) * p.na + (a-1)) * 4 + (v-1)) * p.ng + g
FileLength(p) == HeaderWords + p.nc * p.na * 4 * p.ng

\* name: the first 32 bytes; w: the words of the file
RightHeader(p, name, w) == /\ name = FileName
                           /\ Len(w) >= HeaderWords
                           /\ <<BHex(w[5]), BHex(w[6]), BHex(w[7]), BHex(w[8])>> = <<BInt(1), BInt(p.nc), BInt(p.na), BInt(p.ng)>>
WrongEntries(p, w) == {<<c, a>> \in (1..p.nc) \X (1..p.na) :
    \E v \in 1..4, g \in 1..p.ng : w[Position(p, c, a, v, g)] # flux[c][a][v][g]}
\* writes: [r: rank, off: first byte, n: number of bytes]
Overlap(x, y) == x.off < y.off + y.n /\ y.off < x.off + x.n
WrittenTwice(writes) == {<<i, j>> \in (1..Len(writes)) \X (1..Len(writes)) :
    i < j /\ writes[i].r # writes[j].r /\ Overlap(writes[i], writes[j])
          /\ writes[i].off + writes[i].n > 8 * HeaderWords /\ writes[j].off + writes[j].n > 8 * HeaderWords}

\* w: writes [r, off, n] in words.  How far the file is written without a gap.
RECURSIVE Reach(_, _)
Reach(w, n) == LET next == {i \in 1..Len(w) : w[i].off <= n /\ w[i].off + w[i].n > n}
               IN IF next = {} THEN n ELSE LET i == CHOOSE i \in next : TRUE IN Reach(w, w[i].off + w[i].n)
================================================================================
