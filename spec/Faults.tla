-------------------------------- MODULE Faults --------------------------------
(* Files can fail: an operation of a rank on a file ends in an error, or a     *)
(* read or write transfers less than was asked, though it claims success.  A   *)
(* run may repeat or continue what failed, but it must not go on without: it   *)
(* solves nothing while the rank lacks a part of its mesh, and it does not end *)
(* successfully while anything is lost.                                        *)
(* An operation: [r, op, file, wr (the file is open for writing), off, n (the  *)
(* bytes off .. off + n - 1 were asked for), got (that many were transferred), *)
(* ok (no error, and all were)].                                               *)
EXTENDS Naturals, FiniteSets
VARIABLES lost,     \* what failed (of transfers: the bytes) and was not made good
          failed    \* something has failed

Fresh == lost = {} /\ failed = FALSE

(* what a run goes without when this fails: closing a file only read, or       *)
(* deleting one (its name is then still taken), loses nothing by itself        *)
Matters(e) == e.op \in {"open", "seek", "read", "write"} \/ (e.op = "close" /\ e.wr)

Transfer(e) == e.op \in {"read", "write"}
Piece(l, lo, hi) == IF lo < hi THEN {[l EXCEPT !.off = lo, !.n = hi - lo]} ELSE {}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* what is still lost of l after e: the same rank does the same later; of a    *)
(* transfer, the bytes that e did not transfer                                 *)
Left(e, l) == IF ~(e.r = l.r /\ e.file = l.file /\ e.op = l.op) THEN {l}
              ELSE IF ~Transfer(e) THEN IF e.ok THEN {} ELSE {l}
              ELSE IF l.n = 0 THEN {l}
              ELSE Piece(l, l.off, Min(l.off + l.n, Max(e.off, l.off)))
                   \cup Piece(l, Max(l.off, e.off + e.got), l.off + l.n)

(* what is lost by e itself; asking for less than nothing loses that *)
Loses(e) == IF e.ok \/ ~Matters(e) THEN {}
            ELSE IF Transfer(e) /\ e.n > 0 THEN Piece(e, e.off + e.got, e.off + e.n)
            ELSE {e}

Operation(e) ==
    /\ failed' = (failed \/ ~e.ok)
    /\ lost' = UNION {Left(e, l) : l \in lost} \cup Loses(e)

(* rank r may compute: it has all it asked for of the files it reads *)
MaySolve(r) == \A l \in lost : l.r # r \/ l.wr
MayEndWell == lost = {}
MayEndBadly == failed
================================================================================
