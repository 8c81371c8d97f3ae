------------------------------ MODULE ExchangeMC -------------------------------
(* Exchange for every small problem: Faces faces between Ranks partitions, each *)
(* crossed by none, one or both of two directions.                              *)
EXTENDS Exchange
CONSTANTS Faces, Ranks, Times, Modes, Barriers, Variants
Pairs == {p \in (1..Ranks) \X (1..Ranks) : p[1] < p[2]}
Code(p, x) == 100 * p[1] + 10 * p[2] + (IF 1 \in x THEN 1 ELSE 0) + (IF 2 \in x THEN 2 ELSE 0)
\* The order of the faces does not matter.
Problems ==
    {q \in {[nr |-> Ranks, face |-> f, cross |-> x, times |-> Times, mode |-> m, barrier |-> b, variant |-> v] :
            f \in [1..Faces -> Pairs], x \in [1..Faces -> SUBSET {1, 2}], m \in Modes, b \in Barriers, v \in Variants} :
        \A i \in 1..(Faces - 1) : Code(q.face[i], q.cross[i]) <= Code(q.face[i+1], q.cross[i+1])}
Init == \E p \in Problems : ProblemInit(p)
================================================================================
