----------------------------- MODULE TraverseMC -----------------------------
(* Traverse for every small problem: cells 1..Cells, each with some of the      *)
(* edges i -> j (i < j) between cells, in one direction and (if Both) in the    *)
(* opposite one too; every distribution of the cells over up to Ranks ranks.    *)
EXTENDS Traverse
CONSTANTS Cells, Ranks, Works, Sweeps, Both, Protos, Modes, Variants, Edges

C == 1..Cells
AllEdges == {e \in C \X C : e[1] < e[2]}
\* Rank numbers appear in the order of the cells' first use of them.
Owners(n) == {f \in [C -> 1..n] : \A c \in C : \A m \in 1..(f[c]-1) : \E b \in 1..(c-1) : f[b] = m}
Task(a, c) == (a - 1) * Cells + c
Dirs == IF Both THEN 1..2 ELSE {1}
Problems ==
    {[nr |-> n,
      own |-> [t \in 1..(Cells * Cardinality(Dirs)) |-> f[((t - 1) % Cells) + 1]],
      dep |-> {<<Task(1, e[1]), Task(1, e[2])>> : e \in g} \cup (IF Both THEN {<<Task(2, e[2]), Task(2, e[1])>> : e \in g} ELSE {}),
      near |-> [r \in 1..n |-> {q \in 1..n : q # r /\ \E e \in g : {f[e[1]], f[e[2]]} = {q, r}}],
      work |-> w, proto |-> p, mode |-> m, sweeps |-> Sweeps, variant |-> v] :
        n \in 2..Ranks, f \in UNION {Owners(i) : i \in 2..Ranks}, g \in {x \in SUBSET AllEdges : Cardinality(x) \in Edges},
        w \in Works, p \in Protos, m \in Modes, v \in Variants}
Init == \E p \in {x \in Problems : \A t \in DOMAIN x.own : x.own[t] <= x.nr} : ProblemInit(p)
=============================================================================
