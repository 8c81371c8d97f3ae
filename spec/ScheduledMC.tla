---------------------------- MODULE ScheduledMC ----------------------------
(* Scheduled for every small problem: Cells cells with some of the edges        *)
(* i -> j (i < j); group 1 sweeps along them, group 2 (if Groups = 2) against.  *)
EXTENDS Scheduled
CONSTANTS Cells, Ranks, Groups, Works, Sweeps, Protos, Modes, Variants, Edges
C == 1..Cells
AllEdges == {e \in C \X C : e[1] < e[2]}
Owners(n) == {f \in [C -> 1..n] : \A c \in C : \A m \in 1..(f[c]-1) : \E b \in 1..(c-1) : f[b] = m}
Task(a, c) == (a - 1) * Cells + c
Problems ==
    {[nr |-> n, ng |-> Groups,
      own |-> [t \in 1..(Cells * Groups) |-> f[((t - 1) % Cells) + 1]],
      grp |-> [t \in 1..(Cells * Groups) |-> ((t - 1) \div Cells) + 1],
      dep |-> UNION {{IF h % 2 = 1 THEN <<Task(h, e[1]), Task(h, e[2])>> ELSE <<Task(h, e[2]), Task(h, e[1])>> : e \in x} : h \in 1..Groups},
      near |-> [r \in 1..n |-> {q \in 1..n : q # r /\ \E e \in x : {f[e[1]], f[e[2]]} = {q, r}}],
      work |-> w, proto |-> p, mode |-> m, sweeps |-> Sweeps, variant |-> v] :
        n \in 2..Ranks, f \in UNION {Owners(i) : i \in 2..Ranks}, x \in {y \in SUBSET AllEdges : Cardinality(y) \in Edges},
        w \in Works, p \in Protos, m \in Modes, v \in Variants}
Init == \E p \in {x \in Problems : \A t \in DOMAIN x.own : x.own[t] <= x.nr} : ProblemInit(p)
=============================================================================
