-------------------------------- MODULE Exchange --------------------------------
(* The exchange of the values on partition boundaries between the local sweeps *)
(* of block Jacobi and of the Schur operators (CommSides), any number of times. *)
(*                                                                              *)
(* A problem: nr ranks; face: sequence of <<a, b>> (faces between partitions    *)
(* a and b); cross: face -> directions crossing it, 1 from a to b, 2 from b to  *)
(* a; times: exchanges; mode: "eager" or "rdv" (a send is done when it is       *)
(* received); barrier: ranks meet after each exchange (a reduction).            *)
(* A packet <<face, direction>> carries the value its sender's last sweep left  *)
(* there, here its number: the sweep after exchange n must be made with the     *)
(* values of sweep n, all of them.                                              *)
(*                                                                              *)
(* variant, wrong protocols: "blocking" (sends complete before anything is      *)
(* received), "nowait" (sends are not waited for), "fewer" (one receive too few *)
(* is waited for), "anysource" (a receive takes the message of any neighbour),  *)
(* "unlabelled" (packets do not say which face they belong to; each rank goes   *)
(* by its own order), "outgoing" (what is expected is counted by the outgoing   *)
(* directions), "nometa" (one message for all directions is expected even of a  *)
(* neighbour that has nothing to send).                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    pr,
    pc,       \* rank -> "sweep", "send", "recv", "reduce", "done"
    it,       \* rank -> exchanges done
    box,      \* rank -> neighbours still to receive from
    next,     \* rank -> neighbours still to send to
    bound,    \* packet -> sweep whose value its receiver holds
    chan,     \* <<from, to>> -> messages [d: sequence of packets, v: sweep]
    bad
vars == <<pr, pc, it, box, next, bound, chan, bad>>

R == 1..pr.nr
Source(p, x) == p.face[x[1]][x[2]]
Target(p, x) == p.face[x[1]][3 - x[2]]
Packets(p) == {x \in (1..Len(p.face)) \X {1, 2} : x[2] \in p.cross[x[1]]}
Out(r, a) == {x \in Packets(pr) : Source(pr, x) = r /\ Target(pr, x) = a}
Near(r) == {a \in R : \E f \in 1..Len(pr.face) : {pr.face[f][1], pr.face[f][2]} = {r, a} /\ a # r}
\* In the order of the sender's, or of the receiver's, faces.
Ascending(s) == LET f[x \in SUBSET s] == IF x = {} THEN << >> ELSE
    LET m == CHOOSE y \in x : \A z \in x : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<m>> \o f[x \ {m}] IN f[s]
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

ProblemInit(p) ==
    /\ pr = p
    /\ pc = [r \in 1..p.nr |-> "sweep"] /\ it = [r \in 1..p.nr |-> 0]
    /\ box = [r \in 1..p.nr |-> {}] /\ next = [r \in 1..p.nr |-> {}]
    /\ bound = [x \in Packets(p) |-> 0]
    /\ chan = [c \in (1..p.nr) \X (1..p.nr) |-> << >>] /\ bad = ""

Open(r) == pr.mode = "rdv" /\ \E a \in R : chan[<<r, a>>] # << >>
Expected(r) == {a \in Near(r) : CASE pr.variant = "outgoing" -> Out(r, a) # {}
                                  [] pr.variant = "nometa" -> TRUE
                                  [] OTHER -> Out(a, r) # {}}
\* A sweep of partition r, and the receives for what comes after it.
Sweep(r) ==
    /\ pc[r] = "sweep"
    /\ bad' = IF \E x \in Packets(pr) : Target(pr, x) = r /\ bound[x] # it[r] THEN "a sweep is made with the values of another sweep"
              ELSE IF Open(r) THEN "a send is open after its buffer is gone" ELSE bad
    /\ box' = [box EXCEPT ![r] = Expected(r)]
    /\ next' = [next EXCEPT ![r] = {a \in Near(r) : Out(r, a) # {}}]
    /\ pc' = [pc EXCEPT ![r] = "send"]
    /\ UNCHANGED <<pr, it, bound, chan>>
Send(r) ==
    /\ pc[r] = "send" /\ next[r] # {}
    /\ pr.variant = "blocking" => ~Open(r)
    /\ LET a == CHOOSE x \in next[r] : \A y \in next[r] : x <= y IN
       /\ chan' = [chan EXCEPT ![<<r, a>>] = Append(@, [d |-> Ascending(Out(r, a)), v |-> it[r] + 1])]
       /\ next' = [next EXCEPT ![r] = @ \ {a}]
    /\ UNCHANGED <<pr, pc, it, box, bound, bad>>
Sent(r) ==
    /\ pc[r] = "send" /\ next[r] = {} /\ (pr.variant = "blocking" => ~Open(r))
    /\ pc' = [pc EXCEPT ![r] = "recv"]
    /\ UNCHANGED <<pr, it, box, next, bound, chan, bad>>
\* Whichever message is there first.
Recv(r) ==
    /\ pc[r] = "recv"
    /\ \E a \in box[r] : \E from \in IF pr.variant = "anysource" THEN Near(r) ELSE {a} :
        /\ chan[<<from, r>>] # << >>
        /\ LET m == Head(chan[<<from, r>>])
               mine == Reverse(Ascending(Out(a, r)))   \* as r lists its faces
               at == IF pr.variant = "unlabelled" THEN [i \in 1..Len(m.d) |-> IF i <= Len(mine) THEN mine[i] ELSE m.d[i]] ELSE m.d
           IN /\ chan' = [chan EXCEPT ![<<from, r>>] = Tail(@)]
              /\ bound' = [x \in DOMAIN bound |-> IF \E i \in 1..Len(at) : at[i] = x THEN m.v ELSE bound[x]]
              /\ bad' = IF m.v # it[r] + 1 THEN "a message of another exchange"
                        ELSE IF at # m.d THEN "a value on another face"
                        ELSE IF Len(m.d) # Cardinality(Out(a, r)) THEN "a message of another size than expected" ELSE bad
        /\ box' = [box EXCEPT ![r] = @ \ {a}]
    /\ UNCHANGED <<pr, pc, it, next>>
Enough(r) == box[r] = {} \/ (pr.variant = "fewer" /\ Cardinality(box[r]) = 1)
Wait(r) ==
    /\ pc[r] = "recv" /\ Enough(r)
    /\ pr.variant = "nowait" \/ ~Open(r)
    /\ it' = [it EXCEPT ![r] = @ + 1]
    /\ pc' = [pc EXCEPT ![r] = IF pr.barrier THEN "reduce" ELSE IF it[r] + 1 = pr.times THEN "done" ELSE "sweep"]
    /\ UNCHANGED <<pr, box, next, bound, chan, bad>>
Reduce ==
    /\ \A r \in R : pc[r] = "reduce"
    /\ pc' = [r \in R |-> IF it[r] = pr.times THEN "done" ELSE "sweep"]
    /\ UNCHANGED <<pr, it, box, next, bound, chan, bad>>
Over == /\ \A r \in R : pc[r] = "done"
        /\ bad' = IF \E c \in DOMAIN chan : chan[c] # << >> THEN "a message is left over" ELSE bad
        /\ UNCHANGED <<pr, pc, it, box, next, bound, chan>>

Next == (bad = "" /\ (\/ \E r \in R : Sweep(r) \/ Send(r) \/ Sent(r) \/ Recv(r) \/ Wait(r)
                      \/ Reduce \/ Over))

\* ---- properties ----------------------------------------------------------------
Good == bad = ""
\* With reductions after every exchange no rank is more than one exchange ahead, and
\* one message at most is under way.
InStep == (pr.barrier /\ pr.variant = "") => \A r, a \in R : it[r] <= it[a] + 1 /\ Len(chan[<<a, r>>]) <= 1
================================================================================
