------------------------------- MODULE Traverse -------------------------------
(* The protocol by which the ranks traverse the dependency graph together       *)
(* (GraphTraverser), with the message layer and the ranks as independent        *)
(* processes.                                                                   *)
(*                                                                              *)
(* A problem: nr ranks; own: task -> rank (a task is a pair of cell and angle); *)
(* dep: a set of <<u, t>>, task u before task t; near: rank -> the ranks it     *)
(* shares a face with; work: most tasks per step; proto: "tycho" (sizes, then   *)
(* data, in lock step with the neighbours, until they say they are done) or     *)
(* "capsaicin" (start sends, look for messages, look on until the sends are     *)
(* done); mode: "eager" (a send is done at once), "rdv" (when it is received)   *)
(* or "any"; sweeps: how many traversals.  Each ends with reductions (the       *)
(* timers), which no rank leaves before all have come.                          *)
(*                                                                              *)
(* "Looking for a message that is not there" changes nothing, so a rank that    *)
(* does so for ever has no step here: a rank that is stuck or that spins in     *)
(* vain is a deadlock.                                                          *)
(*                                                                              *)
(* variant names a wrong protocol, to see that the properties notice it:        *)
(* "blocking" (data with blocking sends), "nokill", "killnowait", "dark"        *)
(* (sizes are still sent to finished neighbours), "nobarrier", "nowaitrecv"     *)
(* (capsaicin: do not receive while waiting for sends), "stale" (buffers not    *)
(* cleared).                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    pr,       \* the problem
    sw,       \* rank -> number of its traversal
    pc,       \* rank -> "work", "post", "recv", "look", "end", "done"
    solved,   \* rank -> its tasks solved in this traversal
    got,      \* rank -> dependencies it has received
    k,        \* rank -> tasks solved in this step
    buf,      \* rank -> dependencies to send
    dark,     \* rank -> neighbours that are done
    pend,     \* rank -> neighbours whose size (or look) is to come
    cur,      \* rank -> the neighbour whose data is to come, or 0
    acc,      \* rank -> dependencies received in this step
    kill,     \* rank -> saying that it is done
    todo,     \* rank -> neighbours a blocking variant has still to send to
    chan,     \* <<from, to>> -> messages
    bad       \* "" or what went wrong

vars == <<pr, sw, pc, solved, got, k, buf, dark, pend, cur, acc, kill, todo, chan, bad>>

R == 1..pr.nr
Tasks(r) == {t \in DOMAIN pr.own : pr.own[t] = r}
Deps(t) == {d \in pr.dep : d[2] = t}
Ready(r) == {t \in Tasks(r) \ solved[r] :
                \A d \in Deps(t) : IF pr.own[d[1]] = r THEN d[1] \in solved[r] ELSE d \in got[r]}
Left(r) == Tasks(r) \ solved[r]
For(r, a) == {d \in buf[r] : pr.own[d[2]] = a}
Tycho == pr.proto = "tycho"

ProblemInit(p) ==
    /\ pr = p
    /\ sw = [r \in 1..p.nr |-> 1]
    /\ pc = [r \in 1..p.nr |-> "work"]
    /\ solved = [r \in 1..p.nr |-> {}] /\ got = [r \in 1..p.nr |-> {}]
    /\ k = [r \in 1..p.nr |-> 0]
    /\ buf = [r \in 1..p.nr |-> {}] /\ dark = [r \in 1..p.nr |-> {}]
    /\ pend = [r \in 1..p.nr |-> {}] /\ cur = [r \in 1..p.nr |-> 0]
    /\ acc = [r \in 1..p.nr |-> {}] /\ kill = [r \in 1..p.nr |-> FALSE]
    /\ todo = [r \in 1..p.nr |-> {}]
    /\ chan = [c \in (1..p.nr) \X (1..p.nr) |-> << >>]
    /\ bad = ""

\* ---- messages -----------------------------------------------------------------
Size == 0
Data == 1
Message(r, tag, kind, d, rdv) == [tag |-> tag, kind |-> kind, d |-> d, sw |-> sw[r], rdv |-> rdv]
Rdv == CASE pr.mode = "eager" -> {FALSE} [] pr.mode = "rdv" -> {TRUE} [] OTHER -> BOOLEAN
Open(r) == \E a \in R : \E i \in 1..Len(chan[<<r, a>>]) : chan[<<r, a>>][i].rdv
OpenTo(r, a) == \E i \in 1..Len(chan[<<r, a>>]) : chan[<<r, a>>][i].rdv
With(tag, a, r) == {i \in 1..Len(chan[<<a, r>>]) : chan[<<a, r>>][i].tag = tag}
Head1(tag, a, r) == LET s == With(tag, a, r) IN CHOOSE i \in s : \A j \in s : i <= j
Without(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))

\* ---- solving --------------------------------------------------------------------
Solve(r) ==
    /\ pc[r] = "work" /\ k[r] < pr.work
    /\ \E t \in Ready(r) :
        /\ solved' = [solved EXCEPT ![r] = @ \cup {t}]
        /\ buf' = [buf EXCEPT ![r] = @ \cup {d \in pr.dep : d[1] = t /\ pr.own[d[2]] # r}]
        /\ k' = [k EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<pr, sw, pc, got, dark, pend, cur, acc, kill, todo, chan, bad>>

\* A step ends when nothing is left to do in it.
StepOver(r) == pc[r] = "work" /\ (k[r] = pr.work \/ Ready(r) = {}) /\ (Left(r) # {} \/ k[r] > 0)

\* ---- "tycho" ----------------------------------------------------------------------
\* Starts all sends of an exchange; \* j: which of them are rendezvous
Partners(r) == IF pr.variant = "dark" THEN pr.near[r] ELSE pr.near[r] \ dark[r]
SizeKind(r, a) == IF kill[r]' THEN "kill" ELSE IF For(r, a) = {} THEN "none" ELSE "some"
SendAll(r, only) ==
    \E s \in [Partners(r) -> Rdv] : \E d \in [Partners(r) -> Rdv] :
        chan' = [c \in DOMAIN chan |->
            IF c[1] = r /\ c[2] \in Partners(r) THEN
                LET a == c[2]
                    size == <<Message(r, Size, SizeKind(r, a), {}, s[a])>>
                    data == <<Message(r, Data, "data", For(r, a), d[a])>>
                IN chan[c] \o size \o (IF SizeKind(r, a) = "some" /\ ~only THEN data ELSE << >>)
            ELSE chan[c]]

Post(r) ==
    /\ Tycho
    /\ \/ StepOver(r) /\ kill' = kill
       \/ pc[r] = "post" /\ kill' = [kill EXCEPT ![r] = TRUE]
    /\ pc' = [pc EXCEPT ![r] = "recv"]
    /\ pend' = [pend EXCEPT ![r] = pr.near[r] \ dark[r]]
    /\ SendAll(r, pr.variant = "blocking")
    /\ todo' = [todo EXCEPT ![r] = IF pr.variant = "blocking" /\ ~kill[r]'
                                   THEN {a \in Partners(r) : For(r, a) # {}} ELSE {}]
    /\ UNCHANGED <<pr, sw, solved, got, k, buf, dark, cur, acc, bad>>

\* The blocking variant sends the data one by one, and goes on when it is received.
Blocked(r) == pr.variant = "blocking" /\ (todo[r] # {} \/ \E a \in R : \E i \in With(Data, r, a) : chan[<<r, a>>][i].rdv)
SendBlocking(r) ==
    /\ todo[r] # {} /\ ~ \E a \in R : \E i \in With(Data, r, a) : chan[<<r, a>>][i].rdv
    /\ LET a == CHOOSE x \in todo[r] : \A y \in todo[r] : x <= y IN
        /\ todo' = [todo EXCEPT ![r] = @ \ {a}]
        /\ \E v \in Rdv : chan' = [chan EXCEPT ![<<r, a>>] = Append(@, Message(r, Data, "data", For(r, a), v))]
    /\ UNCHANGED <<pr, sw, pc, solved, got, k, buf, dark, pend, cur, acc, kill, bad>>

RecvSize(r) ==
    /\ Tycho /\ pc[r] = "recv" /\ cur[r] = 0 /\ ~Blocked(r)
    /\ \E a \in pend[r] :
        /\ With(Size, a, r) # {}
        /\ LET i == Head1(Size, a, r) m == chan[<<a, r>>][i] IN
            /\ chan' = [chan EXCEPT ![<<a, r>>] = Without(@, i)]
            /\ pend' = [pend EXCEPT ![r] = @ \ {a}]
            /\ dark' = [dark EXCEPT ![r] = IF m.kind = "kill" THEN @ \cup {a} ELSE @]
            /\ cur' = [cur EXCEPT ![r] = IF m.kind = "some" THEN a ELSE 0]
            /\ bad' = IF m.sw # sw[r] THEN "a size of another traversal is received" ELSE bad
    /\ UNCHANGED <<pr, sw, pc, solved, got, k, buf, acc, kill, todo>>

RecvData(r) ==
    /\ Tycho /\ pc[r] = "recv" /\ cur[r] # 0
    /\ With(Data, cur[r], r) # {}
    /\ LET i == Head1(Data, cur[r], r) m == chan[<<cur[r], r>>][i] IN
        /\ chan' = [chan EXCEPT ![<<cur[r], r>>] = Without(@, i)]
        /\ acc' = [acc EXCEPT ![r] = @ \cup m.d]
        /\ bad' = IF m.sw # sw[r] THEN "data of another traversal is received"
                  ELSE IF m.d \cap (got[r] \cup acc[r]) # {} THEN "a dependency is received twice" ELSE bad
    /\ cur' = [cur EXCEPT ![r] = 0]
    /\ UNCHANGED <<pr, sw, pc, solved, got, k, buf, dark, pend, kill, todo>>

\* ---- both: the end of an exchange -------------------------------------------------
After(r) == IF kill[r] THEN "end"
            ELSE IF Left(r) # {} THEN "work"
            ELSE IF Tycho /\ pr.variant # "nokill" THEN "post" ELSE "end"
Finish(r) ==
    /\ pc[r] \in {"recv", "look"} /\ pend[r] = {} /\ cur[r] = 0 /\ ~Blocked(r)
    /\ \/ ~Open(r)
       \/ pr.variant = "killnowait" /\ kill[r]
    /\ got' = [got EXCEPT ![r] = @ \cup acc[r]]
    /\ acc' = [acc EXCEPT ![r] = {}]
    /\ buf' = [buf EXCEPT ![r] = IF pr.variant = "stale" THEN @ ELSE {}]
    /\ k' = [k EXCEPT ![r] = 0]
    /\ pc' = [pc EXCEPT ![r] = After(r)]
    /\ bad' = IF Open(r) THEN "a send is open after its buffer is gone"
              ELSE IF kill[r] /\ acc[r] # {} THEN "data for a rank that is done" ELSE bad
    /\ UNCHANGED <<pr, sw, solved, dark, pend, cur, kill, todo, chan>>

\* ---- "capsaicin" --------------------------------------------------------------------
PostC(r) ==
    /\ ~Tycho /\ StepOver(r)
    \* a step without sends only looks for messages: it does something if there is one
    /\ buf[r] = {} /\ k[r] = 0 => \E a \in pr.near[r] : With(Size, a, r) # {}
    /\ pc' = [pc EXCEPT ![r] = "look"]
    /\ pend' = [pend EXCEPT ![r] = pr.near[r]]
    /\ \E s \in [pr.near[r] -> Rdv] :
        chan' = [c \in DOMAIN chan |->
            IF c[1] = r /\ c[2] \in pr.near[r] /\ For(r, c[2]) # {}
            THEN Append(chan[c], Message(r, Size, "data", For(r, c[2]), s[c[2]])) ELSE chan[c]]
    /\ UNCHANGED <<pr, sw, solved, got, k, buf, dark, cur, acc, kill, todo, bad>>

\* Looks for a message of each neighbour, once, and then on while sends are open.
Take(r, a) ==
    LET i == Head1(Size, a, r) m == chan[<<a, r>>][i] IN
    /\ chan' = [chan EXCEPT ![<<a, r>>] = Without(@, i)]
    /\ acc' = [acc EXCEPT ![r] = @ \cup m.d]
    /\ bad' = IF m.sw # sw[r] THEN "data of another traversal is received"
              ELSE IF m.d \cap (got[r] \cup acc[r]) # {} THEN "a dependency is received twice" ELSE bad
Look(r) ==
    /\ ~Tycho /\ pc[r] = "look" /\ pend[r] # {}
    /\ LET a == CHOOSE x \in pend[r] : \A y \in pend[r] : x <= y IN
        /\ pend' = [pend EXCEPT ![r] = @ \ {a}]
        \* a message may not have arrived yet, even if its sender waits for it
        /\ \/ With(Size, a, r) # {} /\ Take(r, a)
           \/ UNCHANGED <<chan, acc, bad>>
    /\ UNCHANGED <<pr, sw, pc, solved, got, k, buf, dark, cur, kill, todo>>
LookOn(r) ==
    /\ ~Tycho /\ pc[r] = "look" /\ pend[r] = {} /\ Open(r) /\ pr.variant # "nowaitrecv"
    /\ \E a \in pr.near[r] : With(Size, a, r) # {} /\ Take(r, a)
    /\ UNCHANGED <<pr, sw, pc, solved, got, k, buf, dark, pend, cur, kill, todo>>

\* ---- the end of a traversal -------------------------------------------------------------
\* A rank without anything to do in this traversal only ends it.
Idle(r) ==
    /\ pc[r] = "work" /\ Tasks(r) = {}
    /\ pc' = [pc EXCEPT ![r] = IF Tycho /\ pr.variant # "nokill" THEN "post" ELSE "end"]
    /\ UNCHANGED <<pr, sw, solved, got, k, buf, dark, pend, cur, acc, kill, todo, chan, bad>>

Fresh(s) ==    \* the ranks in s begin the next traversal
    /\ sw' = [r \in R |-> IF r \in s THEN sw[r] + 1 ELSE sw[r]]
    /\ pc' = [r \in R |-> IF r \in s THEN (IF sw[r] = pr.sweeps THEN "done" ELSE "work") ELSE pc[r]]
    /\ solved' = [r \in R |-> IF r \in s THEN {} ELSE solved[r]]
    /\ got' = [r \in R |-> IF r \in s THEN {} ELSE got[r]]
    /\ k' = [r \in R |-> IF r \in s THEN 0 ELSE k[r]]
    /\ dark' = [r \in R |-> IF r \in s THEN {} ELSE dark[r]]
    /\ buf' = [r \in R |-> IF r \in s THEN {} ELSE buf[r]]
    /\ kill' = [r \in R |-> IF r \in s THEN FALSE ELSE kill[r]]
    /\ UNCHANGED <<pr, pend, cur, acc, todo, chan>>
Reduce ==
    IF pr.variant = "nobarrier"
    THEN \E r \in R : pc[r] = "end" /\ Fresh({r}) /\ bad' = IF Open(r) THEN "a send is open after its buffer is gone" ELSE bad
    ELSE /\ \A r \in R : pc[r] = "end"
         /\ Fresh(R)
         /\ bad' = IF \E r \in R : Open(r) THEN "a send is open after its buffer is gone"
                   ELSE IF \E c \in DOMAIN chan : chan[c] # << >> THEN "a message is left over"
                   ELSE IF \E r \in R : Left(r) # {} THEN "a task is not solved" ELSE bad

Done == (\A r \in R : pc[r] = "done") /\ UNCHANGED vars

Step(r) == Solve(r) \/ Post(r) \/ SendBlocking(r) \/ RecvSize(r) \/ RecvData(r) \/ Finish(r)
           \/ PostC(r) \/ Look(r) \/ LookOn(r) \/ Idle(r)
Next == (bad = "" /\ ((\E r \in R : Step(r)) \/ Reduce)) \/ Done

\* ---- properties ------------------------------------------------------------------------------
Good == bad = ""
\* A task is solved only after the tasks it depends on, in the same traversal.
Order == \A r \in R : \A t \in solved[r] : \A d \in Deps(t) :
            LET u == pr.own[d[1]] IN sw[u] > sw[r] \/ (sw[u] = sw[r] /\ d[1] \in solved[u])
\* What is received was sent by the solver of the first task, and is never lost:
\* it is received, on the way, or waiting to be sent.
Carried == \A r \in R : \A d \in pr.dep :
            (pr.own[d[1]] = r /\ pr.own[d[2]] # r /\ d[1] \in solved[r] /\ sw[pr.own[d[2]]] = sw[r] /\ pc[r] # "done") =>
                LET a == pr.own[d[2]] IN
                d \in got[a] \cup acc[a] \cup buf[r] \/ \E i \in 1..Len(chan[<<r, a>>]) : d \in chan[<<r, a>>][i].d
\* In lock step: at most two sizes are on the way between two ranks.
LockStep == Tycho => \A c \in DOMAIN chan : Cardinality(With(Size, c[1], c[2])) <= 2
\* A rank never waits for a neighbour that is done.
NotDark == Tycho => \A r \in R : pend[r] \cap dark[r] = {}
=============================================================================
