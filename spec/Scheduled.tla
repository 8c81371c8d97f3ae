------------------------------ MODULE Scheduled ------------------------------
(* The protocol of the sweeps with a schedule (SweepSchedule, Sweeper): first   *)
(* the ranks make the schedule together, one group of angles after the other;   *)
(* then they sweep by it, any number of times.                                  *)
(*                                                                              *)
(* A problem: nr ranks, ng groups (threads); own: task -> rank; grp: task ->    *)
(* group; dep: set of <<u, t>>, task u before task t, both of one group; near:  *)
(* rank -> neighbours; work: most tasks of a step; proto: 1 (compute, then one  *)
(* thread exchanges for all groups) or 2 (the threads exchange in turn, with a  *)
(* barrier of the ranks for each); mode: "eager" or "rdv" (a send is done when  *)
(* it is received); sweeps.                                                     *)
(*                                                                              *)
(* variant, wrong protocols: "blocking" (the schedule is made with blocking     *)
(* sends), "noturn" (threads exchange when they like), "short" (only the steps  *)
(* of the first group are done), "early" (the schedule lets a foreign task's    *)
(* data be used before it is there: dependencies across ranks are ignored).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    pr,
    phase,    \* rank -> 0 making the schedule, 1.. sweeping, sweeps + 1 done
    plan,     \* <<rank, group>> -> steps: [work, sendTo, recvFrom]
    pc,       \* <<rank, thread>> -> "pick", "recv", "wait", "coll"; "calc", "turn", "xrecv", "xwait", "bar", "end"
    g,        \* rank -> group whose schedule is made
    step,     \* <<rank, thread>> -> step
    now,      \* rank -> tasks placed in this step of the schedule, or solved in this sweep
    had,      \* rank -> tasks placed before
    got,      \* rank -> dependencies received
    todo,     \* <<rank, thread>> -> <<group, neighbour>> still to receive from, in order
    turn,     \* rank -> the thread that may exchange
    bar,      \* rank -> barriers entered
    chan,     \* <<from, to>> -> messages [tag, d, w (what it belongs to), rdv, t (sender's thread)]
    bad
vars == <<pr, phase, plan, pc, g, step, now, had, got, todo, turn, bar, chan, bad>>

R == 1..pr.nr
G == 1..pr.ng
T == R \X G
Tasks(r, h) == {t \in DOMAIN pr.own : pr.own[t] = r /\ pr.grp[t] = h}
Deps(t) == {d \in pr.dep : d[2] = t}
Rdv == pr.mode = "rdv"
Without(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Asc(s) == LET f[x \in SUBSET s] == IF x = {} THEN << >> ELSE
                 LET m == CHOOSE y \in x : \A z \in x : y <= z IN <<m>> \o f[x \ {m}] IN f[s]

ProblemInit(p) ==
    LET r1 == 1..p.nr t1 == r1 \X (1..p.ng) IN
    /\ pr = p /\ phase = [r \in r1 |-> 0] /\ plan = [t \in t1 |-> << >>]
    /\ pc = [t \in t1 |-> IF t[2] = 1 THEN "pick" ELSE "idle"]
    /\ g = [r \in r1 |-> 1] /\ step = [t \in t1 |-> 1]
    /\ now = [r \in r1 |-> {}] /\ had = [r \in r1 |-> {}] /\ got = [r \in r1 |-> {}]
    /\ todo = [t \in t1 |-> << >>] /\ turn = [r \in r1 |-> 1] /\ bar = [r \in r1 |-> 0]
    /\ chan = [c \in r1 \X r1 |-> << >>] /\ bad = ""

Heads(r, a, tag) == {i \in 1..Len(chan[<<a, r>>]) : chan[<<a, r>>][i].tag = tag}
First(r, a, tag) == LET s == Heads(r, a, tag) IN CHOOSE i \in s : \A j \in s : i <= j
\* Sends that thread t of rank r has not completed.
Open(r, t) == \E a \in R : \E i \in 1..Len(chan[<<r, a>>]) : chan[<<r, a>>][i].rdv /\ chan[<<r, a>>][i].t = t

\* ---- making the schedule ------------------------------------------------------
Ready(r) == {t \in Tasks(r, g[r]) \ (now[r] \cup had[r]) :
    \A d \in Deps(t) : IF pr.own[d[1]] = r THEN d[1] \in now[r] \cup had[r]
                       ELSE pr.variant = "early" \/ d \in got[r]}
Full(r) == Cardinality(now[r]) = pr.work
Pick(r) ==
    /\ phase[r] = 0 /\ pc[<<r, 1>>] = "pick" /\ ~Full(r)
    /\ \E t \in Ready(r) : now' = [now EXCEPT ![r] = @ \cup {t}]
    /\ UNCHANGED <<pr, phase, plan, pc, g, step, had, got, todo, turn, bar, chan, bad>>
Out(r, a, s) == {d \in pr.dep : d[1] \in s /\ pr.own[d[1]] = r /\ pr.own[d[2]] = a}
What(r, h, s) == <<phase[r], h, s>>
\* Sizes go to all neighbours, data to those there is some for.
Send(r) ==
    /\ phase[r] = 0 /\ pc[<<r, 1>>] = "pick" /\ (Full(r) \/ Ready(r) = {})
    /\ chan' = [c \in DOMAIN chan |->
        IF c[1] = r /\ c[2] \in pr.near[r] THEN
            LET d == Out(r, c[2], now[r])
                m(x) == [tag |-> 0, d |-> x, n |-> Cardinality(d), w |-> What(r, g[r], Len(plan[<<r, g[r]>>]) + 1), rdv |-> Rdv, t |-> 1]
            IN chan[c] \o <<m({})>> \o (IF d = {} THEN << >> ELSE <<m(d)>>)
        ELSE chan[c]]
    /\ pc' = [pc EXCEPT ![<<r, 1>>] = "recv"]
    /\ todo' = [todo EXCEPT ![<<r, 1>>] = Asc(pr.near[r])]
    /\ plan' = [plan EXCEPT ![<<r, g[r]>>] = Append(@, [work |-> now[r], sendTo |-> {a \in pr.near[r] : Out(r, a, now[r]) # {}}, recvFrom |-> {}])]
    /\ had' = [had EXCEPT ![r] = @ \cup now[r]]
    /\ now' = [now EXCEPT ![r] = {}]
    /\ UNCHANGED <<pr, phase, g, step, got, turn, bar, bad>>
MayReceive(r) == pr.variant # "blocking" \/ ~Open(r, 1)
\* Size and, if it is not 0, data of the next neighbour.
Recv(r) ==
    LET t == <<r, 1>> IN
    /\ phase[r] = 0 /\ pc[t] = "recv" /\ todo[t] # << >> /\ MayReceive(r)
    /\ LET a == todo[t][1] q == chan[<<a, r>>] IN
        /\ q # << >>
        /\ LET m == q[1] last == m.d # {} \/ m.n = 0 IN
            /\ chan' = [chan EXCEPT ![<<a, r>>] = Tail(@)]
            /\ got' = [got EXCEPT ![r] = @ \cup m.d]
            /\ todo' = IF last THEN [todo EXCEPT ![t] = Tail(@)] ELSE todo
            /\ plan' = IF m.d = {} THEN plan ELSE
                [plan EXCEPT ![<<r, g[r]>>][Len(plan[<<r, g[r]>>])].recvFrom = @ \cup {a}]
            /\ bad' = IF m.w # <<0, g[r], Len(plan[<<r, g[r]>>])>> THEN "a message of another step of the schedule" ELSE bad
    /\ UNCHANGED <<pr, phase, pc, g, step, now, had, turn, bar>>
Wait(r) ==
    LET t == <<r, 1>> IN
    /\ phase[r] = 0 /\ pc[t] = "recv" /\ todo[t] = << >> /\ ~Open(r, 1)
    /\ pc' = [pc EXCEPT ![t] = "coll"]
    /\ UNCHANGED <<pr, phase, plan, g, step, now, had, got, todo, turn, bar, chan, bad>>
\* All ranks look if there is anything left to do.
Start == IF pr.proto = 1 THEN [t \in T |-> IF t[2] = 1 THEN "calc" ELSE "idle"] ELSE [t \in T |-> "calc"]
Collect ==
    /\ \A r \in R : phase[r] = 0 /\ pc[<<r, 1>>] = "coll"
    /\ LET over == \A r \in R : Ready(r) = {} last == over /\ g[1] = pr.ng IN
        /\ g' = IF over /\ ~last THEN [r \in R |-> g[r] + 1] ELSE g
        /\ pc' = IF last THEN Start ELSE [t \in T |-> IF t[2] = 1 THEN "pick" ELSE "idle"]
        /\ phase' = IF last THEN [r \in R |-> 1] ELSE phase
        /\ had' = IF last THEN [r \in R |-> {}] ELSE had
        /\ got' = IF last THEN [r \in R |-> {}] ELSE got
        /\ bad' = IF over /\ \E r \in R : Tasks(r, g[r]) \ had[r] # {} THEN "the schedule lacks a task"
                  ELSE IF over /\ \E r, s \in R : Len(plan[<<r, g[r]>>]) # Len(plan[<<s, g[r]>>]) THEN "ranks have different numbers of steps"
                  ELSE bad
    /\ UNCHANGED <<pr, plan, step, now, todo, turn, bar, chan>>

\* ---- sweeping --------------------------------------------------------------------
Steps(r, h) == Len(plan[<<r, h>>])
Most(r) == IF pr.variant = "short" THEN Steps(r, 1)
           ELSE LET n == {Steps(r, h) : h \in G} IN CHOOSE x \in n : \A y \in n : y <= x
\* The groups a thread works for
Mine(t) == IF pr.proto = 1 THEN G ELSE {t[2]}
At(t, h) == step[t] <= Steps(t[1], h)
Work(t) == UNION {IF At(t, h) THEN plan[<<t[1], h>>][step[t]].work ELSE {} : h \in Mine(t)}
Calc(t) ==
    LET r == t[1] IN
    /\ phase[r] \in 1..pr.sweeps /\ pc[t] = "calc" /\ step[t] <= Most(r)
    /\ now' = [now EXCEPT ![r] = @ \cup Work(t)]
    /\ bad' = IF \E x \in Work(t) : \E d \in Deps(x) :
                    IF pr.own[d[1]] = r THEN d[1] \notin now[r] \cup Work(t) ELSE d \notin got[r]
              THEN "a task is solved before one it depends on"
              ELSE IF Work(t) \cap now[r] # {} THEN "a task is solved twice" ELSE bad
    /\ pc' = [pc EXCEPT ![t] = "turn"]
    /\ UNCHANGED <<pr, phase, plan, g, step, had, got, todo, turn, bar, chan>>
Tag(h) == h
XSend(t) ==
    LET r == t[1] IN
    /\ phase[r] \in 1..pr.sweeps /\ pc[t] = "turn"
    /\ pr.proto = 1 \/ turn[r] = t[2] \/ pr.variant = "noturn"
    /\ chan' = [c \in DOMAIN chan |->
        LET F(h) == IF c[1] = r /\ At(t, h) /\ c[2] \in plan[<<r, h>>][step[t]].sendTo
                    THEN <<[tag |-> Tag(h), d |-> Out(r, c[2], plan[<<r, h>>][step[t]].work), n |-> 0,
                            w |-> What(r, h, step[t]), rdv |-> Rdv, t |-> t[2]]>> ELSE << >>
            U[h \in 0..pr.ng] == IF h = 0 THEN << >> ELSE U[h-1] \o (IF h \in Mine(t) THEN F(h) ELSE << >>)
        IN chan[c] \o U[pr.ng]]
    /\ LET U[h \in 0..pr.ng] == IF h = 0 THEN << >> ELSE U[h-1] \o
             (IF h \in Mine(t) /\ At(t, h) THEN [i \in 1..Cardinality(plan[<<r, h>>][step[t]].recvFrom) |-> <<h, Asc(plan[<<r, h>>][step[t]].recvFrom)[i]>>] ELSE << >>)
       IN todo' = [todo EXCEPT ![t] = U[pr.ng]]
    /\ pc' = [pc EXCEPT ![t] = "xrecv"]
    /\ UNCHANGED <<pr, phase, plan, g, step, now, had, got, turn, bar, bad>>
XRecv(t) ==
    LET r == t[1] IN
    /\ pc[t] = "xrecv" /\ todo[t] # << >>
    /\ LET h == todo[t][1][1] a == todo[t][1][2] IN
        /\ Heads(r, a, Tag(h)) # {}
        /\ LET i == First(r, a, Tag(h)) m == chan[<<a, r>>][i] IN
            /\ chan' = [chan EXCEPT ![<<a, r>>] = Without(@, i)]
            /\ got' = [got EXCEPT ![r] = @ \cup m.d]
            /\ bad' = IF m.w # What(r, h, step[t]) THEN "a message of another step or sweep" ELSE bad
    /\ todo' = [todo EXCEPT ![t] = Tail(@)]
    /\ UNCHANGED <<pr, phase, plan, pc, g, step, now, had, turn, bar>>
XWait(t) ==
    LET r == t[1] IN
    /\ pc[t] = "xrecv" /\ todo[t] = << >> /\ ~Open(r, t[2])
    /\ IF pr.proto = 1
       THEN /\ step' = [step EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "calc"] /\ UNCHANGED bar
       ELSE /\ bar' = [bar EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "bar"] /\ UNCHANGED step
    /\ UNCHANGED <<pr, phase, plan, g, now, had, got, todo, turn, chan, bad>>
\* The barrier of the ranks; entered again by the next thread only.
XBar(t) ==
    LET r == t[1] IN
    /\ pc[t] = "bar" /\ \A q \in R : bar[q] >= bar[r]
    /\ step' = [step EXCEPT ![t] = @ + 1]
    /\ turn' = [turn EXCEPT ![r] = (t[2] % pr.ng) + 1]
    /\ pc' = [pc EXCEPT ![t] = "calc"]
    /\ bad' = IF \E q \in G : q # t[2] /\ pc[<<r, q>>] = "bar" THEN "two threads are in the barrier" ELSE bad
    /\ UNCHANGED <<pr, phase, plan, g, now, had, got, todo, bar, chan>>
EndOf(t) ==
    /\ phase[t[1]] \in 1..pr.sweeps /\ pc[t] = "calc" /\ step[t] > Most(t[1])
    /\ pc' = [pc EXCEPT ![t] = "end"]
    /\ UNCHANGED <<pr, phase, plan, g, step, now, had, got, todo, turn, bar, chan, bad>>
\* Reductions follow a sweep.
Over ==
    /\ \A t \in T : pc[t] \in {"end", "idle"} /\ phase[t[1]] \in 1..pr.sweeps
    /\ phase' = [r \in R |-> phase[r] + 1]
    /\ pc' = IF phase[1] = pr.sweeps THEN [t \in T |-> "done"] ELSE Start
    /\ step' = [t \in T |-> 1] /\ now' = [r \in R |-> {}] /\ got' = [r \in R |-> {}]
    /\ bad' = IF \E r \in R : now[r] # {t \in DOMAIN pr.own : pr.own[t] = r} THEN "a task is not solved"
              ELSE IF \E c \in DOMAIN chan : chan[c] # << >> THEN "a message is left over" ELSE bad
    /\ UNCHANGED <<pr, plan, g, had, todo, turn, bar, chan>>

Done == (\A t \in T : pc[t] = "done") /\ UNCHANGED vars
Next == \/ bad = "" /\ (\/ \E r \in R : Pick(r) \/ Send(r) \/ Recv(r) \/ Wait(r)
                        \/ Collect \/ Over
                        \/ \E t \in T : Calc(t) \/ XSend(t) \/ XRecv(t) \/ XWait(t) \/ XBar(t) \/ EndOf(t))
        \/ Done

\* ---- properties ---------------------------------------------------------------------
Good == bad = ""
\* What a rank is to receive in a step of the schedule is what its neighbour is to send.
Agreed == \A r, a \in R : \A h \in G :
    (phase[1] > 0) => \A s \in 1..Steps(r, h) : (a \in plan[<<r, h>>][s].sendTo) = (r \in plan[<<a, h>>][s].recvFrom)
=============================================================================
