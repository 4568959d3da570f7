------------------------------ MODULE HbModel ------------------------------
(* The hand-over protocols of the code base on the happens-before relation of Hb, in all interleavings:               *)
(*   slot   - a queue cell or a buffer: filled, announced, used, given back, filled again                             *)
(*   count  - a shared chunk: its users leave in any order, the last one frees it, another one reuses it              *)
(*   last   - the chunk that is used again by its sender once the counter says that nobody else has it                *)
(*   fence  - an index handed over by a relaxed store between a release and an acquire fence                          *)
(*   lock   - a lock that protects a place                                                                            *)
(* With the memory orders of the code there is no race (NoRace); with each of them weakened there is one, so that     *)
(* each order is needed (and the specification notices its absence).                                                  *)
EXTENDS Hb, TLC
CONSTANTS Proto, REL, ACQ, CNT_A, CNT_R, FENCE    \* orders: TRUE as in the code
\* an instruction: op, place or atomic, value (to store or to wait for), acquire, release
I(op, l, v, a, r) == [op |-> op, l |-> l, v |-> v, a |-> a, r |-> r]
St(l, v, r) == I("st", l, v, FALSE, r)
Await(l, v, a) == I("await", l, v, a, FALSE)
W(x) == I("W", x, 0, FALSE, FALSE)
R(x) == I("R", x, 0, FALSE, FALSE)
Prog ==
  CASE Proto = "slot" ->
         << << >>,
            <<W(1), St(1, 1, REL), Await(2, 1, ACQ), W(1), St(1, 2, REL)>>,
            <<Await(1, 1, ACQ), R(1), St(2, 1, REL), Await(1, 2, ACQ), R(1)>> >>
    [] Proto = "count" ->
         << << >>,
            <<R(1), I("dec", 1, 0, CNT_A, CNT_R)>>,
            <<R(1), I("dec", 1, 0, CNT_A, CNT_R)>>,
            <<R(1), I("dec", 1, 0, CNT_A, CNT_R)>>,
            <<Await(2, 1, ACQ), W(1)>> >>
    [] Proto = "last" ->
         << << >>,
            <<R(1), I("dec", 1, 0, CNT_A, CNT_R)>>,
            <<R(1), I("dec", 1, 0, CNT_A, CNT_R)>>,
            <<Await(1, 1, ACQ), W(1)>> >>
    [] Proto = "fence" ->
         << << >>,
            <<W(1), I("fence", 0, 0, FALSE, FENCE), St(1, 1, FALSE)>>,
            <<Await(1, 1, FALSE), I("fence", 0, 0, FENCE, FALSE), R(1), W(1)>> >>
    [] Proto = "lock" ->
         << << >>,
            <<I("lock", 1, 0, ACQ, FALSE), R(1), W(1), St(1, 0, REL)>>,
            <<I("lock", 1, 0, ACQ, FALSE), R(1), W(1), St(1, 0, REL)>>,
            <<I("lock", 1, 0, ACQ, FALSE), R(1), W(1), St(1, 0, REL)>> >>
Users == IF Proto \in {"count", "last"} THEN 3 ELSE 0
VARIABLES pc, val, S
vars == <<pc, val, S>>
N == Len(Prog)
Init == /\ pc = [t \in 1..N |-> 1]
        /\ val = [l \in 1..2 |-> IF l = 1 THEN Users ELSE 0]
        /\ S = {Start(HB_Init(N, 2, 1), 1)}
Do(t) ==
  /\ pc[t] <= Len(Prog[t])
  /\ S # {}
  /\ LET i == Prog[t][pc[t]]
         s == CHOOSE x \in S : TRUE
     IN \/ i.op = "W" /\ S' = Write(s, t, {i.l}) /\ UNCHANGED val
        \/ i.op = "R" /\ S' = Read(s, t, {i.l}) /\ UNCHANGED val
        \/ i.op = "st" /\ S' = {Store(s, t, i.l, i.r)} /\ val' = [val EXCEPT ![i.l] = i.v]
        \/ i.op = "await" /\ val[i.l] = i.v /\ S' = {Load(s, t, i.l, i.a)} /\ UNCHANGED val
        \/ i.op = "fence" /\ S' = {Fence(s, t, i.a, i.r)} /\ UNCHANGED val
        \/ i.op = "lock" /\ val[i.l] = 0 /\ S' = {Rmw(s, t, i.l, i.a, FALSE)} /\ val' = [val EXCEPT ![i.l] = 1]
        \/ /\ i.op = "dec"
           /\ LET d == Rmw(s, t, i.l, i.a, i.r)
              IN IF val[i.l] = 1 THEN S' = {Store(d, t, 2, TRUE)} /\ val' = [val EXCEPT ![i.l] = 0, ![2] = 1]
                                 ELSE S' = {d} /\ val' = [val EXCEPT ![i.l] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
Next == \E t \in 1..N : Do(t)
Spec == Init /\ [][Next]_vars
NoRace == S # {}
=============================================================================
