------------------------------ MODULE SofiAlgo ------------------------------
(* The overflowing single-producer single-consumer queue, one action per shared access.  Thread 1 produces, thread 2    *)
(* consumes.  Monitor: the abstract states of Queue (type sofi).                                                        *)
EXTENDS Queue, TLC
CONSTANTS N, KP, KC
M == N + 1
VARIABLES rp, wp, data, th, cnt, S
vars == <<rp, wp, data, th, cnt, S>>
NoTh == [pc |-> "idle", r |-> 0, w |-> 0, v |-> 0, res |-> <<>>]
T == 1..2
Init == /\ rp = 0 /\ wp = 0 /\ data = [j \in 0..(M-1) |-> 0] /\ th = [t \in T |-> NoTh] /\ cnt = [t \in T |-> 0]
        /\ S = Q_Init([type |-> "sofi", cap |-> N, max |-> N])
Go(t, r) == th' = [th EXCEPT ![t] = r]
Push == /\ th[1].pc = "idle" /\ cnt[1] < KP /\ Go(1, [NoTh EXCEPT !.pc = "p1", !.v = cnt[1] + 1])
        /\ S' = Q_Call(S, 1, "push", cnt[1] + 1) /\ cnt' = [cnt EXCEPT ![1] = @ + 1] /\ UNCHANGED <<rp, wp, data>>
P1 == /\ th[1].pc = "p1" /\ data' = [data EXCEPT ![wp % M] = th[1].v] /\ Go(1, [th[1] EXCEPT !.pc = "p2"]) /\ UNCHANGED <<rp, wp, cnt, S>>
P2 == /\ th[1].pc = "p2" /\ wp' = wp + 1 /\ Go(1, [th[1] EXCEPT !.pc = "p3"]) /\ UNCHANGED <<rp, data, cnt, S>>
P3 == /\ th[1].pc = "p3" /\ Go(1, [th[1] EXCEPT !.r = rp, !.pc = IF wp < rp + M THEN "ret" ELSE "p4"]) /\ UNCHANGED <<rp, wp, data, cnt, S>>
P4 == /\ th[1].pc = "p4"
      /\ IF rp = th[1].r THEN rp' = rp + 1 /\ Go(1, [th[1] EXCEPT !.pc = "p5"])
         ELSE Go(1, [th[1] EXCEPT !.pc = "ret"]) /\ UNCHANGED rp
      /\ UNCHANGED <<wp, data, cnt, S>>
P5 == /\ th[1].pc = "p5" /\ Go(1, [th[1] EXCEPT !.res = <<data[th[1].r % M]>>, !.pc = "ret"]) /\ UNCHANGED <<rp, wp, data, cnt, S>>
Pop == /\ th[2].pc = "idle" /\ cnt[2] < KC /\ Go(2, [NoTh EXCEPT !.pc = "c1"])
       /\ S' = Q_Call(S, 2, "pop", 0) /\ cnt' = [cnt EXCEPT ![2] = @ + 1] /\ UNCHANGED <<rp, wp, data>>
C1 == /\ th[2].pc = "c1" /\ Go(2, [th[2] EXCEPT !.r = rp, !.pc = "c2"]) /\ UNCHANGED <<rp, wp, data, cnt, S>>
C2 == /\ th[2].pc = "c2" /\ Go(2, [th[2] EXCEPT !.w = wp, !.pc = IF wp = th[2].r THEN "c4" ELSE "c3"]) /\ UNCHANGED <<rp, wp, data, cnt, S>>
C3 == /\ th[2].pc = "c3" /\ Go(2, [th[2] EXCEPT !.v = data[th[2].r % M], !.pc = "c4"]) /\ UNCHANGED <<rp, wp, data, cnt, S>>
C4 == /\ th[2].pc = "c4"
      /\ IF rp = th[2].r
         THEN /\ rp' = IF th[2].w = th[2].r THEN rp ELSE rp + 1
              /\ Go(2, [th[2] EXCEPT !.res = IF th[2].w = th[2].r THEN <<>> ELSE <<th[2].v>>, !.pc = "ret"])
         ELSE /\ Go(2, [th[2] EXCEPT !.r = rp, !.pc = "c2"]) /\ UNCHANGED rp
      /\ UNCHANGED <<wp, data, cnt, S>>
Ret(t) == /\ th[t].pc = "ret" /\ S' = Q_Ret(S, t, th[t].res) /\ Go(t, NoTh) /\ UNCHANGED <<rp, wp, data, cnt>>
Next == Push \/ P1 \/ P2 \/ P3 \/ P4 \/ P5 \/ Pop \/ C1 \/ C2 \/ C3 \/ C4 \/ Ret(1) \/ Ret(2)
Spec == Init /\ [][Next]_vars
Linearizable == S # {}
SpecBounded == \A c \in S : Bounded(c)
=============================================================================
