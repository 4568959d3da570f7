------------------------------ MODULE MpmcAlgo ------------------------------
(* The lock-free multi-producer multi-consumer queue, one action per atomic operation of its implementation (two      *)
(* queues of indices whose cells carry cycle counts, and the element buffer), with the object specification Queue as  *)
(* a monitor: S is the set of abstract states that explain the calls and returns so far.                              *)
(* Linearizable: S never becomes empty.  Buffer: no slot is written or read while somebody else works on it.          *)
EXTENDS Queue, TLC
CONSTANTS N,        \* capacity
          NT,       \* number of threads
          K,        \* calls per thread
          OPS,      \* operations used
          FILL      \* elements pushed beforehand
T == 1..NT
VARIABLES iq, buf, busy, th, cnt, S
vars == <<iq, buf, busy, th, cnt, S>>
NoTh == [pc |-> "idle", o |-> "-", v |-> 0, k |-> "-", ph |-> "-", w |-> 0, r |-> 0, c |-> [ix |-> 0, cy |-> 0], ix |-> 0, res |-> <<>>]
Cell(q, pos) == q.c[pos % N]
Cy(pos) == pos \div N
RECURSIVE Prefill(_, _)
Prefill(s, k) == IF k = 0 THEN s ELSE Prefill([s EXCEPT !.q = Append(@, 100 + Len(s.q)), !.n = @ - 1], k - 1)
Init ==
  /\ iq = [f |-> [r |-> FILL, w |-> N, c |-> [j \in 0..(N-1) |-> [ix |-> j, cy |-> 0]]],
           u |-> [r |-> N, w |-> N + FILL, c |-> [j \in 0..(N-1) |-> IF j < FILL THEN [ix |-> j, cy |-> 1] ELSE [ix |-> 0, cy |-> 0]]]]
  /\ buf = [j \in 0..(N-1) |-> IF j < FILL THEN 100 + j ELSE 0]
  /\ busy = [j \in 0..(N-1) |-> FALSE]
  /\ th = [t \in T |-> NoTh]
  /\ cnt = [t \in T |-> 0]
  /\ S = { Prefill(CHOOSE c \in Q_Init([type |-> "mpmc", cap |-> N, max |-> N]) : TRUE, FILL) }

Go(t, rec) == th' = [th EXCEPT ![t] = rec]
Call(t) == /\ th[t].pc = "idle" /\ cnt[t] < K
           /\ \E o \in OPS :
                LET v == 10 * t + cnt[t] IN
                /\ Go(t, [NoTh EXCEPT !.pc = "O1", !.o = o, !.v = v, !.k = IF o = "pop" THEN "u" ELSE "f",
                                      !.ph = IF o = "pop" THEN "take" ELSE "getfree"])
                /\ S' = Q_Call(S, t, o, v)
           /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<iq, buf, busy>>
Ret(t) == /\ th[t].pc = "ret"
          /\ S' = Q_Ret(S, t, th[t].res)
          /\ Go(t, NoTh)
          /\ UNCHANGED <<iq, buf, busy, cnt>>
\* what happens when an index operation ended
Got(t, x) ==    \* index x was obtained
  [th[t] EXCEPT !.ix = x, !.pc = IF th[t].ph = "getfree" THEN "write" ELSE "read"]
NotGot(t) ==
  CASE th[t].ph = "getfree" /\ th[t].o = "push" -> [th[t] EXCEPT !.ph = "evict", !.k = "u", !.pc = "F1"]
    [] th[t].ph = "getfree" /\ th[t].o = "tryPush" -> [th[t] EXCEPT !.res = <<0>>, !.pc = "ret"]
    [] th[t].ph = "evict" -> [th[t] EXCEPT !.ph = "getfree", !.k = "f", !.pc = "O1"]
    [] th[t].ph = "take" -> [th[t] EXCEPT !.res = <<>>, !.pc = "ret"]
PushDone(t) == [th[t] EXCEPT !.pc = "ret"]
\* ---- element access; a slot in use by two is an error of the algorithm
ReadB(t) == /\ th[t].pc = "read"
            /\ busy' = [busy EXCEPT ![th[t].ix] = TRUE]
            /\ Go(t, [th[t] EXCEPT !.pc = "read2"])
            /\ UNCHANGED <<iq, buf, cnt, S>>
Read2(t) == /\ th[t].pc = "read2"
            /\ busy' = [busy EXCEPT ![th[t].ix] = FALSE]
            /\ LET v == buf[th[t].ix] IN
               Go(t, IF th[t].ph = "take" THEN [th[t] EXCEPT !.res = <<v>>, !.ph = "give", !.k = "f", !.pc = "P1"]
                     ELSE [th[t] EXCEPT !.res = <<v>>, !.pc = "write"])
            /\ UNCHANGED <<iq, buf, cnt, S>>
Write(t) == /\ th[t].pc = "write"
            /\ busy' = [busy EXCEPT ![th[t].ix] = TRUE]
            /\ Go(t, [th[t] EXCEPT !.pc = "write2"])
            /\ UNCHANGED <<iq, buf, cnt, S>>
Write2(t) == /\ th[t].pc = "write2"
             /\ busy' = [busy EXCEPT ![th[t].ix] = FALSE]
             /\ buf' = [buf EXCEPT ![th[t].ix] = th[t].v]
             /\ Go(t, [th[t] EXCEPT !.ph = "put", !.k = "u", !.pc = "P1", !.res = IF th[t].o = "tryPush" THEN <<1>> ELSE @])
             /\ UNCHANGED <<iq, cnt, S>>
\* ---- index queue push
L(t) == th[t]
Q(t) == iq[th[t].k]
P1(t) == /\ L(t).pc = "P1" /\ Go(t, [L(t) EXCEPT !.w = Q(t).w, !.pc = "P2"]) /\ UNCHANGED <<iq, buf, busy, cnt, S>>
P2(t) == /\ L(t).pc = "P2"
         /\ LET c == Cell(Q(t), L(t).w) IN
            Go(t, [L(t) EXCEPT !.c = c, !.pc = IF c.cy + 1 = Cy(L(t).w) THEN "P3" ELSE IF c.cy = Cy(L(t).w) THEN "P4" ELSE "P1"])
         /\ UNCHANGED <<iq, buf, busy, cnt, S>>
P3(t) == /\ L(t).pc = "P3"
         /\ LET c == Cell(Q(t), L(t).w) IN
            IF c = L(t).c
            THEN /\ iq' = [iq EXCEPT ![L(t).k].c[L(t).w % N] = [ix |-> L(t).ix, cy |-> Cy(L(t).w)]]
                 /\ Go(t, [L(t) EXCEPT !.pc = "P5"])
            ELSE /\ Go(t, [L(t) EXCEPT !.c = c, !.pc = IF c.cy = Cy(L(t).w) THEN "P4" ELSE "P1"])
                 /\ UNCHANGED iq
         /\ UNCHANGED <<buf, busy, cnt, S>>
P4(t) == /\ L(t).pc = "P4"
         /\ IF Q(t).w = L(t).w
            THEN /\ iq' = [iq EXCEPT ![L(t).k].w = @ + 1] /\ Go(t, [L(t) EXCEPT !.pc = "P2"])
            ELSE /\ Go(t, [L(t) EXCEPT !.w = Q(t).w, !.pc = "P2"]) /\ UNCHANGED iq
         /\ UNCHANGED <<buf, busy, cnt, S>>
P5(t) == /\ L(t).pc = "P5"
         /\ iq' = IF Q(t).w = L(t).w THEN [iq EXCEPT ![L(t).k].w = @ + 1] ELSE iq
         /\ Go(t, PushDone(t))
         /\ UNCHANGED <<buf, busy, cnt, S>>
\* ---- index queue pop
O1(t) == /\ L(t).pc = "O1" /\ Go(t, [L(t) EXCEPT !.r = Q(t).r, !.pc = "O2"]) /\ UNCHANGED <<iq, buf, busy, cnt, S>>
O2(t) == /\ L(t).pc = "O2"
         /\ LET c == Cell(Q(t), L(t).r) IN
            Go(t, IF c.cy = Cy(L(t).r) THEN [L(t) EXCEPT !.c = c, !.pc = "O3"]
                  ELSE IF c.cy + 1 = Cy(L(t).r) THEN NotGot(t) ELSE [L(t) EXCEPT !.pc = "O1"])
         /\ UNCHANGED <<iq, buf, busy, cnt, S>>
O3(t) == /\ L(t).pc = "O3"
         /\ IF Q(t).r = L(t).r
            THEN /\ iq' = [iq EXCEPT ![L(t).k].r = @ + 1] /\ Go(t, Got(t, L(t).c.ix))
            ELSE /\ Go(t, [L(t) EXCEPT !.r = Q(t).r, !.pc = "O2"]) /\ UNCHANGED iq
         /\ UNCHANGED <<buf, busy, cnt, S>>
\* ---- index queue popIfFull
F1(t) == /\ L(t).pc = "F1" /\ Go(t, [L(t) EXCEPT !.w = Q(t).w, !.pc = "F2"]) /\ UNCHANGED <<iq, buf, busy, cnt, S>>
F2(t) == /\ L(t).pc = "F2" /\ Go(t, [L(t) EXCEPT !.r = Q(t).r, !.pc = "F3"]) /\ UNCHANGED <<iq, buf, busy, cnt, S>>
F3(t) == /\ L(t).pc = "F3"
         /\ LET c == Cell(Q(t), L(t).r) IN
            Go(t, IF L(t).w = L(t).r + N THEN [L(t) EXCEPT !.c = c, !.pc = "F4"] ELSE NotGot(t))
         /\ UNCHANGED <<iq, buf, busy, cnt, S>>
F4(t) == /\ L(t).pc = "F4"
         /\ IF Q(t).r = L(t).r
            THEN /\ iq' = [iq EXCEPT ![L(t).k].r = @ + 1] /\ Go(t, Got(t, L(t).c.ix))
            ELSE /\ Go(t, NotGot(t)) /\ UNCHANGED iq
         /\ UNCHANGED <<buf, busy, cnt, S>>
Next == \E t \in T : \/ Call(t) \/ Ret(t) \/ ReadB(t) \/ Read2(t) \/ Write(t) \/ Write2(t)
                     \/ P1(t) \/ P2(t) \/ P3(t) \/ P4(t) \/ P5(t) \/ O1(t) \/ O2(t) \/ O3(t)
                     \/ F1(t) \/ F2(t) \/ F3(t) \/ F4(t)
Spec == Init /\ [][Next]_vars
Linearizable == S # {}
NoOverlap == \A t \in T : th[t].pc \in {"read", "write"} => ~busy[th[t].ix]
SpecBounded == \A c \in S : Bounded(c)
View == <<iq, buf, busy, [t \in T |-> IF th[t].pc = "idle" THEN NoTh ELSE th[t]], cnt, S>>
=============================================================================
