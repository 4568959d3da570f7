----------------------------- MODULE LoffliAlgo -----------------------------
(* The lock-free free list, one action per shared access: head = index of the first free cell plus a counter that      *)
(* changes with every update, next[] = the list.  Monitor: the set of abstract states of Queue (type loffli).          *)
(* ABA = FALSE leaves the counter out; TLC then finds the classical ABA history (used as a test of this model).        *)
EXTENDS Queue, TLC
CONSTANTS N, NT, K, ABA, CRASH
T == 1..NT
INVALID == N + 1
VARIABLES head, next, th, held, cnt, dead, S
vars == <<head, next, th, held, cnt, dead, S>>
NoTh == [pc |-> "idle", o |-> "-", x |-> 0, old |-> [ix |-> 0, c |-> 0], nx |-> 0, res |-> <<>>]
Init == /\ head = [ix |-> 0, c |-> 0]
        /\ next = [j \in 0..N |-> j + 1]
        /\ th = [t \in T |-> NoTh] /\ held = [t \in T |-> {}] /\ cnt = [t \in T |-> 0] /\ dead = {}
        /\ S = Q_Init([type |-> "loffli", cap |-> N, max |-> N])
Go(t, r) == th' = [th EXCEPT ![t] = r]
Bump(h) == IF ABA THEN h.c + 1 ELSE 0
Get(t) == /\ th[t].pc = "idle" /\ cnt[t] < K
          /\ Go(t, [NoTh EXCEPT !.pc = "g1", !.o = "get"]) /\ S' = Q_Call(S, t, "get", 0)
          /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ UNCHANGED <<head, next, held, dead>>
Put(t) == /\ th[t].pc = "idle" /\ cnt[t] < K
          /\ \E x \in held[t] : /\ Go(t, [NoTh EXCEPT !.pc = "p0", !.o = "put", !.x = x])
                                /\ S' = Q_Call(S, t, "put", x)
                                /\ held' = [held EXCEPT ![t] = @ \ {x}]
          /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ UNCHANGED <<head, next, dead>>
G1(t) == /\ th[t].pc = "g1" /\ Go(t, [th[t] EXCEPT !.old = head, !.pc = "g2"]) /\ UNCHANGED <<head, next, held, cnt, dead, S>>
G2(t) == /\ th[t].pc = "g2"
         /\ IF th[t].old.ix >= N THEN Go(t, [th[t] EXCEPT !.pc = "ret", !.res = <<>>])
            ELSE Go(t, [th[t] EXCEPT !.nx = next[th[t].old.ix], !.pc = "g3"])
         /\ UNCHANGED <<head, next, held, cnt, dead, S>>
G3(t) == /\ th[t].pc = "g3"
         /\ IF head = th[t].old
            THEN /\ head' = [ix |-> th[t].nx, c |-> Bump(head)] /\ Go(t, [th[t] EXCEPT !.pc = "g4"])
            ELSE /\ Go(t, [th[t] EXCEPT !.old = head, !.pc = "g2"]) /\ UNCHANGED head
         /\ UNCHANGED <<next, held, cnt, dead, S>>
G4(t) == /\ th[t].pc = "g4"
         /\ next' = [next EXCEPT ![th[t].old.ix] = INVALID]
         /\ Go(t, [th[t] EXCEPT !.pc = "ret", !.res = <<th[t].old.ix>>])
         /\ UNCHANGED <<head, held, cnt, dead, S>>
P0(t) == /\ th[t].pc = "p0"
         /\ IF next[th[t].x] # INVALID THEN Go(t, [th[t] EXCEPT !.pc = "ret", !.res = <<0>>])
            ELSE Go(t, [th[t] EXCEPT !.pc = "p1"])
         /\ UNCHANGED <<head, next, held, cnt, dead, S>>
P1(t) == /\ th[t].pc = "p1" /\ Go(t, [th[t] EXCEPT !.old = head, !.pc = "p2"]) /\ UNCHANGED <<head, next, held, cnt, dead, S>>
P2(t) == /\ th[t].pc = "p2" /\ next' = [next EXCEPT ![th[t].x] = th[t].old.ix] /\ Go(t, [th[t] EXCEPT !.pc = "p3"])
         /\ UNCHANGED <<head, held, cnt, dead, S>>
P3(t) == /\ th[t].pc = "p3"
         /\ IF head = th[t].old
            THEN /\ head' = [ix |-> th[t].x, c |-> Bump(head)] /\ Go(t, [th[t] EXCEPT !.pc = "ret", !.res = <<1>>])
            ELSE /\ Go(t, [th[t] EXCEPT !.old = head, !.pc = "p2"]) /\ UNCHANGED head
         /\ UNCHANGED <<next, held, cnt, dead, S>>
Ret(t) == /\ th[t].pc = "ret" /\ S' = Q_Ret(S, t, th[t].res)
          /\ held' = IF th[t].o = "get" /\ th[t].res # <<>> THEN [held EXCEPT ![t] = @ \cup {th[t].res[1]}] ELSE held
          /\ Go(t, NoTh) /\ UNCHANGED <<head, next, cnt, dead>>
Stop(t) == /\ CRASH /\ dead = {} /\ th[t].pc \notin {"idle", "dead"}
           /\ dead' = {t} /\ Go(t, [th[t] EXCEPT !.pc = "dead"]) /\ UNCHANGED <<head, next, held, cnt, S>>
Next == \E t \in T : Get(t) \/ Put(t) \/ G1(t) \/ G2(t) \/ G3(t) \/ G4(t) \/ P0(t) \/ P1(t) \/ P2(t) \/ P3(t) \/ Ret(t) \/ Stop(t)
Spec == Init /\ [][Next]_vars
Linearizable == S # {}
Exclusive == \A t, u \in T : t # u => held[t] \cap held[u] = {}
=============================================================================
