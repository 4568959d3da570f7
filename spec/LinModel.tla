----------------------------- MODULE LinModel -----------------------------
(* All interleavings of the steps of small programs on an object (see Lin): every thread makes up to Len(Menu[t])     *)
(* calls, its j-th one out of the set Menu[t][j]; threads in Mortal may stop forever at any step.                     *)
EXTENDS Lin, TLC
CONSTANTS Menu, Mortal, Cfg
VARIABLES obj, pend, pos, gone, hist      \* hist: what was answered, as <<thread, op, a, r>>
mvars == <<obj, pend, pos, gone, hist>>
M_Init == /\ obj \in ObjInit(Cfg)
          /\ pend = <<>> /\ pos = [t \in DOMAIN Menu |-> 1] /\ gone = {} /\ hist = <<>>
M_Begin(t) == /\ t \notin gone /\ t \notin DOMAIN pend /\ pos[t] <= Len(Menu[t])
              /\ \E c \in Menu[t][pos[t]] : pend' = L_Put(pend, t, L_Call(c))
              /\ pos' = [pos EXCEPT ![t] = @ + 1]
              /\ UNCHANGED <<obj, gone, hist>>
M_Do(t) == /\ t \in DOMAIN pend
           /\ \E z \in Step(obj, t, pend[t]) :
                /\ obj' = z.o
                /\ IF z.q.pc = "done" THEN /\ pend' = L_Drop(pend, t)
                                           /\ hist' = Append(hist, <<t, z.q.op, z.q.a, z.q.r>>)
                   ELSE pend' = L_Put(pend, t, z.q) /\ UNCHANGED hist
           /\ UNCHANGED <<pos, gone>>
M_Die(t) == /\ t \in Mortal \ gone /\ t \in DOMAIN pend
            /\ pend' = L_Drop(pend, t) /\ gone' = gone \cup {t}
            /\ UNCHANGED <<obj, pos, hist>>
M_Next == \E t \in DOMAIN Menu : M_Begin(t) \/ M_Do(t) \/ M_Die(t)
M_Spec == M_Init /\ [][M_Next]_mvars
M_Idle == \A t \in DOMAIN Menu : t \notin gone => (IF t \in DOMAIN pend THEN Step(obj, t, pend[t]) = {} ELSE pos[t] > Len(Menu[t]))
C(op, a) == [o |-> op, a |-> a]
===========================================================================
