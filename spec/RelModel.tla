----------------------------- MODULE RelModel -----------------------------
(* All sequences of registrations, pointer operations and process changes in a small address space: a pointer made    *)
(* in one process means the same place of the same segment in every process that registered it.                       *)
EXTENDS LinModel, Rel
\* segment 1: 10..12 (process 1), 20..22 (process 2); segment 2: 13..14 (adjacent), 17..18
AnyR == {C("regId", <<1, 10, 3>>), C("regId", <<2, 13, 2>>), C("unreg", <<1>>), C("process", <<1>>), C("process", <<2>>)}
        \cup {C("set", <<i, a>>) : i \in {0}, a \in {0, 9, 10, 12, 13, 15}} \cup {C("copy", <<1, 0>>), C("move", <<1, 0>>)}
AnyQ == {C("regId", <<1, 20, 3>>), C("regId", <<2, 17, 2>>), C("process", <<1>>), C("process", <<2>>)}
RM_Menu(k) == [t \in {1} |-> [n \in 1..k |-> IF n % 3 = 0 THEN AnyQ ELSE AnyR]]
RM_Menu5 == RM_Menu(5)
RM_Menu7 == RM_Menu(7)
RM_Cfg == [kind |-> "rel", base |-> 0, len |-> 0]
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
Place(p, x) == IF x[1] \in DOMAIN obj.reg[p] THEN <<x[1], RP_Address(obj.reg[p], x) - obj.reg[p][x[1]].b>> ELSE <<>>
Same == \A i \in 1..3 : LET x == obj.ptr[i] IN
          /\ x[1] = -1 => x[2] = -1
          /\ x[1] > 0 => x[2] \in 0..2 /\ \A p, r \in 1..2 : Place(p, x) # <<>> /\ Place(r, x) # <<>> => Place(p, x) = Place(r, x)
          /\ x[1] = 0 => \A p \in 1..2 : RP_Address(obj.reg[p], x) = x[2]
============================================================================
