----------------------------- MODULE ValsModel -----------------------------
(* All sequences of operations on three guards (or owners): every action runs once or is still pending.               *)
EXTENDS LinModel, Vals
Pairs == {<<0, 1>>, <<1, 0>>, <<1, 2>>, <<0, 0>>}
AnyV(n) == {C("ctor", <<0, 10 + n>>), C("ctorInit", <<1, 10 + n>>), C("release", <<0, 0>>), C("release", <<1, 1>>)}
          \cup {C(m, p) : m \in {"moveAssign", "moveCtor"}, p \in Pairs}
VM_Menu(k) == [t \in {1} |-> [n \in 1..k |-> AnyV(n)]]
VM_Menu4 == VM_Menu(4)
VM_Menu6 == VM_Menu(6)
VM_Cfg == [kind |-> "guard"]
\* the actions of an answer follow the result, the three (invisible) contents and the two counters
Log(h) == SubSeq(h[4], (IF Len(h[3]) = 2 /\ h[2] \in {"moveCtor"} /\ h[3][1] = h[3][2] THEN 0 ELSE 1) + 6, Len(h[4]))
Ran(id) == LET n(h) == Cardinality({m \in DOMAIN Log(h) : Log(h)[m] = id})
               f[m \in 0..Len(hist)] == IF m = 0 THEN 0 ELSE f[m - 1] + n(hist[m])
           IN f[Len(hist)]
Made(id) == \E m \in DOMAIN hist : hist[m][2] \in {"ctor", "ctorInit"} /\ hist[m][3][2] = id
Released(id) == \E m \in DOMAIN hist : hist[m][2] = "release" /\ Log(hist[m]) = <<>>
Armed(id) == Cardinality({i \in 1..3 : obj.s[i] = <<id>>})
Once == \A id \in {10 + n : n \in 1..Len(Menu[1])} :
          Made(id) => Ran(id) + Armed(id) = 1 \/ (Ran(id) + Armed(id) = 0 /\ Released(id))
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
============================================================================
