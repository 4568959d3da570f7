----------------------------- MODULE SeqsModel -----------------------------
EXTENDS LinModel, Seqs
AnyOp == {C("pushBack", <<0>>), C("pushBack", <<1>>), C("popBack", <<>>), C("emplace", <<0, 2>>), C("erase", <<1>>), C("copyAssign", <<>>),
        C("moveAssign", <<>>), C("ctorMove", <<>>), C("swap", <<>>), C("resize", <<3, 7>>)}
SM_Menu == [t \in {1} |-> <<AnyOp, AnyOp, AnyOp, AnyOp>>]
SM_Menu2 == [t \in {1} |-> <<AnyOp, AnyOp, AnyOp, AnyOp, AnyOp, AnyOp>>]
SM_Cfg == [kind |-> "vector", cap |-> 2]
WithinCapacity == Len(obj.a) <= obj.cap /\ Len(obj.b) <= obj.cap
Answered == M_Idle => pend = <<>>     \* every operation has an answer in every state
============================================================================
