--------------------------- MODULE ListenerModel ---------------------------
EXTENDS LinModel, Listener
LM_A(i) == {C("attach", <<0, i>>), C("attach", <<1, i>>), C("detach", <<0>>), C("detach", <<1>>)}
LM_Cb == {C("cb", <<k, i>>) : k \in 0..1, i \in 1..3}
LM_F == {C("fire", <<0>>), C("fire", <<1>>)}
LM_Menu == (1 :> <<LM_A(1), LM_A(2), LM_A(3)>>) @@ (2 :> <<LM_F, LM_F>>) @@ (90 :> <<LM_Cb, LM_Cb, LM_Cb>>)
LM_Menu2 == (1 :> <<LM_A(1), LM_A(2), LM_A(3), LM_A(4)>>) @@ (2 :> <<LM_F, LM_F, LM_F>>) @@ (90 :> <<LM_Cb, LM_Cb, LM_Cb>>)
LM_Cfg == [cap |-> 1]
\* a running callback belongs to an attachment that exists, unless it is being detached inside it
RunningIsAttached == obj.busy # -1 => obj.busy \in DOMAIN obj.att
WithinCapacity == Cardinality(DOMAIN obj.att) <= obj.cap
PendingIsAttached == obj.act \cup obj.col \subseteq DOMAIN obj.att
===========================================================================
