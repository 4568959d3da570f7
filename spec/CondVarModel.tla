--------------------------- MODULE CondVarModel ---------------------------
EXTENDS LinModel, CondVar
N1 == {C("notify", <<0>>), C("notify", <<1>>)}
W == {C("wait", <<>>), C("timedWait", <<1>>), C("wasNotified", <<>>)}
CM_Menu == [t \in 1..3 |-> IF t = 1 THEN <<W, W, W>> ELSE IF t = 2 THEN <<N1, N1>> ELSE <<N1 \cup {C("destroy", <<>>)}>>]
CM_Menu2 == [t \in 1..3 |-> IF t = 1 THEN <<W, W, W>> ELSE <<N1, N1>>]
CM_Cfg == [n |-> 2]
Count(S) == Cardinality({k \in DOMAIN hist : hist[k] \in S})
Reported(j) == {k \in DOMAIN hist : hist[k][2] \in {"wait", "timedWait"} /\ \E m \in 2..Len(hist[k][4]) : hist[k][4][m] = j}
Notified(j) == {k \in DOMAIN hist : hist[k][2] = "notify" /\ hist[k][3] = <<j>>}
InFlight(j) == {t \in DOMAIN pend : pend[t].op = "notify" /\ pend[t].a = <<j>>}
\* nobody sleeps over a notification that was issued completely
NoLostWakeup == \A t \in DOMAIN pend : pend[t].pc = "sleep" /\ obj.sem = 0 /\ obj.half = 0 => obj.act = {} /\ (obj.dead => \E u \in DOMAIN pend : pend[u].op = "destroy")
\* nothing is invented
NothingInvented == \A j \in 0..1 : Cardinality(Reported(j)) <= Cardinality(Notified(j)) + Cardinality(InFlight(j)) + obj.half
\* what was notified is pending, collected or was reported
NothingLost == \A j \in 0..1 : Notified(j) # {} /\ Reported(j) = {} => j \in obj.act \cup obj.got
\* a wait without deadline never returns empty-handed unless told to end
WaitReports == \A k \in DOMAIN hist : hist[k][2] = "wait" => Len(hist[k][4]) > 1 \/ obj.dead
===========================================================================
