--------------------------- MODULE WaitSetModel ---------------------------
EXTENDS LinModel, WaitSet
WM_W == {C("wait", <<>>), C("timedWait", <<1>>)}
WM_A == {C("attachE", <<0, 1>>), C("attachS", <<2, 2>>), C("attachE", <<2, 3>>)}
WM_Menu == [t \in 1..3 |-> IF t = 1 THEN <<WM_A, WM_A, WM_W \cup {C("take", <<2>>)}, WM_W>> ELSE IF t = 2 THEN <<{C("fire", <<0>>)}>> ELSE <<{C("fire", <<2>>)}>>]
WM_Menu2 == [t \in 1..3 |-> IF t = 1 THEN <<WM_A, WM_A, WM_W \cup {C("take", <<2>>), C("detachE", <<2>>)}, WM_W, WM_W>> ELSE IF t = 2 THEN <<{C("fire", <<0>>)}>> ELSE <<{C("fire", <<2>>)}, {C("fire", <<2>>)}>>]
WM_Cfg == [cap |-> 2, qcap |-> 2, org |-> <<0, 2>>]
Fires == {t \in DOMAIN pend : pend[t].op = "fire"}
\* a sleeping waiter overlooks nothing: no attached event is pending and no attached state lasts
NoOversleeping == \A t \in DOMAIN pend : (pend[t].pc = "sleep" /\ obj.sem = 0 /\ Fires = {} /\ ~obj.dead)
                    => obj.act = {} /\ \A k \in DOMAIN obj.att : ~obj.att[k].ev => obj.q[k] = 0
\* only attachments that exist are ever looked at
OnlyAttached == obj.act \subseteq DOMAIN obj.att /\ obj.lit \subseteq DOMAIN obj.att /\ Cardinality(DOMAIN obj.att) <= obj.cap
Reports == {k \in DOMAIN hist : hist[k][2] \in {"wait", "timedWait"}}
Occurrences(k) == Cardinality({j \in DOMAIN hist : hist[j][2] = "fire" /\ hist[j][3] = <<k>>}) + Cardinality({t \in Fires : pend[t].a = <<k>>})
\* an event-based attachment is reported at most once per occurrence
NotMoreThanOccurred == Cardinality({k \in Reports : \E m \in 2..Len(hist[k][4]) : hist[k][4][m] = 1}) <= Occurrences(0)
\* a report without deadline is never empty unless what was notified is gone
===========================================================================
