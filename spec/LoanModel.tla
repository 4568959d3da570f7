----------------------------- MODULE LoanModel -----------------------------
(* Two threads loan, share and give back blocks of two pools; or one port loans, releases and sends.                   *)
EXTENDS LinModel, Loan
LM_Pools == <<[size |-> 64, n |-> 1], [size |-> 80, n |-> 2]>>
LM_Cfg == [kind |-> "pools", hs |-> 48, ha |-> 8, pools |-> LM_Pools, history |-> 0, max |-> 3]
LM_CfgP == [kind |-> "port", hs |-> 48, ha |-> 8, pools |-> LM_Pools, history |-> 1, max |-> 2]
Sizes == {<<0, 16>>, <<0, 17>>, <<0, 32>>, <<0, 33>>, <<1, 48>>, <<1, 49>>}
Loan(s) == {C("loan", <<s>> \o z \o <<8, 0, 1>>) : z \in Sizes} \cup {C("loan", <<s, 0, 10, 16, 4, 4>>), C("loan", <<s, 0, 10, 3, 0, 0>>)}
LM_Two(k) == [t \in 1..2 |-> [n \in 1..k |-> IF n % 2 = 1 THEN {C("loan", <<t>> \o z \o <<8, 0, 1>>) : z \in {<<0, 16>>, <<0, 17>>}} \cup {C("loan", <<t + 2, 0, 33, 8, 0, 1>>)}
                                             ELSE {C("drop", <<t>>), C("copy", <<t, t + 4>>)}]]
LM_Port(k) == [t \in {1} |-> [n \in 1..k |-> IF n % 2 = 1 THEN Loan(1) \cup Loan(2) ELSE {C("send", <<1>>), C("release", <<1>>), C("release", <<2>>), C("info", <<>>)}]]
LM_Two2 == LM_Two(2)
LM_Two4 == LM_Two(4)
LM_Port3 == LM_Port(3)
LM_Port5 == LM_Port(5)
\* a call on an empty (full) slot does not take place
Can(o, t, q) == CASE q.op = "loan" -> q.a[1] \notin DOMAIN o.slot
                  [] q.op = "copy" -> q.a[1] \in DOMAIN o.slot /\ q.a[2] \notin DOMAIN o.slot
                  [] q.op = "info" -> TRUE
                  [] OTHER -> q.a[1] \in DOMAIN o.slot
LM_Step(o, t, q) == IF Can(o, t, q) THEN LO_Step(o, t, q) ELSE {L_End(o, q, <<>>)}
Users(b) == Cardinality({s \in DOMAIN obj.slot : obj.slot[s] = b}) + L_Bool(obj.last = b) + Cardinality({k \in DOMAIN obj.hist : obj.hist[k] = b})
Counted == \A b \in DOMAIN obj.refs : obj.refs[b] = Users(b) /\ obj.refs[b] > 0
AllCounted == \A s \in DOMAIN obj.slot : obj.slot[s] \in DOMAIN obj.refs
\* two users of a block: only if it was copied
Exclusive == \A a, b \in DOMAIN obj.slot : a # b /\ obj.slot[a] = obj.slot[b] => a > 4 \/ b > 4
Within == \A b \in DOMAIN obj.refs : b[2] \in 1..obj.cfg.pools[b[1]].n
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
============================================================================
