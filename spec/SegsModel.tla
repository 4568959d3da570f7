----------------------------- MODULE SegsModel -----------------------------
(* Every configuration of two segments with three groups, every user.                                                 *)
EXTENDS LinModel, Segs
CONSTANT N
Groups == 0..2
SGM_Init(c) == UNION {SG_Init([segs |-> f, hdr |-> 8]) : f \in [1..N -> [r : Groups, w : Groups, pools : {<<<<1, 8>>>>, <<<<2, 16>>, <<1, 8>>>>, <<<<1, 8>>, <<2, 24>>>>}]]}
SGM_Cfg == <<>>
Users == {<<>>} \cup {<<a>> : a \in Groups} \cup {<<a, b>> : a \in Groups, b \in Groups} \cup {<<0, 1, 2>>}
SGM_Menu == [t \in {1} |-> <<{C("create", <<>>)}, {C(op, u) : op \in {"map", "attach", "write"}, u \in Users}>>]
SGM_Step(o, t, q) == IF q.op = "write" /\ Cardinality(SG_Writes(o, {q.a[i] : i \in DOMAIN q.a})) > 1 THEN {L_Go(o, q, "fatal")} ELSE SG_Step(o, t, q)
\* what was answered, as <<segment, may write>>
Got(e) == LET r == IF e[2] = "attach" THEN Tail(e[4]) ELSE e[4] IN {<<r[2 * k - 1], r[2 * k]>> : k \in 1..(Len(r) \div 2)}
In(e, g) == \E i \in DOMAIN e[3] : e[3][i] = g
Asked == {j \in DOMAIN hist : hist[j][2] \in {"map", "attach"}}
Entitled == \A j \in Asked : \A s \in 1..N : LET e == hist[j]
                                                 z == obj.cfg.segs[s] IN
              /\ (\E w \in {0, 1} : <<s, w>> \in Got(e)) <=> In(e, z.r) \/ In(e, z.w)
              /\ <<s, 1>> \in Got(e) <=> In(e, z.w)
              /\ ~(<<s, 0>> \in Got(e) /\ <<s, 1>> \in Got(e))
OneWriter == \A j \in Asked : Cardinality({x \in Got(hist[j]) : x[2] = 1}) <= 1
Same == \A j \in DOMAIN hist : hist[j][2] = "write" => Len(hist[j][4]) <= 1 /\ \A k \in DOMAIN hist[j][4] : In(hist[j], obj.cfg.segs[hist[j][4][k]].w)
Ordered == hist # <<>> => \A s \in 1..N : \A p \in 2..Len(obj.cfg.segs[s].pools) : obj.cfg.segs[s].pools[p - 1][2] < obj.cfg.segs[s].pools[p][2]
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
============================================================================
