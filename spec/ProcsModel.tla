---------------------------- MODULE ProcsModel ----------------------------
(* Two applications (with new incarnations) and a third name; an action every 800 ms.                                  *)
EXTENDS LinModel, Procs
PRM_Cfg == [mon |-> 1, level |-> 2, procs |-> 2, max |-> <<1, 2, 1, 1, 1, 1>>, timeout |-> 1500, pools |-> <<<<2, 128>>, <<1, 512>>>>, loans |-> 2]
PRM_CfgN == [PRM_Cfg EXCEPT !.mon = 0]
T(i) == 800 * (i - 1)
Acts(i) == {C("reg", <<n, 100 + i, v, T(i)>>) : n \in 1..3, v \in {0, 1, 2}}
           \cup {C("create", <<n, k, 0, 1, T(i)>>) : n \in 1..2, k \in {1, 2, 3}}
           \cup {C(op, <<n, T(i)>>) : op \in {"term", "beat", "crash"}, n \in 1..2}
           \cup {C("destroy", <<1, T(i)>>), C("loan", <<1, 0, T(i)>>), C("odd", <<1, 9, T(i)>>), C("report", <<T(i)>>)}
PRM_Menu(k) == [t \in {1} |-> [i \in 1..k |-> Acts(i)]]
PRM_Menu4 == PRM_Menu(4)
PRM_Menu5 == PRM_Menu(5)
PRM_Step(o, t, q) == IF q.op \in {"destroy", "loan"} /\ q.pc = "start" /\ ~(1 \in DOMAIN o.ports /\ o.ports[1].del = -1 /\ (q.op = "loan" => o.ports[1].k = PUB)
                                                                                /\ q.a[Len(q.a)] - o.procs[o.ports[1].p].last <= o.cfg.timeout)
                     THEN {L_End(o, q, <<>>)} ELSE PR_Step(o, t, q)
Limits == Cardinality(DOMAIN obj.procs) <= obj.cfg.procs /\ \A k \in 1..6 : Cardinality(PR_Live(obj, PR_Kind(obj, k))) <= obj.cfg.max[k]
\* nothing of a former incarnation or of an unknown process is left
Owned == \A n \in DOMAIN obj.ports : obj.ports[n].p \in DOMAIN obj.procs
OneServer == \A a, b \in PR_Live(obj, PR_Kind(obj, SRV)) : obj.ports[a].s = obj.ports[b].s => a = b
Acc(e) == e[2] = "reg" /\ e[4] = <<1>>
Now == IF pend # <<>> THEN pend[1].a[Len(pend[1].a)] ELSE IF hist = <<>> THEN 0 ELSE LET x == hist[Len(hist)][3] IN x[Len(x)]
\* the last that was said about n
LastOf(n) == {j \in DOMAIN hist : hist[j][2] \in {"reg", "term"} /\ hist[j][3][1] = n
                                  /\ \A k \in (j + 1)..Len(hist) : ~(hist[k][2] \in {"reg", "term"} /\ hist[k][3][1] = n)}
\* who was accepted is known as long as it gives signs of life
Kept == \A n \in 1..3 : \A j \in LastOf(n) :
          Acc(hist[j]) /\ (obj.cfg.mon = 0 \/ Now - hist[j][3][4] <= obj.cfg.timeout) => n \in DOMAIN obj.procs /\ obj.procs[n].pid = hist[j][3][2]
\* who was not accepted or has left is not
NotKept == \A n \in 1..3 : (LastOf(n) = {} \/ \E j \in LastOf(n) : ~Acc(hist[j])) => n \notin DOMAIN obj.procs
\* only a version that fits, only if there is room
Fit == \A j \in DOMAIN hist : Acc(hist[j]) => hist[j][3][3] # 2
Room == \A j \in DOMAIN hist : hist[j][2] = "reg" /\ hist[j][4] = <<>> /\ hist[j][3][3] # 2 => j > 2
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
Used == \A i \in 1..2 : PR_Sum(obj, DOMAIN obj.ports, i) <= obj.cfg.pools[i][1]
===========================================================================
