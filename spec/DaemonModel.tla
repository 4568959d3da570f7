---------------------------- MODULE DaemonModel ----------------------------
(* A user process, the daemon and a searching process; and the registry alone.                                         *)
EXTENDS LinModel, Daemon
DMM_Cfg == [kind |-> "daemon", max |-> <<2, 1, 1, 1, 1, 1>>, unique |-> 0, cap |-> 3]
DMM_CfgR == [kind |-> "registry", max |-> <<2, 1, 1, 1, 1, 1>>, unique |-> 0, cap |-> 2]
Creates == {C("create", <<k, p, s, w>>) : k \in {1, 3}, p \in {1, 2}, s \in {0, 1}, w \in {0, 1}} \cup {C("create", <<1, 1, 90, 1>>)}
User == {C("offer", <<1>>), C("stop", <<1>>), C("offer", <<2>>), C("stop", <<2>>), C("destroy", <<1>>)}
Daemon == {C("discover", <<>>), C("end", <<1>>)}
Find == {C("find", <<-1, -1, -1, 0>>), C("find", <<0, 0, 1, 0>>), C("find", <<-1, -1, -1, 1>>)}
\* thread 2 is the daemon, which also creates ports
DMM_Menu(k) == [t \in 1..3 |-> CASE t = 1 -> [n \in 1..k |-> User]
                                 [] t = 2 -> <<Creates, Creates>> \o [n \in 1..k |-> Daemon]
                                 [] OTHER -> <<{C("find", <<-1, -1, -1, 0>>)}>>]
DMM_Menu1 == DMM_Menu(1)
DMM_Menu2 == DMM_Menu(2)
Regs == {C(op, <<s>>) : op \in {"addPub", "addSrv", "remPub", "remSrv", "purge"}, s \in 0..2} \cup {C("changed", <<>>)}
DMM_Reg(k) == [t \in {1} |-> [n \in 1..k |-> Regs]]
DMM_Reg4 == DMM_Reg(4)
DMM_Reg5 == DMM_Reg(5)
Can(o, q) == q.op \notin {"offer", "stop", "destroy"} \/ (q.a[1] \in DOMAIN o.ports /\ ~o.ports[q.a[1]].gone /\ (q.op = "destroy" \/ o.ports[q.a[1]].k \in {1, 3}))
\* a port that was removed while its former user still calls is out of scope
DMM_Step(o, t, q) == IF o.cfg.kind = "registry" \/ Can(o, q) THEN DM_Step(o, IF q.op = "discover" THEN 1 ELSE t, q) ELSE {L_End(o, q, <<>>)}
Limits == \A k \in 1..6 : Cardinality(DM_Of(obj, k)) <= obj.cfg.max[k]
Fresh == \A n \in DOMAIN obj.ports : n <= obj.next
\* what was published is what the daemon knew; when nothing is under way, that is what is offered
Idle == \A t \in DOMAIN pend : pend[t].op # "discover"
Published == hist # <<>> /\ hist[Len(hist)][2] = "discover" /\ pend = <<>> /\ ~obj.hold =>
             (obj.pub = DM_Known(obj) /\ (obj.news \/ obj.cache = obj.pub)) \/ \E k \in DOMAIN hist : hist[k][2] \in {"find", "offer", "stop", "destroy"}
Reserved == \A n \in DOMAIN obj.ports : obj.ports[n].k = 1 => obj.ports[n].s < 90
OneServer == \A a, b \in DM_Of(obj, 3) : a # b /\ obj.ports[a].s = obj.ports[b].s => obj.ports[a].gone \/ obj.ports[b].gone
Counts == \A s \in DOMAIN obj.reg : obj.reg[s] # <<0, 0>> /\ obj.reg[s][1] >= 0 /\ obj.reg[s][2] >= 0
Capped == Cardinality(DOMAIN obj.reg) <= obj.cfg.cap
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
============================================================================
