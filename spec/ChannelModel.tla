---------------------------- MODULE ChannelModel ----------------------------
EXTENDS LinModel, Channel
M_S(id) == {C(op, <<id, len, 1, 0>>) : op \in {"send", "trySend", "timedSend"}, len \in {1, 4}}
M_R == {C(op, <<1, 0>>) : op \in {"receive", "tryReceive"}}
CM_Menu == <<<<{C("send", <<1, 1, 1, 0>>)}, M_S(2)>>, <<{C("trySend", <<3, 1, 1, 0>>)}, {C("send", <<4, 1, 1, 0>>)}>>, <<M_R, M_R>>>>
CM_Menu2 == <<<<{C("send", <<1, 1, 1, 0>>)}, {C("send", <<2, 1, 1, 0>>)}>>, <<{C("send", <<3, 1, 1, 0>>)}, {C("send", <<4, 1, 1, 0>>)}>>,
              <<M_R, M_R>>, <<M_R>>>>
CM_Cfg(k, n) == [kind |-> k, cap |-> n, longest |-> 3, life |-> 0]
CM_Pipe1 == CM_Cfg("pipe", 1)
CM_Pipe2 == CM_Cfg("pipe", 2)
CM_Mq == CM_Cfg("mq", 2)
\* the messages whose send succeeded, those that are on their way, those that were received
Sent == {hist[k][3][1] : k \in {j \in DOMAIN hist : hist[j][2] \in {"send", "trySend", "timedSend"} /\ hist[j][4] = <<1>>}}
Failed == {hist[k][3][1] : k \in {j \in DOMAIN hist : hist[j][2] \in {"send", "trySend", "timedSend"} /\ hist[j][4] # <<1>>}}
GotAt == {k \in DOMAIN hist : hist[k][2] \in {"receive", "tryReceive", "timedReceive"} /\ hist[k][4][1] = 1}
Got == {hist[k][4][2] : k \in GotAt}
Taken == Got \cup {pend[t].r[2] : t \in {u \in DOMAIN pend : Len(pend[u].r) = 3}}
OnTheWay == {obj.qs[1][k][1] : k \in DOMAIN obj.qs[1]}
ExactlyOnce == /\ Cardinality(Got) = Cardinality(GotAt)
               /\ Sent \subseteq Taken \cup OnTheWay
               /\ Failed \cap (Taken \cup OnTheWay) = {}
               /\ Taken \cap OnTheWay = {}
\* with one receiver, the messages of one sender come in the order in which they were sent (1 before 2, 3 before 4)
InOrder == Len(Menu) = 3 => \A j, k \in GotAt : j < k => <<hist[j][4][2], hist[k][4][2]>> \notin {<<2, 1>>, <<4, 3>>}
Bounded == Len(obj.qs[1]) <= obj.cfg.cap
NoneWaitsInVain == M_Idle => \A t \in DOMAIN pend : IF pend[t].op = "receive" THEN obj.qs[1] = <<>> ELSE Len(obj.qs[1]) = obj.cfg.cap
==============================================================================
