----------------------------- MODULE LockModel -----------------------------
EXTENDS LinModel, Lock
A(op) == C(op, <<>>)
LkAll == {A("lock"), A("try"), A("unlock"), A("consistent")}
LM_Lock == [t \in 1..3 |-> IF t = 3 THEN <<{A("try")}, {A("unlock")}>> ELSE <<LkAll, LkAll, LkAll \ {A("consistent")}>>]
LM_Cfg(ty, ro, sp) == [kind |-> "lock", type |-> ty, robust |-> ro, spin |-> sp]
LM_Cfg1 == LM_Cfg("normal", 0, 0)
LM_Cfg2 == LM_Cfg("recursive", 1, 0)
LM_Cfg3 == LM_Cfg("check", 1, 0)
SemAll == {A("post"), A("wait"), A("tryWait"), C("timedWait", <<1>>)}
LM_Sem == [t \in 1..3 |-> IF t = 3 THEN <<SemAll>> ELSE <<SemAll, SemAll>>]
LM_SemCfg == [kind |-> "sem", init |-> 1, max |-> 3]
FileAll == {C("acquire", <<0>>), C("release", <<0>>)}
LM_File == [t \in 1..3 |-> <<{C("acquire", <<0>>)}, {C("release", <<0>>)}, {C("acquire", <<0>>)}>>]
LM_FileCfg == [kind |-> "file"]
\* what the answers say about who owns the lock
RECURSIVE Bal(_, _)
Bal(t, k) == IF k = 0 THEN 0
             ELSE LET e == hist[k] IN
                  Bal(t, k - 1) + (IF e[1] # t THEN 0
                                   ELSE IF e[2] \in {"lock", "try"} /\ e[4][1] \in {1, 3} THEN 1
                                   ELSE IF e[2] = "unlock" /\ e[4][1] = 1 THEN 0 - 1 ELSE 0)
OneOwner == obj.cfg.kind = "lock" =>
              /\ \A t \in 1..3 : Bal(t, Len(hist)) = (IF obj.own = t THEN obj.cnt ELSE 0)
              /\ obj.cfg.type # "recursive" => obj.cnt <= 1
Cnt(op, r) == Cardinality({k \in DOMAIN hist : hist[k][2] = op /\ hist[k][4] = r})
ExactCount == obj.cfg.kind = "sem" =>
                /\ obj.n = obj.cfg.init + Cnt("post", <<1>>) - Cnt("wait", <<1>>) - Cnt("tryWait", <<1>>) - Cnt("timedWait", <<1>>)
                /\ obj.n \in 0..obj.cfg.max
NoneWaitsInVain == M_Idle /\ obj.cfg.kind = "sem" /\ DOMAIN pend # {} => obj.n = 0
===========================================================================
