---------------------------- MODULE ReqResModel ----------------------------
(* All behaviours of ReqRes.tla in a small world: two clients (threads 1 and 2), one server (thread 3), the daemon      *)
(* (thread 4); requests, answers, connects and disconnects, offers and stop-offers interleave step by step.             *)
EXTENDS ReqRes, TLC
CONSTANTS Chunks, Cap, CapC, Blk, MaxClients, Sends, Discs, Toggles, Crash
VARIABLES c, m, n, got, sent
vars == <<c, m, n, got, sent>>
K == [chunks |-> Chunks, maxReq |-> 2, maxRes |-> 2, heldC |-> 2, heldS |-> 2, maxClients |-> MaxClients, maxSrv |-> 1, maxCli |-> 2]
Cl(x, on) == [NewCli(<<x, x, 0, CapC, B(on), B(Blk), 1>>) EXCEPT !.st = IF on THEN "conn" ELSE "not", !.conn = IF on THEN {3} ELSE {}]
Init == /\ c = [k |-> K, cli |-> [x \in {1, 2} |-> Cl(x, x = 1)],
                srv |-> [s \in {3} |-> [NewSrv(<<3, 3, 0, Cap, 1, B(Blk), 1>>) EXCEPT !.off = TRUE, !.conn = {1}]],
                ch |-> <<>>, of |-> <<>>, re |-> <<>>, R |-> -1, dead |-> 0, p |-> [t \in Threads |-> Idle]]
        /\ m = 1 /\ n = [send |-> 0, disc |-> 0, tog |-> 0] /\ got = [x \in {1, 2} |-> <<>>] /\ sent = [x \in {1, 2} |-> <<>>]
IdleT(t) == c.p[t].st = "idle"
Free == { b \in 0..Chunks - 1 : b \notin Blocks(c, Live(c)) }
Call(t, o, a) == c' = Begin(c, t, o, a)
Ask(x) == /\ IdleT(x) /\ n.send < Sends /\ c.cli[x].a = "yes" /\ Free # {}
          /\ \E d \in StepsOf(Begin(c, x, "cLoan", <<x, m, CHOOSE b \in Free : TRUE>>), x) :
                d.p[x].r[1] = 1 /\ c' = Begin(d, x, "cSend", <<x, m>>)
          /\ m' = m + 1 /\ n' = [n EXCEPT !.send = @ + 1] /\ sent' = [sent EXCEPT ![x] = Append(@, m)] /\ UNCHANGED got
Get(x) == IdleT(x) /\ c.cli[x].a = "yes" /\ c.cli[x].held = <<>> /\ c.cli[x].q # <<>> /\ Call(x, "cTake", <<x>>) /\ UNCHANGED <<m, n, got, sent>>
Forget(x) == IdleT(x) /\ c.cli[x].a = "yes" /\ c.cli[x].held # <<>> /\ Call(x, "cRel", <<x, Head(c.cli[x].held)>>) /\ UNCHANGED <<m, n, got, sent>>
Serve == /\ IdleT(3) /\ c.srv[3].a = "yes" /\ UNCHANGED <<n, got, sent>>
         /\ \/ c.srv[3].held = <<>> /\ c.srv[3].q # <<>> /\ Call(3, "sTake", <<3>>) /\ m' = m
            \/ /\ c.srv[3].held # <<>> /\ Free # {} /\ c.srv[3].loans = {}
               /\ \E d \in StepsOf(Begin(c, 3, "sLoan", <<3, m, CHOOSE b \in Free : TRUE, Head(c.srv[3].held)>>), 3) :
                     d.p[3].r[1] = 1 /\ c' = Begin([d EXCEPT !.srv[3].held = Tail(@)], 3, "sSend", <<3, m>>)
               /\ m' = m + 1
Toggle == /\ n.tog < Toggles /\ n' = [n EXCEPT !.tog = @ + 1] /\ UNCHANGED <<m, got, sent>>
          /\ \/ \E x \in {1, 2} : IdleT(x) /\ c.cli[x].a = "yes" /\ \E o \in {"connect", "disconnect", "destroyCli"} : Call(x, o, <<x>>)
             \/ IdleT(3) /\ c.srv[3].a = "yes" /\ \E o \in {"offer", "stopOffer", "destroySrv"} : Call(3, o, <<3>>)
Daemon4 == /\ IdleT(4) /\ n.disc < Discs /\ n' = [n EXCEPT !.disc = @ + 1] /\ UNCHANGED <<m, got, sent>>
           /\ \/ Call(4, "discover", <<>>)
              \/ Crash /\ \E t \in {1, 3} : c.p[t].st = "gone" /\ Call(4, "cleanup", <<t>>)
DieX == /\ Crash /\ \E t \in {1, 3} : c.p[t].st # "gone" /\ (\A u \in {1, 3} : c.p[u].st # "gone") /\ c.cli[1].lock # t /\ c.srv[3].lock # t /\ c' = Die(c, t)
        /\ UNCHANGED <<m, n, got, sent>>
Internal == c' \in Steps(c) /\ UNCHANGED <<m, n, got, sent>>
Return == \E t \in Threads : /\ c.p[t].st = "done" /\ c' = [c EXCEPT !.p[t] = Idle]
                             /\ got' = IF c.p[t].o = "cTake" /\ Len(c.p[t].r) = 2 THEN [got EXCEPT ![t] = Append(@, c.p[t].r[2])] ELSE got
                             /\ UNCHANGED <<m, n, sent>>
Next == \/ \E x \in {1, 2} : Ask(x) \/ Get(x) \/ Forget(x)
        \/ Serve \/ Toggle \/ Daemon4 \/ DieX \/ Internal \/ Return
Spec == Init /\ [][Next]_vars
InvSound == Sound(c)
InvAgree == Agree(c)
\* a client gets answers to its own requests only, each at most once and in the order of its requests
InvAnswers == \A x \in {1, 2} : \A i \in DOMAIN got[x] :
                /\ got[x][i] \in Range(sent[x])
                /\ \A j \in DOMAIN got[x] : i < j => got[x][i] < got[x][j]
InvNothingLost == Blk => \A x \in {1, 2} : ~c.cli[x].lost /\ ~c.srv[3].lost
=============================================================================
