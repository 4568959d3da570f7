----------------------------- MODULE PubSubModel -----------------------------
(* All behaviours of PubSub.tla in a small world: one or two publishers, two subscribers (the second one joins late),   *)
(* the daemon; each thread issues any of its operations, all internal steps interleave.                                  *)
EXTENDS PubSub, TLC
CONSTANTS Chunks, HCap, HReq, Cap, Wait, Blk, NPub, Sends, Takes, Disc, Toggles, Crash
VARIABLES c,       \* the system (record of PubSub.tla)
          m,       \* next sample
          n,       \* operations issued: [send, take, disc, toggle]
          got      \* what subscriber s has received: sequence of samples
vars == <<c, m, n, got>>
K == [chunks |-> Chunks, maxLoans |-> 2, maxHeld |-> 2, maxSubs |-> 2]
PubT(p) == p          \* publisher p runs in thread p (1, 2), subscriber 11 in thread 3, the daemon in thread 4 (and 0)
PubIds == 1..NPub
Pb(p) == [a |-> "yes", proc |-> p, svc |-> 0, hcap |-> HCap, wait |-> Wait, want |-> TRUE, off |-> TRUE, conn |-> {11},
          hist |-> <<>>, loans |-> {}, lock |-> -1, seq |-> 0, last |-> 0]
Sb(q, s) == [a |-> "yes", proc |-> q, svc |-> 0, cap |-> Cap, hreq |-> HReq, rh |-> FALSE, blk |-> Blk, want |-> s, st |-> IF s THEN "sub" ELSE "not",
          q |-> <<>>, n |-> Cap, held |-> <<>>, lost |-> FALSE]
Init == /\ c = [k |-> K, pub |-> [p \in PubIds |-> Pb(p)], sub |-> [s \in {11, 12} |-> Sb(s, s = 11)], ch |-> <<>>, sq |-> <<>>,
                R |-> -1, dead |-> 0, p |-> [t \in Threads |-> Idle]]
        /\ m = 1 /\ n = [send |-> 0, take |-> 0, disc |-> 0, tog |-> 0] /\ got = [s \in {11, 12} |-> <<>>]
IdleT(t) == c.p[t].st = "idle"
FreeBlock == { b \in 0..Chunks - 1 : b \notin Blocks(c, Live(c)) }
Call(t, o, a) == c' = Begin(c, t, o, a)
\* loan and send by a publisher
Loan(p) == /\ IdleT(p) /\ n.send < Sends /\ c.pub[p].a = "yes" /\ c.pub[p].loans = {} /\ FreeBlock # {}
           /\ \E d \in StepsOf(Begin(c, p, "loan", <<p, m, CHOOSE b \in FreeBlock : TRUE>>), p) : d.p[p].r[1] = 1 /\ c' = [d EXCEPT !.p[p] = Idle]
           /\ m' = m + 1 /\ UNCHANGED <<n, got>>
Send(p) == /\ IdleT(p) /\ c.pub[p].a = "yes" /\ c.pub[p].loans # {}
           /\ Call(p, "send", <<p, CHOOSE x \in c.pub[p].loans : TRUE>>)
           /\ n' = [n EXCEPT !.send = @ + 1] /\ UNCHANGED <<m, got>>
Take(s) == /\ IdleT(3) /\ n.take < Takes /\ c.sub[s].a = "yes"
           /\ Call(3, "take", <<s>>) /\ n' = [n EXCEPT !.take = @ + 1] /\ UNCHANGED <<m, got>>
Rel(s) == /\ IdleT(3) /\ c.sub[s].a = "yes" /\ c.sub[s].held # <<>>
          /\ Call(3, "rel", <<s, Head(c.sub[s].held)>>) /\ UNCHANGED <<m, n, got>>
Toggle == /\ n.tog < Toggles /\ n' = [n EXCEPT !.tog = @ + 1] /\ UNCHANGED <<m, got>>
          /\ \/ \E p \in PubIds : IdleT(p) /\ c.pub[p].a = "yes" /\ \E o \in {"offer", "stopOffer"} : Call(p, o, <<p>>)
             \/ \E s \in {11, 12} : IdleT(3) /\ c.sub[s].a = "yes" /\ \E o \in {"subscribe", "unsubscribe"} : Call(3, o, <<s>>)
Daemon4 == /\ IdleT(4) /\ n.disc < Disc /\ n' = [n EXCEPT !.disc = @ + 1] /\ UNCHANGED <<m, got>>
           /\ \/ Call(4, "discover", <<>>)
              \/ Crash /\ \E q \in PubIds : c.p[q].st = "gone" /\ Call(4, "cleanup", <<q>>)
Die1 == /\ Crash /\ c.p[1].st # "gone" /\ c.pub[1].lock # 1 /\ c' = Die(c, 1) /\ UNCHANGED <<m, n, got>>
Internal == /\ c' \in Steps(c) /\ UNCHANGED <<m, n, got>>
Return == \E t \in Threads : /\ c.p[t].st = "done" /\ c' = [c EXCEPT !.p[t] = Idle]
                             /\ got' = IF c.p[t].o = "take" /\ Len(c.p[t].r) = 2 THEN [got EXCEPT ![c.p[t].a[1]] = Append(@, c.p[t].r[1])] ELSE got
                             /\ UNCHANGED <<m, n>>
Next == \/ \E p \in PubIds : Loan(p) \/ Send(p)
        \/ \E s \in {11, 12} : Take(s) \/ Rel(s)
        \/ Toggle \/ Daemon4 \/ Die1 \/ Internal \/ Return
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- what must hold
InvSound == Sound(c)
InvConnected == ConnectedIffMatching(c)
All(s) == got[s] \o c.sub[s].q
\* samples of one publisher arrive in order and at most once (toggled subscribers may get history again)
InvOrder == Toggles = 0 => \A s \in {11, 12} : \A i, j \in DOMAIN All(s) : (i < j /\ NPub = 1) => c.sq[All(s)[i]] < c.sq[All(s)[j]]
\* nothing is lost for a subscriber that can keep up: no overflow, no gap
InvNoGap == (NPub = 1 /\ Toggles = 0 /\ ((Blk /\ Wait) \/ ~c.sub[11].lost)) =>
              \A i \in 1..Len(All(11)) - 1 : c.sq[All(11)[i + 1]] = c.sq[All(11)[i]] + 1 \/ c.p[3].o = "take"
\* lost is raised only by an overflow
InvLost == (Blk /\ Wait) => ~c.sub[11].lost
\* every block is accounted for: what is not live is free again
InvMemory == Cardinality(Blocks(c, Live(c))) <= Chunks
==============================================================================
