------------------------------- MODULE PubSub -------------------------------
(* Publish/subscribe as its users see it: publishers, subscribers, the daemon (RouDi) that connects them, and the      *)
(* memory of the samples.  Every user call and every daemon call is one pending operation that takes one or more        *)
(* internal steps; operations of different threads interleave step by step.                                             *)
(*                                                                                                                      *)
(* State record:                                                                                                        *)
(*   pub[p]  a ("yes" | "dying" | "no"), proc, svc, hcap (history capacity), wait (WAIT_FOR_CONSUMER), want (offer      *)
(*           requested by the user), off (offered, as the daemon sees it), conn (connected subscribers), hist, loans,   *)
(*           lock (thread that works on the connections), seq (number of sends), last (sample kept for reuse, 0 none)   *)
(*   sub[s]  a, proc, svc, cap, hreq (history request), rh (requires history support), blk (BLOCK_PRODUCER), want,      *)
(*           st ("sub" | "not"), q (received samples), n (free slots), held, lost                                       *)
(*   ch, sq  memory block and sequence number of every sample                                                           *)
(*   R       thread that is inside the daemon, -1 none                                                                  *)
(*   dead    blocks that operations which died half way may have taken with them (those in transit)                    *)
(*   p[t]    the pending operation of thread t                                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Threads == 0..4
NoMsg == 0
Idle == [o |-> "idle", a |-> <<>>, st |-> "idle", r |-> <<>>, m |-> 0, cur |-> 0, todo |-> {}, todoS |-> {}, jobs |-> {},
         wait |-> {}, hq |-> <<>>, ps |-> 0, pm |-> 0, pst |-> "no", onlyKill |-> FALSE]
PS_Init(cfg) ==
  { [k |-> cfg, pub |-> <<>>, sub |-> <<>>, ch |-> <<>>, sq |-> <<>>, R |-> -1, dead |-> 0, p |-> [t \in Threads |-> Idle]] }
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Range(s) == { s[i] : i \in DOMAIN s }
Min(a, b) == IF a < b THEN a ELSE b
LastN(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
RemoveOne(s, x) ==   \* remove one occurrence
  LET i == CHOOSE j \in DOMAIN s : s[j] = x IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Compatible(c, p, s) ==
  /\ c.pub[p].svc = c.sub[s].svc
  /\ ~(c.sub[s].blk /\ ~c.pub[p].wait)
  /\ (c.sub[s].rh => c.pub[p].hcap > 0)
Pubs(c) == { p \in DOMAIN c.pub : c.pub[p].a # "no" }
Subs(c) == { s \in DOMAIN c.sub : c.sub[s].a # "no" }

\* ---------------------------------------------------------------- memory
InFlight(c) == { c.p[t].m : t \in Threads } \cup { c.p[t].pm : t \in Threads } \cup UNION { Range(c.p[t].hq) : t \in Threads }
Live(c) == (UNION { c.pub[p].loans \cup Range(c.pub[p].hist) : p \in Pubs(c) }
            \cup UNION { Range(c.sub[s].q) \cup Range(c.sub[s].held) : s \in Subs(c) }
            \cup InFlight(c)) \ {NoMsg}
Kept(c) == { c.pub[p].last : p \in Pubs(c) } \ {NoMsg}
Blocks(c, M) == { c.ch[m] : m \in M }
Busy(c) == Cardinality({t \in Threads : c.p[t].st \notin {"idle"}})

\* ---------------------------------------------------------------- helpers
P(c, t) == c.p[t]
St(c, t, st) == [c EXCEPT !.p[t].st = st]
Done(c, t, r) == [c EXCEPT !.p[t].st = "done", !.p[t].r = r, !.p[t].m = 0, !.p[t].pm = 0, !.p[t].hq = <<>>]

\* ---------------------------------------------------------------- one sample into one queue
\* pst: "push" -> (slot | slotE) -> ended with pst "ok", "evicted" or "full"
StartPush(c, t, s, m) == [c EXCEPT !.p[t].ps = s, !.p[t].pm = m, !.p[t].pst = "push"]
PushSteps(c, t) ==
  LET s == P(c, t).ps  m == P(c, t).pm  x == P(c, t).pst IN
  CASE x = "push" ->
         (IF c.sub[s].n > 0 THEN { [c EXCEPT !.sub[s].n = @ - 1, !.p[t].pst = "slot"] } ELSE {})
         \cup (IF c.sub[s].blk
               THEN IF c.sub[s].n = 0 THEN { [c EXCEPT !.p[t].pst = "full"] } ELSE {}
               ELSE IF Len(c.sub[s].q) = c.sub[s].cap
                    THEN { [c EXCEPT !.sub[s].q = Tail(@), !.p[t].pst = "slotE"] } ELSE {})
    [] x \in {"slot", "slotE"} ->
         { [c EXCEPT !.sub[s].q = Append(@, m), !.p[t].pst = IF x = "slot" THEN "ok" ELSE "evicted"] }
    [] OTHER -> {}
Pushing(c, t) == P(c, t).pst \in {"push", "slot", "slotE"}
EndPush(c, t) == [c EXCEPT !.p[t].pst = "no", !.p[t].pm = 0]
\* what follows the end of a push at once: a full queue is waited for, an eviction (of a live sample) is flagged later
AfterPush(c, t) ==
  CASE P(c, t).pst = "ok" -> EndPush(c, t)
    [] P(c, t).pst = "full" -> EndPush([c EXCEPT !.p[t].wait = @ \cup {P(c, t).ps}], t)
    [] OTHER -> c

\* ---------------------------------------------------------------- loan and give back (arguments: publisher, sample)
LoanSteps(c, t) ==   \* r = <<1, block>> | <<0, 1>> out of memory | <<0, 2>> too many loans
  LET p == P(c, t).a[1]  m == P(c, t).a[2]  b == P(c, t).a[3]  L == Live(c)
      full == Cardinality(c.pub[p].loans) >= c.k.maxLoans
      busyOthers == Busy(c) - 1
      exhausted == Cardinality(L \cup Kept(c)) + 2 * busyOthers + c.dead >= c.k.chunks IN
  (IF ~full /\ b >= 0 /\ b \notin Blocks(c, L)
   THEN { Done([c EXCEPT !.pub[p].loans = @ \cup {m}, !.ch = Put(@, m, b)], t, <<1, b>>) } ELSE {})
  \cup (IF full THEN { Done(c, t, <<0, 2>>) } ELSE {})
  \cup (IF exhausted THEN { Done(c, t, <<0, 1>>) } ELSE {})
UnloanSteps(c, t) ==
  LET p == P(c, t).a[1]  m == P(c, t).a[2] IN { Done([c EXCEPT !.pub[p].loans = @ \ {m}], t, <<>>) }

\* ---------------------------------------------------------------- send (arguments: publisher, sample)
AddHist(c, p, m) == IF c.pub[p].hcap = 0 THEN c ELSE [c EXCEPT !.pub[p].hist = LastN(Append(@, m), c.pub[p].hcap)]
SendSteps(c, t) ==
  LET p == P(c, t).a[1]  m == P(c, t).a[2]  st == P(c, t).st
      fin(d) == Done([d EXCEPT !.pub[p].last = m], t, <<>>) IN
  CASE st = "new" ->
         LET d == [c EXCEPT !.pub[p].loans = @ \ {m}, !.p[t].m = m, !.sq = Put(@, m, c.pub[p].seq), !.pub[p].seq = @ + 1]
         IN { St(d, t, IF c.pub[p].want THEN "lock" ELSE "histonly") }
    [] st = "histonly" -> IF c.pub[p].lock = -1 THEN { fin(AddHist(c, p, m)) } ELSE {}
    [] st = "lock" -> IF c.pub[p].lock = -1
                      THEN { St([c EXCEPT !.pub[p].lock = t, !.p[t].todo = c.pub[p].conn], t, "pass") } ELSE {}
    [] st = "pass" ->
         IF Pushing(c, t) THEN { AfterPush(d, t) : d \in PushSteps(c, t) }
         ELSE IF P(c, t).pst = "evicted" THEN { EndPush([c EXCEPT !.sub[P(c, t).ps].lost = TRUE], t) }
         ELSE IF P(c, t).todo # {}
              THEN { StartPush([c EXCEPT !.p[t].todo = @ \ {s}], t, s, m) : s \in P(c, t).todo }
         ELSE LET d == [AddHist(c, p, m) EXCEPT !.pub[p].lock = -1] IN
              { IF P(c, t).wait = {} THEN fin(d) ELSE St(d, t, "wait") }
    [] st = "wait" ->
         LET W == P(c, t).wait IN
         IF Pushing(c, t) THEN PushSteps(c, t)
         ELSE IF P(c, t).pst = "ok"
              THEN { EndPush([c EXCEPT !.p[t].wait = @ \ {P(c, t).ps}, !.pub[p].lock = -1], t) }
         ELSE IF W = {} THEN { fin(c) }
         ELSE IF c.pub[p].lock # -1 THEN {}
         ELSE { [c EXCEPT !.p[t].wait = @ \ {s}] : s \in W \ c.pub[p].conn }
              \cup { [StartPush([c EXCEPT !.sub[s].n = @ - 1, !.pub[p].lock = t], t, s, m) EXCEPT !.p[t].pst = "slot"]
                     : s \in { u \in W \cap c.pub[p].conn : c.sub[u].n > 0 } }
\* a sender that cannot go on: it waits for room and there is none
LegitimatelyBlocked(c, t) ==
  /\ P(c, t).o = "send" /\ P(c, t).st = "wait" /\ ~Pushing(c, t) /\ P(c, t).pst = "no" /\ P(c, t).wait # {}
  /\ LET p == P(c, t).a[1] IN
     /\ P(c, t).wait \subseteq c.pub[p].conn
     /\ c.pub[p].lock = -1
     /\ \A s \in P(c, t).wait : c.sub[s].n = 0

\* ---------------------------------------------------------------- receive
TakeSteps(c, t) ==   \* r = <<sample, sequence number>> | <<0>> nothing there | <<-1>> holds too many (the sample is dropped)
  LET s == P(c, t).a[1] IN
  CASE P(c, t).st = "new" ->
         IF c.sub[s].q = <<>> THEN { Done(c, t, <<0>>) }
         ELSE { St([c EXCEPT !.sub[s].q = Tail(@), !.p[t].m = Head(c.sub[s].q)], t, "taken") }
    [] P(c, t).st = "taken" ->
         LET m == P(c, t).m  d == [c EXCEPT !.sub[s].n = @ + 1] IN
         IF Len(c.sub[s].held) >= c.k.maxHeld THEN { Done(d, t, <<-1>>) }
         ELSE { Done([d EXCEPT !.sub[s].held = Append(@, m)], t, <<m, c.sq[m]>>) }
RelSteps(c, t) ==    \* a held sample is read once more and given back
  LET s == P(c, t).a[1]  m == P(c, t).a[2] IN
  IF m \in Range(c.sub[s].held) THEN { Done([c EXCEPT !.sub[s].held = RemoveOne(@, m)], t, <<m>>) } ELSE {}
ClearSteps(c, t, after) ==
  LET s == P(c, t).a[1] IN
  CASE P(c, t).st = "clear" ->
         IF c.sub[s].q = <<>> THEN { after }
         ELSE { St([c EXCEPT !.sub[s].q = Tail(@), !.p[t].m = Head(c.sub[s].q)], t, "clear1") }
    [] P(c, t).st = "clear1" -> { St([c EXCEPT !.sub[s].n = @ + 1, !.p[t].m = 0], t, "clear") }
ClearQSteps(c, t) == IF P(c, t).st = "new" THEN { St(c, t, "clear") } ELSE ClearSteps(c, t, Done(c, t, <<>>))
SubscribeSteps(c, t) ==
  LET s == P(c, t).a[1] IN
  IF P(c, t).st = "new" THEN { IF c.sub[s].want THEN Done(c, t, <<>>) ELSE St(c, t, "clear") }
  ELSE ClearSteps(c, t, Done([c EXCEPT !.sub[s].want = TRUE], t, <<>>))
MissedSteps(c, t) ==
  LET s == P(c, t).a[1] IN
  CASE P(c, t).st = "new" -> { IF c.sub[s].lost THEN St(c, t, "clr") ELSE Done(c, t, <<0>>) }
    [] P(c, t).st = "clr" -> { Done([c EXCEPT !.sub[s].lost = FALSE], t, <<1>>) }

\* ---------------------------------------------------------------- the daemon
\* connect: under the publisher's lock; the requested history goes into the queue first
ConnectSteps(c, t, p, s, next) ==     \* next: state name to go to afterwards
  IF c.pub[p].lock # -1 THEN {}
  ELSE IF s \in c.pub[p].conn \/ ~c.pub[p].off \/ Cardinality(c.pub[p].conn) >= c.k.maxSubs THEN { St(c, t, next) }
  ELSE LET h == LastN(c.pub[p].hist, c.sub[s].hreq)
           d == [c EXCEPT !.pub[p].conn = @ \cup {s}] IN
       IF h = <<>> THEN { St(d, t, next) }
       ELSE { St([d EXCEPT !.pub[p].lock = t, !.p[t].hq = h, !.p[t].ps = s, !.p[t].cur = p], t, "hist:" \o next) }
HistSteps(c, t, next) ==
  IF Pushing(c, t) THEN { IF Pushing(d, t) THEN d ELSE EndPush(d, t) : d \in PushSteps(c, t) }
  ELSE IF P(c, t).hq # <<>> THEN { StartPush([c EXCEPT !.p[t].hq = Tail(@)], t, P(c, t).ps, Head(P(c, t).hq)) }
  ELSE { St([c EXCEPT !.pub[P(c, t).cur].lock = -1], t, next) }
Disconnect(c, p, s) == IF c.pub[p].off THEN [c EXCEPT !.pub[p].conn = @ \ {s}] ELSE c

DaemonStep(c, t) ==
  LET st == P(c, t).st IN
  CASE st = "P" ->                       \* publishers
         IF P(c, t).todo = {} THEN { St(c, t, "S") }
         ELSE UNION { LET d == [c EXCEPT !.p[t].todo = @ \ {p}, !.p[t].jobs = {}, !.p[t].a = <<p>>] IN
                IF P(c, t).onlyKill THEN { St(d, t, "Pd") }
                ELSE IF c.pub[p].want /\ ~c.pub[p].off
                THEN { St([d EXCEPT !.pub[p].off = TRUE,
                                    !.p[t].jobs = { s \in Subs(c) : Compatible(c, p, s) }], t, "Pc") }
                ELSE IF ~c.pub[p].want /\ c.pub[p].off
                THEN { St([d EXCEPT !.pub[p].off = FALSE], t, "Px") }
                ELSE { St(d, t, "Pd") } : p \in P(c, t).todo }
    [] st = "Px" ->                      \* no longer offered: everybody is disconnected
         LET p == P(c, t).a[1] IN
         IF c.pub[p].lock = -1 THEN { St([c EXCEPT !.pub[p].conn = {}], t, "Pd") } ELSE {}
    [] st = "Pc" ->                      \* offered: everybody who is subscribed is connected
         LET p == P(c, t).a[1] IN
         IF P(c, t).jobs = {} THEN { St(c, t, "Pd") }
         ELSE UNION { LET d == [c EXCEPT !.p[t].jobs = @ \ {s}] IN
                      IF c.sub[s].st = "sub" THEN ConnectSteps(d, t, p, s, "Pc") ELSE { d } : s \in P(c, t).jobs }
    [] st = "hist:Pc" -> HistSteps(c, t, "Pc")
    [] st = "Pd" ->                      \* destroyed
         LET p == P(c, t).a[1] IN
         IF c.pub[p].a # "dying" \/ P(c, t).o = "unblock" THEN { St(c, t, "P") }
         ELSE IF c.pub[p].lock # -1 THEN {}
         ELSE { St([c EXCEPT !.pub[p].a = "no", !.pub[p].off = FALSE, !.pub[p].want = FALSE, !.pub[p].conn = {},
                             !.pub[p].hist = <<>>, !.pub[p].loans = {}, !.pub[p].last = 0], t, "P") }
    [] st = "S" ->                       \* subscribers
         IF P(c, t).todoS = {} THEN { Done([c EXCEPT !.R = -1], t, IF P(c, t).o \in {"createPub", "createSub"} THEN <<1>> ELSE <<>>) }
         ELSE UNION { LET d == [c EXCEPT !.p[t].todoS = @ \ {s}, !.p[t].jobs = {}, !.p[t].a = <<s>>] IN
                IF P(c, t).onlyKill THEN { St(d, t, "Sd") }
                ELSE IF c.sub[s].want /\ c.sub[s].st = "not"
                THEN { St([d EXCEPT !.sub[s].st = "sub", !.p[t].jobs = { p \in Pubs(c) : Compatible(c, p, s) }], t, "Sc") }
                ELSE IF ~c.sub[s].want /\ c.sub[s].st = "sub"
                THEN { St([d EXCEPT !.sub[s].st = "not", !.p[t].jobs = { p \in Pubs(c) : Compatible(c, p, s) }], t, "Su") }
                ELSE { St(d, t, "Sd") } : s \in P(c, t).todoS }
    [] st = "Sc" ->
         LET s == P(c, t).a[1] IN
         IF P(c, t).jobs = {} THEN { St(c, t, "Sd") }
         ELSE UNION { ConnectSteps([c EXCEPT !.p[t].jobs = @ \ {p}], t, p, s, "Sc") : p \in P(c, t).jobs }
    [] st = "hist:Sc" -> HistSteps(c, t, "Sc")
    [] st \in {"Su", "Sx"} ->
         LET s == P(c, t).a[1] IN
         IF P(c, t).jobs = {} THEN { St(c, t, IF st = "Su" THEN "Sd" ELSE "Sy") }
         ELSE UNION { IF c.pub[p].lock # -1 THEN {} ELSE { Disconnect([c EXCEPT !.p[t].jobs = @ \ {p}], p, s) } : p \in P(c, t).jobs }
    [] st = "Sd" ->
         LET s == P(c, t).a[1] IN
         IF c.sub[s].a # "dying" THEN { St(c, t, "S") }
         ELSE { St([c EXCEPT !.sub[s].want = FALSE, !.sub[s].st = "not",
                             !.p[t].jobs = IF c.sub[s].st = "sub" THEN { p \in Pubs(c) : Compatible(c, p, s) } ELSE {}], t, "Sx") }
    [] st = "Sy" ->                      \* nobody pushes any more
         LET s == P(c, t).a[1] IN
         { St([c EXCEPT !.sub[s].a = "no", !.sub[s].q = <<>>, !.sub[s].held = <<>>], t, "S") }

\* when nobody else is active, all ports for which there is nothing to do are passed over at once
Alone(c, t) == \A u \in Threads \ {t} : c.p[u].st \in {"idle", "done", "gone"}
NothingP(c, t, p) == c.pub[p].a # "dying" /\ (P(c, t).onlyKill \/ c.pub[p].want = c.pub[p].off)
NothingS(c, t, s) == c.sub[s].a # "dying" /\ (P(c, t).onlyKill \/ c.sub[s].want = (c.sub[s].st = "sub"))
Prune(c, t) ==
  LET x == P(c, t) IN
  IF ~Alone(c, t) THEN c
  ELSE CASE x.st = "P" -> [c EXCEPT !.p[t].todo = { p \in @ : ~NothingP(c, t, p) }]
         [] x.st = "S" -> [c EXCEPT !.p[t].todoS = { s \in @ : ~NothingS(c, t, s) }]
         [] x.st = "Pc" -> [c EXCEPT !.p[t].jobs = { s \in @ : c.sub[s].st = "sub" }]
         [] x.st = "Sc" -> [c EXCEPT !.p[t].jobs = { p \in @ : c.pub[p].off }]
         [] x.st \in {"Su", "Sx"} -> [c EXCEPT !.p[t].jobs = { p \in @ : x.a[1] \in c.pub[p].conn }]
         [] OTHER -> c
\* steps without any effect are taken at once
RECURSIVE Skip(_, _)
Skip(c, t) ==
  LET x == P(c, t) IN
  CASE x.st = "P" /\ x.todo = {} -> Skip(Prune(St(c, t, "S"), t), t)
    [] x.st = "S" /\ x.todoS = {} -> Done([c EXCEPT !.R = -1], t, IF x.o \in {"createPub", "createSub"} THEN <<1>> ELSE <<>>)
    [] x.st = "Pc" /\ x.jobs = {} -> Skip(St(c, t, "Pd"), t)
    [] x.st \in {"Sc", "Su"} /\ x.jobs = {} -> Skip(St(c, t, "Sd"), t)
    [] x.st = "Pd" /\ x.todo = {} /\ c.pub[x.a[1]].a # "dying" /\ Alone(c, t) -> Skip(Prune(St(c, t, "P"), t), t)
    [] x.st = "Sd" /\ c.sub[x.a[1]].a # "dying" /\ Alone(c, t) -> Skip(Prune(St(c, t, "S"), t), t)
    [] x.st = "Sx" /\ x.jobs = {} -> St(c, t, "Sy")
    [] OTHER -> c
DaemonSteps(c, t) == { Skip(Prune(d, t), t) : d \in DaemonStep(c, t) }

\* entering the daemon
Enter(c, t, d, todo, todoS, kill) ==
  IF c.R # -1 THEN {}
  ELSE { Skip(Prune(St([d EXCEPT !.R = t, !.p[t].todo = todo, !.p[t].todoS = todoS, !.p[t].onlyKill = kill], t, "P"), t), t) }
CreatePub(c, t) ==   \* id, proc, svc, hcap, offerOnCreate, wait
  LET a == P(c, t).a IN
  Enter(c, t, [c EXCEPT !.pub = Put(@, a[1], [a |-> "yes", proc |-> a[2], svc |-> a[3], hcap |-> a[4], wait |-> a[6] = 1,
        want |-> a[5] = 1, off |-> FALSE, conn |-> {}, hist |-> <<>>, loans |-> {}, lock |-> -1, seq |-> 0, last |-> 0])],
        {a[1]}, {}, FALSE)
CreateSub(c, t) ==   \* id, proc, svc, cap, hreq, requiresHistory, block, subscribeOnCreate
  LET a == P(c, t).a IN
  Enter(c, t, [c EXCEPT !.sub = Put(@, a[1], [a |-> "yes", proc |-> a[2], svc |-> a[3], cap |-> a[4], hreq |-> a[5],
        rh |-> a[6] = 1, blk |-> a[7] = 1, want |-> a[8] = 1, st |-> "not", q |-> <<>>, n |-> a[4], held |-> <<>>, lost |-> FALSE])],
        {}, {a[1]}, FALSE)
Discover(c, t) == Enter(c, t, c, Pubs(c), Subs(c), FALSE)
Unblock(c, t) ==     \* the daemon takes back all offers of a process
  LET M == { p \in Pubs(c) : c.pub[p].proc = P(c, t).a[1] } IN
  Enter(c, t, [c EXCEPT !.pub = [p \in DOMAIN c.pub |-> IF p \in M THEN [c.pub[p] EXCEPT !.want = FALSE] ELSE c.pub[p]]], M, {}, FALSE)
Cleanup(c, t) ==     \* the daemon removes a process
  LET x == P(c, t).a[1]
      M == { p \in Pubs(c) : c.pub[p].proc = x }   N == { s \in Subs(c) : c.sub[s].proc = x } IN
  Enter(c, t, [c EXCEPT !.pub = [p \in DOMAIN c.pub |-> IF p \in M THEN [c.pub[p] EXCEPT !.a = "dying"] ELSE c.pub[p]],
                        !.sub = [s \in DOMAIN c.sub |-> IF s \in N THEN [c.sub[s] EXCEPT !.a = "dying"] ELSE c.sub[s]]],
        M, N, TRUE)

\* ---------------------------------------------------------------- all operations
B(x) == IF x THEN 1 ELSE 0
StepsOf(c, t) ==
  LET o == P(c, t).o  st == P(c, t).st  a == P(c, t).a IN
  CASE st \in {"idle", "done", "gone"} -> {}
    [] o = "loan" -> LoanSteps(c, t)
    [] o = "unloan" -> UnloanSteps(c, t)
    [] o = "send" -> SendSteps(c, t)
    [] o = "take" -> TakeSteps(c, t)
    [] o = "rel" -> RelSteps(c, t)
    [] o = "clearQ" -> ClearQSteps(c, t)
    [] o = "subscribe" -> SubscribeSteps(c, t)
    [] o = "unsubscribe" -> { Done([c EXCEPT !.sub[a[1]].want = FALSE], t, <<>>) }
    [] o = "offer" -> { Done([c EXCEPT !.pub[a[1]].want = TRUE], t, <<>>) }
    [] o = "stopOffer" -> { Done([c EXCEPT !.pub[a[1]].want = FALSE], t, <<>>) }
    [] o = "destroyPub" -> { Done([c EXCEPT !.pub[a[1]].a = "dying"], t, <<>>) }
    [] o = "destroySub" -> { Done([c EXCEPT !.sub[a[1]].a = "dying"], t, <<>>) }
    [] o = "missed" -> MissedSteps(c, t)
    [] o = "hasData" -> { Done(c, t, <<B(c.sub[a[1]].q # <<>>)>>) }
    [] o = "isOffered" -> { Done(c, t, <<B(c.pub[a[1]].want)>>) }
    [] o = "hasSubs" -> IF c.pub[a[1]].lock = -1 THEN { Done(c, t, <<B(c.pub[a[1]].conn # {})>>) } ELSE {}
    [] o = "subState" -> { Done(c, t, <<B(c.sub[a[1]].st = "sub")>>) }
    [] o = "used" -> { Done(c, t, <<k>>) : k \in Cardinality(Blocks(c, Live(c)))..(Cardinality(Blocks(c, Live(c) \cup Kept(c))) + c.dead) }
    [] o = "createPub" /\ st = "new" -> CreatePub(c, t)
    [] o = "createSub" /\ st = "new" -> CreateSub(c, t)
    [] o = "discover" /\ st = "new" -> Discover(c, t)
    [] o = "unblock" /\ st = "new" -> Unblock(c, t)
    [] o = "cleanup" /\ st = "new" -> Cleanup(c, t)
    [] OTHER -> DaemonSteps(c, t)
Steps(c) == UNION { StepsOf(c, t) : t \in {u \in Threads : c.p[u].st \notin {"idle", "done", "gone"}} }
\* Operations run only as far as an observed return needs it, and only those that can influence it: an operation that
\* touches none of the ports of t's operation, directly or through other pending operations, commutes with it and is
\* left where it is.
Daemon == {"createPub", "createSub", "discover", "unblock", "cleanup", "used"}
Pending(c) == { u \in Threads : c.p[u].st \notin {"idle", "done", "gone"} }
Touches(c, u) ==
  LET o == P(c, u).o  a == P(c, u).a IN
  IF o \in {"loan", "unloan", "offer", "stopOffer", "isOffered", "hasSubs", "destroyPub"} THEN { <<"p", a[1]>> }
  ELSE IF o = "send" THEN { <<"p", a[1]>> } \cup { <<"s", s>> : s \in c.pub[a[1]].conn \cup P(c, u).todo \cup P(c, u).wait \cup (IF P(c, u).ps = 0 THEN {} ELSE {P(c, u).ps}) }
  ELSE { <<"s", a[1]>> }
Near(c, u, v) == \/ P(c, u).o \in Daemon \/ P(c, v).o \in Daemon \/ Touches(c, u) \cap Touches(c, v) # {}
RECURSIVE Grow(_, _)
Grow(c, K) == LET N == { v \in Pending(c) \ K : \E u \in K : Near(c, u, v) } IN IF N = {} THEN K ELSE Grow(c, K \cup N)
Expand(c, t, r) ==
  IF P(c, t).o = "loan" /\ \E d \in StepsOf(c, t) : d.p[t].r = r THEN StepsOf(c, t)
  ELSE UNION { StepsOf(c, u) : u \in IF P(c, t).o = "loan" THEN Pending(c) ELSE Grow(c, {t}) }
RECURSIVE Finish(_, _, _, _, _)     \* all states in which t is done, reached with t's own last step
Finish(all, new, fin, t, r) ==
  IF new = {} THEN fin
  ELSE LET nx == (UNION { Expand(c, t, r) : c \in new }) \ all
           dn == { c \in nx : c.p[t].st = "done" } IN
       Finish(all \cup nx, nx \ dn, fin \cup dn, t, r)
RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET nx == (UNION { Steps(c) : c \in new }) \ all IN Close(all \cup nx, nx)
Begin(c, t, o, a) == [c EXCEPT !.p[t] = [Idle EXCEPT !.o = o, !.a = a, !.st = "new"]]
\* a thread dies: its operation stops where it is; locks it holds are passed on (robust mutex)
Die(c, t) == [c EXCEPT !.p[t] = [Idle EXCEPT !.st = "gone"], !.dead = @ + (IF c.p[t].st = "idle" THEN 0 ELSE IF c.p[t].o = "send" THEN 2 ELSE 1),
                       !.pub = [p \in DOMAIN c.pub |-> IF c.pub[p].lock = t THEN [c.pub[p] EXCEPT !.lock = -1] ELSE c.pub[p]]]
PS_Call(S, t, o, a) == { Begin(c, t, o, a) : c \in S }
\* a loan's block is known only when it returns: it is an argument of the call event (recorded at the return)
PS_Ret(S, t, r) == LET done == { d \in S : d.p[t].st = "done" }
                       F == done \cup Finish(S \ done, S \ done, {}, t, r) IN
                   { [c EXCEPT !.p[t] = Idle] : c \in { d \in F : d.p[t].r = r } }
PS_Post(S, e) ==
  CASE e.k = "c" -> PS_Call(S, e.t, e.o, e.a)
    [] e.k = "r" -> PS_Ret(S, e.t, e.a)
    [] e.k = "die" -> { Die(c, e.t) : c \in Close(S, S) }
    [] e.k = "blocked" ->     \* these threads wait and nobody else is running: only allowed while there is no room
         { c \in Close(S, S) : \A i \in DOMAIN e.a : LegitimatelyBlocked(c, e.a[i]) }
    [] OTHER -> {}
\* ---------------------------------------------------------------- invariants of the specification
Sound(c) ==
  /\ \A s \in Subs(c) : /\ Len(c.sub[s].q) <= c.sub[s].cap
                        /\ c.sub[s].n >= 0
                        /\ Len(c.sub[s].held) <= c.k.maxHeld
  /\ \A p \in Pubs(c) : /\ Cardinality(c.pub[p].conn) <= c.k.maxSubs
                        /\ Len(c.pub[p].hist) <= c.pub[p].hcap
                        /\ (~c.pub[p].off /\ c.R = -1 => c.pub[p].conn = {})
                        /\ \A s \in c.pub[p].conn : Compatible(c, p, s) /\ c.sub[s].a # "no"
  \* the same block is never used for two live samples
  /\ \A m1, m2 \in Live(c) : m1 # m2 => c.ch[m1] # c.ch[m2]
\* when the daemon has processed everything, connections are exactly the matching ones (within the limit)
Settled(c) == c.R = -1 /\ (\A p \in Pubs(c) : c.pub[p].want = c.pub[p].off /\ c.pub[p].a = "yes")
                       /\ (\A s \in Subs(c) : c.sub[s].want = (c.sub[s].st = "sub") /\ c.sub[s].a = "yes")
Matching(c, p) == { s \in Subs(c) : c.pub[p].off /\ c.sub[s].st = "sub" /\ Compatible(c, p, s) }
ConnectedIffMatching(c) ==
  Settled(c) => \A p \in Pubs(c) : \/ c.pub[p].conn = Matching(c, p)
                                   \/ Cardinality(Matching(c, p)) > c.k.maxSubs /\ c.pub[p].conn \subseteq Matching(c, p)
=============================================================================
