------------------------------- MODULE ReqRes -------------------------------
(* Request/response as its users see it: clients, servers, the daemon that connects them and the memory of the         *)
(* messages.  Structure as in PubSub: every call is a pending operation of one or more internal steps.                  *)
(*                                                                                                                      *)
(*   cli[c]  a ("yes" | "dying" | "no"), proc, svc, cap, blk (a full response queue blocks the server), wait (it waits  *)
(*           for a full request queue), want (connect requested), st ("not" | "req" | "wait" | "conn" | "disc"),        *)
(*           conn ({} or {server}), q, held, lost, loans, last, lock                                                    *)
(*   srv[s]  a, proc, svc, cap, blk (a full request queue blocks clients), wait, want, off, conn (clients), q, n (free  *)
(*           slots of the request queue), held, lost, loans, last, lock                                                 *)
(*   ch      memory block of every message; of[m]: the client of request m; re[r]: the request answered by response r   *)
(*   R       thread inside the daemon, -1 none;  dead  blocks lost at most with operations that died half way           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Threads == 0..4
Idle == [o |-> "idle", a |-> <<>>, st |-> "idle", r |-> <<>>, m |-> 0, x |-> 0, y |-> 0, ret |-> "", todo |-> {}, todoC |-> {}, jobs |-> {},
         pst |-> "no", n |-> 0, wait |-> {}, kill |-> FALSE, new |-> <<>>]
RR_Init(cfg) == { [k |-> cfg, cli |-> <<>>, srv |-> <<>>, ch |-> <<>>, of |-> <<>>, re |-> <<>>, R |-> -1, dead |-> 0,
                   p |-> [t \in Threads |-> Idle]] }
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Range(s) == { s[i] : i \in DOMAIN s }
B(x) == IF x THEN 1 ELSE 0
RemoveOne(s, x) == LET i == CHOOSE j \in DOMAIN s : s[j] = x IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
P(c, t) == c.p[t]
St(c, t, st) == [c EXCEPT !.p[t].st = st]
Done(c, t, r) == [c EXCEPT !.p[t].st = "done", !.p[t].r = r, !.p[t].m = 0, !.p[t].pst = "no"]
Clis(c) == { x \in DOMAIN c.cli : c.cli[x].a # "no" }
Srvs(c) == { x \in DOMAIN c.srv : c.srv[x].a # "no" }
Compatible(c, x, s) == /\ c.cli[x].svc = c.srv[s].svc
                       /\ ~(~c.cli[x].wait /\ c.srv[s].blk)
                       /\ ~(~c.srv[s].wait /\ c.cli[x].blk)

\* ---------------------------------------------------------------- memory
Live(c) == (UNION { c.cli[x].loans \cup Range(c.cli[x].q) \cup Range(c.cli[x].held) : x \in Clis(c) }
            \cup UNION { c.srv[x].loans \cup Range(c.srv[x].q) \cup Range(c.srv[x].held) : x \in Srvs(c) }
            \cup { c.p[t].m : t \in Threads }) \ {0}
Kept(c) == ({ c.cli[x].last : x \in Clis(c) } \cup { c.srv[x].last : x \in Srvs(c) }) \ {0}
Blocks(c, M) == { c.ch[m] : m \in M }
Busy(c) == Cardinality({t \in Threads : c.p[t].st # "idle"})
Loan(c, t, n, max, m, b, ok) ==  \* n loans are open; ok: the state with the loan
  (IF n < max /\ b >= 0 /\ b \notin Blocks(c, Live(c)) THEN { Done([ok EXCEPT !.ch = Put(@, m, b)], t, <<1, b>>) } ELSE {})
  \cup (IF n >= max THEN { Done(c, t, <<0, 2>>) } ELSE {})
  \cup (IF Cardinality(Live(c) \cup Kept(c)) + 2 * (Busy(c) - 1) + c.dead >= c.k.chunks THEN { Done(c, t, <<0, 1>>) } ELSE {})
CLoan(c, t) == LET a == P(c, t).a IN    \* client, request, block
  Loan(c, t, Cardinality(c.cli[a[1]].loans), c.k.maxReq, a[2], a[3],
       [c EXCEPT !.cli[a[1]].loans = @ \cup {a[2]}, !.of = Put(@, a[2], a[1])])
SLoan(c, t) == LET a == P(c, t).a IN    \* server, response, block, request
  Loan(c, t, Cardinality(c.srv[a[1]].loans), c.k.maxRes, a[2], a[3],
       [c EXCEPT !.srv[a[1]].loans = @ \cup {a[2]}, !.re = Put(@, a[2], a[4])])

\* ---------------------------------------------------------------- requests
\* one request into the request queue of s: "push" -> "slot" | "slotE" -> "ok" | "evicted" | "full"
PushSteps(c, t, s) ==
  CASE P(c, t).pst = "push" ->
         (IF c.srv[s].n > 0 THEN { [c EXCEPT !.srv[s].n = @ - 1, !.p[t].pst = "slot"] } ELSE {})
         \cup (IF c.srv[s].blk THEN IF c.srv[s].n = 0 THEN { [c EXCEPT !.p[t].pst = "full"] } ELSE {}
               ELSE IF Len(c.srv[s].q) = c.srv[s].cap THEN { [c EXCEPT !.srv[s].q = Tail(@), !.p[t].pst = "slotE"] } ELSE {})
    [] P(c, t).pst \in {"slot", "slotE"} ->
         { [c EXCEPT !.srv[s].q = Append(@, P(c, t).m), !.p[t].pst = IF P(c, t).pst = "slot" THEN "ok" ELSE "evicted"] }
    [] OTHER -> {}
Pushing(c, t) == P(c, t).pst \in {"push", "slot", "slotE"}
CSend(c, t) ==    \* client, request; r = <<1>> | <<0, 1>> not connected by wish | <<0, 2>> no server
  LET x == P(c, t).a[1]  m == P(c, t).a[2]  st == P(c, t).st
      fin(d) == Done([d EXCEPT !.cli[x].last = m, !.cli[x].lock = -1], t, IF d.p[t].n > 0 THEN <<1>> ELSE <<0, 2>>) IN
  CASE st = "new" -> IF c.cli[x].want THEN { St([c EXCEPT !.cli[x].loans = @ \ {m}, !.p[t].m = m], t, "lock") }
                     ELSE { Done([c EXCEPT !.cli[x].loans = @ \ {m}], t, <<0, 1>>) }
    [] st = "lock" -> IF c.cli[x].lock # -1 THEN {}
                      ELSE IF c.cli[x].conn = {} THEN { fin(c) }
                      ELSE { St([c EXCEPT !.cli[x].lock = t, !.p[t].pst = "push", !.p[t].wait = c.cli[x].conn], t, "push") }
    [] st = "push" -> LET s == CHOOSE z \in P(c, t).wait : TRUE IN
         IF Pushing(c, t) THEN PushSteps(c, t, s)
         ELSE IF P(c, t).pst = "ok" THEN { fin([c EXCEPT !.p[t].n = 1]) }
         ELSE IF P(c, t).pst = "evicted" THEN { fin([c EXCEPT !.p[t].n = 1, !.srv[s].lost = TRUE]) }
         ELSE { St([c EXCEPT !.cli[x].lock = -1], t, "wait") }
    [] st = "wait" -> LET s == CHOOSE z \in P(c, t).wait : TRUE IN
         IF c.cli[x].lock # -1 THEN {}
         ELSE IF s \notin c.cli[x].conn THEN { fin(c) }
         ELSE IF c.srv[s].n > 0 THEN { St([c EXCEPT !.cli[x].lock = t, !.srv[s].n = @ - 1, !.p[t].pst = "slot"], t, "push") }
         ELSE {}
CDrop(c, t) == LET x == P(c, t).a[1]  m == P(c, t).a[2] IN { Done([c EXCEPT !.cli[x].loans = @ \ {m}], t, <<>>) }
SDrop(c, t) == LET x == P(c, t).a[1]  m == P(c, t).a[2] IN { Done([c EXCEPT !.srv[x].loans = @ \ {m}], t, <<>>) }
STake(c, t) ==    \* r = <<request, its sequence id>> | <<0>> none | <<-1>> too many held | <<-2>> none and not offered
  LET s == P(c, t).a[1]  none == { Done(c, t, IF c.srv[s].want THEN <<0>> ELSE <<-2>>) } IN
  CASE P(c, t).st = "new" ->
         IF c.srv[s].q = <<>> THEN { St(c, t, "none") }
         ELSE { St([c EXCEPT !.srv[s].q = Tail(@), !.p[t].m = Head(c.srv[s].q)], t, "taken") }
    [] P(c, t).st = "none" -> none
    [] P(c, t).st = "taken" ->
         LET m == P(c, t).m  d == [c EXCEPT !.srv[s].n = @ + 1] IN
         IF Len(c.srv[s].held) >= c.k.heldS THEN { Done(d, t, IF c.srv[s].want THEN <<-1>> ELSE <<-2>>) }
         ELSE { Done([d EXCEPT !.srv[s].held = Append(@, m)], t, <<m, m>>) }
SRel(c, t) == LET s == P(c, t).a[1]  m == P(c, t).a[2] IN
  IF m \in Range(c.srv[s].held) THEN { Done([c EXCEPT !.srv[s].held = RemoveOne(@, m)], t, <<m>>) } ELSE {}
SClear(c, t) == LET s == P(c, t).a[1] IN
  CASE P(c, t).st = "new" -> IF c.srv[s].q = <<>> THEN { Done(c, t, <<>>) }
                             ELSE { St([c EXCEPT !.srv[s].q = Tail(@), !.p[t].m = Head(c.srv[s].q)], t, "cl") }
    [] P(c, t).st = "cl" -> { St([c EXCEPT !.srv[s].n = @ + 1, !.p[t].m = 0], t, "new") }

\* ---------------------------------------------------------------- responses
SSend(c, t) ==    \* server, response; r = <<1>> | <<0, 1>> not offered | <<0, 2>> client gone
  LET s == P(c, t).a[1]  m == P(c, t).a[2]  st == P(c, t).st  x == c.of[c.re[m]]
      fin(d, r) == Done([d EXCEPT !.srv[s].last = m], t, r) IN
  CASE st = "new" -> IF c.srv[s].want THEN { St(c, t, "look") } ELSE { Done([c EXCEPT !.srv[s].loans = @ \ {m}], t, <<0, 1>>) }
    [] st = "look" -> IF c.srv[s].lock # -1 THEN {}
                      ELSE IF x \in c.srv[s].conn THEN { St([c EXCEPT !.srv[s].loans = @ \ {m}, !.p[t].m = m], t, "dl") }
                      ELSE { Done([c EXCEPT !.srv[s].loans = @ \ {m}], t, <<0, 2>>) }
    [] st = "dl" -> IF c.srv[s].lock # -1 THEN {}
                    ELSE IF x \notin c.srv[s].conn THEN { fin(c, <<0, 2>>) }
                    ELSE LET d == St([c EXCEPT !.srv[s].lock = t], t, "slot") IN
                         (IF c.cli[x].n > 0 THEN { [d EXCEPT !.cli[x].n = @ - 1] } ELSE {})
                         \cup (IF ~c.cli[x].blk /\ Len(c.cli[x].q) = c.cli[x].cap THEN { St([d EXCEPT !.cli[x].q = Tail(@)], t, "slotE") } ELSE {})
    [] st = "slot" -> { fin([c EXCEPT !.srv[s].lock = -1, !.cli[x].q = Append(@, m)], <<1>>) }
    [] st = "slotE" -> { St([c EXCEPT !.cli[x].q = Append(@, m)], t, "lost") }
    [] st = "lost" -> { fin([c EXCEPT !.srv[s].lock = -1, !.cli[x].lost = TRUE], <<1>>) }
CTake(c, t) ==    \* r = <<response, sequence id>> | <<0>> | <<-1>>
  LET x == P(c, t).a[1] IN
  CASE P(c, t).st = "new" ->
         IF c.cli[x].q = <<>> THEN { Done(c, t, <<0>>) }
         ELSE { St([c EXCEPT !.cli[x].q = Tail(@), !.p[t].m = Head(c.cli[x].q)], t, "taken") }
    [] P(c, t).st = "taken" ->
         LET m == P(c, t).m  d == [c EXCEPT !.cli[x].n = @ + 1] IN
         IF Len(c.cli[x].held) >= c.k.heldC THEN { Done(d, t, <<-1>>) }
         ELSE { Done([d EXCEPT !.cli[x].held = Append(@, m)], t, <<m, c.re[m]>>) }
CRel(c, t) == LET x == P(c, t).a[1]  m == P(c, t).a[2] IN
  IF m \in Range(c.cli[x].held) THEN { Done([c EXCEPT !.cli[x].held = RemoveOne(@, m)], t, <<m>>) } ELSE {}
CClear(c, t) == LET x == P(c, t).a[1] IN
  CASE P(c, t).st = "new" -> IF c.cli[x].q = <<>> THEN { Done(c, t, <<>>) }
                             ELSE { St([c EXCEPT !.cli[x].q = Tail(@), !.p[t].m = Head(c.cli[x].q)], t, "cl") }
    [] P(c, t).st = "cl" -> { St([c EXCEPT !.cli[x].n = @ + 1, !.p[t].m = 0], t, "new") }
CMissed(c, t) == LET x == P(c, t).a[1] IN
  IF P(c, t).st = "new" THEN { IF c.cli[x].lost THEN St(c, t, "clr") ELSE Done(c, t, <<0>>) }
  ELSE { Done([c EXCEPT !.cli[x].lost = FALSE], t, <<1>>) }
SMissed(c, t) == LET x == P(c, t).a[1] IN
  IF P(c, t).st = "new" THEN { IF c.srv[x].lost THEN St(c, t, "clr") ELSE Done(c, t, <<0>>) }
  ELSE { Done([c EXCEPT !.srv[x].lost = FALSE], t, <<1>>) }

LegitimatelyBlocked(c, t) ==
  LET a == P(c, t).a IN
  \/ /\ P(c, t).o = "cSend" /\ P(c, t).st = "wait" /\ c.cli[a[1]].lock = -1 /\ P(c, t).wait \subseteq c.cli[a[1]].conn
     /\ \A s \in P(c, t).wait : c.srv[s].n = 0
  \/ /\ P(c, t).o = "sSend" /\ P(c, t).st = "dl" /\ c.srv[a[1]].lock = -1
     /\ LET x == c.of[c.re[a[2]]] IN x \in c.srv[a[1]].conn /\ c.cli[x].blk /\ c.cli[x].n = 0

\* ---------------------------------------------------------------- the daemon
\* x: the server or client at work; y: the other side; ret: where to go on afterwards
Works(c, t, st) == [St(c, t, st) EXCEPT !.p[t].jobs = {}]
Leave(c, t) == Done([c EXCEPT !.R = -1], t, IF P(c, t).o \in {"createSrv", "createCli"} THEN <<1>> ELSE <<>>)
NewSrv(a) == [a |-> "yes", proc |-> a[2], svc |-> a[3], cap |-> a[4], want |-> a[5] = 1, blk |-> a[6] = 1, wait |-> a[7] = 1, off |-> FALSE,
              conn |-> {}, q |-> <<>>, n |-> a[4], held |-> <<>>, lost |-> FALSE, loans |-> {}, last |-> 0, lock |-> -1]
NewCli(a) == [a |-> "yes", proc |-> a[2], svc |-> a[3], cap |-> a[4], want |-> a[5] = 1, blk |-> a[6] = 1, wait |-> a[7] = 1, st |-> "not",
              conn |-> {}, q |-> <<>>, n |-> a[4], held |-> <<>>, lost |-> FALSE, loans |-> {}, last |-> 0, lock |-> -1]
\* connect client y's or x's side: server first, then the client
DaemonStep(c, t) ==
  LET st == P(c, t).st  x == P(c, t).x  y == P(c, t).y IN
  CASE st = "V" ->                          \* servers
         IF P(c, t).todo = {}
         THEN IF P(c, t).new # <<>> THEN { St([c EXCEPT !.srv = Put(@, P(c, t).new[1], NewSrv(P(c, t).new)), !.p[t].todo = {P(c, t).new[1]}, !.p[t].new = <<>>, !.p[t].kill = FALSE], t, "V") }
              ELSE { St(c, t, "C") }
         ELSE { St([c EXCEPT !.p[t].todo = @ \ {s}, !.p[t].x = s, !.p[t].y = 0], t, IF P(c, t).kill THEN "Vd" ELSE "Vx") : s \in P(c, t).todo }
    [] st = "Vx" ->
         IF c.srv[x].want /\ ~c.srv[x].off
         THEN { St([c EXCEPT !.srv[x].off = TRUE, !.p[t].jobs = { z \in Clis(c) : Compatible(c, z, x) /\ c.cli[z].st = "wait" }], t, "Vc") }
         ELSE IF ~c.srv[x].want /\ c.srv[x].off
         THEN { St([c EXCEPT !.srv[x].off = FALSE], t, "Vo") }
         ELSE { St(c, t, "Vd") }
    [] st = "Vo" -> IF c.srv[x].lock # -1 THEN {}
                    ELSE { St([c EXCEPT !.srv[x].conn = {},
                                  !.p[t].jobs = { z \in Clis(c) : Compatible(c, z, x) /\ c.cli[z].st = "conn" }], t, "Vs") }
    [] st = "Vc" -> IF P(c, t).jobs = {} THEN { St(c, t, "Vd") }
                    ELSE { St([c EXCEPT !.p[t].jobs = @ \ {z}, !.p[t].y = x, !.p[t].x = z, !.p[t].ret = "Vc"], t, "K1") : z \in P(c, t).jobs }
    [] st = "Vs" -> IF P(c, t).jobs = {} THEN { St(c, t, "Vd") }
                    ELSE { St([c EXCEPT !.p[t].jobs = @ \ {z}, !.p[t].y = z, !.cli[z].st = "wait"], t, "Vt") : z \in P(c, t).jobs }
    [] st = "Vt" -> IF c.cli[y].lock # -1 THEN {} ELSE { St([c EXCEPT !.cli[y].conn = {}], t, "Vs") }
    [] st = "Vd" -> IF c.srv[x].a # "dying" \/ P(c, t).o = "unblock" THEN { St(c, t, "V") }
                    ELSE IF c.srv[x].off THEN { St([c EXCEPT !.srv[x].want = FALSE], t, "Vx") }
                    ELSE IF c.srv[x].lock # -1 THEN {}
                    ELSE { St([c EXCEPT !.srv[x].a = "no", !.srv[x].conn = {}, !.srv[x].q = <<>>, !.srv[x].held = <<>>, !.srv[x].loans = {}, !.srv[x].last = 0], t, "V") }
    \* client x connects to server y: accepted if it is offered and has room
    [] st = "K1" -> IF c.srv[y].lock # -1 THEN {}
                    ELSE IF c.srv[y].off /\ (x \in c.srv[y].conn \/ Cardinality(c.srv[y].conn) < c.k.maxClients)
                    THEN { St([c EXCEPT !.srv[y].conn = @ \cup {x}], t, "K2") } ELSE { St([c EXCEPT !.cli[x].st = "wait"], t, "K4") }
    [] st = "K2" -> IF c.cli[x].lock # -1 THEN {} ELSE { St([c EXCEPT !.cli[x].conn = {y}], t, "K3") }
    [] st = "K3" -> { St([c EXCEPT !.cli[x].st = "conn"], t, "K4") }
    [] st = "K4" -> IF P(c, t).ret = "Vc" THEN { St([c EXCEPT !.p[t].x = y], t, "Vc") } ELSE { St(c, t, "Cd") }
    [] st = "C" ->                          \* clients
         IF P(c, t).todoC = {} THEN { Leave(c, t) }
         ELSE { St([c EXCEPT !.p[t].todoC = @ \ {z}, !.p[t].x = z, !.p[t].y = 0], t, IF P(c, t).kill THEN "Cd" ELSE "Cx") : z \in P(c, t).todoC }
    [] st = "Cx" ->
         LET V == { s \in Srvs(c) : Compatible(c, x, s) } IN
         IF c.cli[x].want /\ c.cli[x].st = "not"
         THEN IF V = {} THEN { St([c EXCEPT !.cli[x].st = "wait"], t, "Cd") }
              ELSE { St([c EXCEPT !.cli[x].st = "req", !.p[t].y = s, !.p[t].ret = "Cd"], t, "K1") : s \in V }
         ELSE IF ~c.cli[x].want /\ c.cli[x].st = "wait" THEN { St([c EXCEPT !.cli[x].st = "not"], t, "Cd") }
         ELSE IF ~c.cli[x].want /\ c.cli[x].st = "conn" THEN { St([c EXCEPT !.cli[x].st = "disc", !.p[t].jobs = V], t, "D1") }
         ELSE { St(c, t, "Cd") }
    [] st = "D1" -> IF c.cli[x].lock # -1 THEN {} ELSE { St([c EXCEPT !.cli[x].conn = {}], t, "D2") }
    [] st = "D2" -> IF P(c, t).jobs = {} THEN { St([c EXCEPT !.cli[x].st = "not"], t, "Cd") }
                    ELSE { St([c EXCEPT !.p[t].jobs = @ \ {s}, !.srv[s].conn = IF c.srv[s].off THEN @ \ {x} ELSE @], t, "D2") : s \in { z \in P(c, t).jobs : c.srv[z].lock = -1 } }
    [] st = "Cd" -> IF c.cli[x].a # "dying" \/ P(c, t).o = "unblock" THEN { St(c, t, "C") }
                    ELSE IF c.cli[x].want \/ c.cli[x].st # "not" THEN { St([c EXCEPT !.cli[x].want = FALSE], t, IF c.cli[x].st = "not" THEN "Cd" ELSE "Cx") }
                    ELSE IF c.cli[x].lock # -1 THEN {}
                    ELSE { St([c EXCEPT !.cli[x].a = "no", !.cli[x].conn = {}, !.cli[x].q = <<>>, !.cli[x].held = <<>>, !.cli[x].loans = {}, !.cli[x].last = 0], t, "C") }
\* steps without an effect of their own are taken at once
NothingV(c, t, s) == LET v == c.srv[s] IN v.a = "yes" /\ (P(c, t).kill \/ v.want = v.off)
NothingC(c, t, x) == LET v == c.cli[x] IN v.a = "yes" /\ (P(c, t).kill \/ v.want = (v.st # "not"))
Others(c, t) == \E u \in Threads \ {t} : c.p[u].st \notin {"idle", "done", "gone"}
Prune(c, t) ==
  IF Others(c, t) THEN c
  ELSE IF P(c, t).st = "V" THEN [c EXCEPT !.p[t].todo = { s \in @ : ~NothingV(c, t, s) }]
  ELSE IF P(c, t).st = "C" THEN [c EXCEPT !.p[t].todoC = { s \in @ : ~NothingC(c, t, s) }]
  ELSE c
RECURSIVE Run(_, _)
Run(c0, t) ==
  LET c == Prune(c0, t)  st == P(c, t).st
      one == LET N == DaemonStep(c, t) IN UNION { Run(d, t) : d \in N } IN
  IF st \in {"Vs", "Vc", "D2"} /\ P(c, t).jobs = {} /\ st # "D2" THEN one
  ELSE IF st = "K4" \/ (st = "V" /\ P(c, t).todo = {}) \/ (st = "C" /\ P(c, t).todoC = {}) THEN one
  ELSE IF st = "Vd" /\ c.srv[P(c, t).x].a = "yes" /\ ~Others(c, t) THEN one
  ELSE IF st = "Cd" /\ c.cli[P(c, t).x].a = "yes" /\ ~Others(c, t) THEN one
  ELSE {c}
DaemonSteps(c, t) == UNION { Run(d, t) : d \in DaemonStep(c, t) }
Enter(c, t, d, todo, todoC, kill) ==
  IF c.R # -1 THEN {} ELSE Run(St([d EXCEPT !.R = t, !.p[t].todo = todo, !.p[t].todoC = todoC, !.p[t].kill = kill], t, "V"), t)
CreateSrv(c, t) ==   \* id, proc, svc, cap, offer, block, wait;  r = <<1>> | <<0>> refused
  LET a == P(c, t).a  same == { s \in Srvs(c) : c.srv[s].svc = a[3] } IN
  IF c.R # -1 THEN {}
  ELSE IF \E s \in same : c.srv[s].a = "yes" THEN { Done(c, t, <<0>>) }
  ELSE IF Cardinality(Srvs(c) \ same) >= c.k.maxSrv THEN { Done(c, t, <<0>>) }
  ELSE Enter(c, t, [c EXCEPT !.p[t].new = a], same, {}, TRUE)
CreateCli(c, t) ==
  LET a == P(c, t).a IN
  IF c.R # -1 THEN {}
  ELSE IF Cardinality(Clis(c)) >= c.k.maxCli THEN { Done(c, t, <<0>>) }
  ELSE Enter(c, t, [c EXCEPT !.cli = Put(@, a[1], NewCli(a))], {}, {a[1]}, FALSE)
Discover(c, t) == Enter(c, t, c, Srvs(c), Clis(c), FALSE)
Unblock(c, t) ==
  LET M == { s \in Srvs(c) : c.srv[s].proc = P(c, t).a[1] } IN
  Enter(c, t, [c EXCEPT !.srv = [s \in DOMAIN c.srv |-> IF s \in M THEN [c.srv[s] EXCEPT !.want = FALSE] ELSE c.srv[s]]], M, {}, FALSE)
Cleanup(c, t) ==
  LET z == P(c, t).a[1]  M == { s \in Srvs(c) : c.srv[s].proc = z }  N == { x \in Clis(c) : c.cli[x].proc = z } IN
  Enter(c, t, [c EXCEPT !.srv = [s \in DOMAIN c.srv |-> IF s \in M THEN [c.srv[s] EXCEPT !.a = "dying"] ELSE c.srv[s]],
                        !.cli = [x \in DOMAIN c.cli |-> IF x \in N THEN [c.cli[x] EXCEPT !.a = "dying"] ELSE c.cli[x]]], M, N, TRUE)

\* ---------------------------------------------------------------- all operations
StepsOf(c, t) ==
  LET o == P(c, t).o  st == P(c, t).st  a == P(c, t).a IN
  CASE st \in {"idle", "done", "gone"} -> {}
    [] o = "cLoan" -> CLoan(c, t)
    [] o = "sLoan" -> SLoan(c, t)
    [] o = "cSend" -> CSend(c, t)
    [] o = "sSend" -> SSend(c, t)
    [] o = "cDrop" -> CDrop(c, t)
    [] o = "sDrop" -> SDrop(c, t)
    [] o = "cTake" -> CTake(c, t)
    [] o = "sTake" -> STake(c, t)
    [] o = "cRel" -> CRel(c, t)
    [] o = "sRel" -> SRel(c, t)
    [] o = "cClear" -> CClear(c, t)
    [] o = "sClear" -> SClear(c, t)
    [] o = "cMissed" -> CMissed(c, t)
    [] o = "sMissed" -> SMissed(c, t)
    [] o = "cHas" -> { Done(c, t, <<B(c.cli[a[1]].q # <<>>)>>) }
    [] o = "sHas" -> { Done(c, t, <<B(c.srv[a[1]].q # <<>>)>>) }
    [] o = "connect" -> { Done([c EXCEPT !.cli[a[1]].want = TRUE], t, <<>>) }
    [] o = "disconnect" -> { Done([c EXCEPT !.cli[a[1]].want = FALSE], t, <<>>) }
    [] o = "cState" -> { Done(c, t, <<B(c.cli[a[1]].st = "conn")>>) }
    [] o = "offer" -> { Done([c EXCEPT !.srv[a[1]].want = TRUE], t, <<>>) }
    [] o = "stopOffer" -> { Done([c EXCEPT !.srv[a[1]].want = FALSE], t, <<>>) }
    [] o = "isOffered" -> { Done(c, t, <<B(c.srv[a[1]].want)>>) }
    [] o = "hasClients" -> IF c.srv[a[1]].lock = -1 THEN { Done(c, t, <<B(c.srv[a[1]].conn # {})>>) } ELSE {}
    [] o = "destroySrv" -> { Done([c EXCEPT !.srv[a[1]].a = "dying"], t, <<>>) }
    [] o = "destroyCli" -> { Done([c EXCEPT !.cli[a[1]].a = "dying"], t, <<>>) }
    [] o = "used" -> { Done(c, t, <<k>>) : k \in Cardinality(Blocks(c, Live(c)))..(Cardinality(Blocks(c, Live(c) \cup Kept(c))) + c.dead) }
    [] o = "createSrv" /\ st = "new" -> CreateSrv(c, t)
    [] o = "createCli" /\ st = "new" -> CreateCli(c, t)
    [] o = "discover" /\ st = "new" -> Discover(c, t)
    [] o = "unblock" /\ st = "new" -> Unblock(c, t)
    [] o = "cleanup" /\ st = "new" -> Cleanup(c, t)
    [] OTHER -> DaemonSteps(c, t)
Steps(c) == UNION { StepsOf(c, t) : t \in {u \in Threads : c.p[u].st \notin {"idle", "done", "gone"}} }
Pending(c) == { u \in Threads : c.p[u].st \notin {"idle", "done", "gone"} }
Expand(c, t, r) ==
  IF P(c, t).o \in {"cLoan", "sLoan"} /\ \E d \in StepsOf(c, t) : d.p[t].r = r THEN StepsOf(c, t) ELSE UNION { StepsOf(c, u) : u \in Pending(c) }
RECURSIVE Finish(_, _, _, _, _)     \* all states in which t is done, reached with t's own last step
Finish(all, new, fin, t, r) ==
  IF new = {} THEN fin
  ELSE LET nx == (UNION { Expand(c, t, r) : c \in new }) \ all
           dn == { c \in nx : c.p[t].st = "done" } IN
       Finish(all \cup nx, nx \ dn, fin \cup dn, t, r)
RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET nx == (UNION { Steps(c) : c \in new }) \ all IN Close(all \cup nx, nx)
Begin(c, t, o, a) == [c EXCEPT !.p[t] = [Idle EXCEPT !.o = o, !.a = a, !.st = "new"]]
Die(c, t) == [c EXCEPT !.p[t] = [Idle EXCEPT !.st = "gone"], !.dead = @ + (IF c.p[t].st = "idle" THEN 0 ELSE IF c.p[t].o \in {"cSend", "sSend"} THEN 2 ELSE 1),
                       !.cli = [x \in DOMAIN c.cli |-> IF c.cli[x].lock = t THEN [c.cli[x] EXCEPT !.lock = -1] ELSE c.cli[x]],
                       !.srv = [x \in DOMAIN c.srv |-> IF c.srv[x].lock = t THEN [c.srv[x] EXCEPT !.lock = -1] ELSE c.srv[x]]]
RR_Ret(S, t, r) == LET done == { d \in S : d.p[t].st = "done" }
                       F == done \cup Finish(S \ done, S \ done, {}, t, r) IN
                   { [c EXCEPT !.p[t] = Idle] : c \in { d \in F : d.p[t].r = r } }
RR_Post(S, e) ==
  CASE e.k = "c" -> { Begin(c, e.t, e.o, e.a) : c \in S }
    [] e.k = "r" -> RR_Ret(S, e.t, e.a)
    [] e.k = "die" -> { Die(c, e.t) : c \in Close(S, S) }
    [] e.k = "blocked" -> { c \in Close(S, S) : \A i \in DOMAIN e.a : LegitimatelyBlocked(c, e.a[i]) }
    [] OTHER -> {}
\* ---------------------------------------------------------------- invariants of the specification
Sound(c) ==
  /\ \A x \in Clis(c) : Len(c.cli[x].q) <= c.cli[x].cap /\ c.cli[x].n >= 0 /\ Cardinality(c.cli[x].conn) <= 1 /\ Len(c.cli[x].held) <= c.k.heldC
  /\ \A s \in Srvs(c) : /\ Len(c.srv[s].q) <= c.srv[s].cap /\ c.srv[s].n >= 0 /\ Cardinality(c.srv[s].conn) <= c.k.maxClients
                        /\ (~c.srv[s].off /\ c.R = -1 => c.srv[s].conn = {})
                        /\ \A s2 \in Srvs(c) : s # s2 => c.srv[s].svc # c.srv[s2].svc
  \* only answers to own requests, only requests of clients of the same service
  /\ \A x \in Clis(c) : \A i \in DOMAIN c.cli[x].q : c.of[c.re[c.cli[x].q[i]]] = x
  /\ \A s \in Srvs(c) : \A i \in DOMAIN c.srv[s].q : c.cli[c.of[c.srv[s].q[i]]].svc = c.srv[s].svc
  /\ \A m1, m2 \in Live(c) : m1 # m2 => c.ch[m1] # c.ch[m2]
Settled(c) == c.R = -1 /\ (\A s \in Srvs(c) : c.srv[s].want = c.srv[s].off /\ c.srv[s].a = "yes")
                       /\ (\A x \in Clis(c) : c.cli[x].want = (c.cli[x].st # "not") /\ c.cli[x].a = "yes")
Agree(c) == Settled(c) => \A x \in Clis(c) :
   /\ (c.cli[x].st = "conn") <=> (\E s \in Srvs(c) : c.cli[x].conn = {s} /\ x \in c.srv[s].conn /\ c.srv[s].off /\ Compatible(c, x, s))
   /\ c.cli[x].st # "conn" => c.cli[x].conn = {} /\ \A s \in Srvs(c) : x \notin c.srv[s].conn
=============================================================================
