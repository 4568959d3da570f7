------------------------------- MODULE Procs -------------------------------
(* The daemon as its applications see it: which processes it knows, what belongs to them, what it reports.             *)
(* procs: name -> [pid, last: time of the last sign of life, beats: it can still give one].                            *)
(* ports: number -> [k: kind, p: owner, s: service, del: -1 or the time it was given up, want: subscribed, l: loans].   *)
(* A process is removed some time after it was silent for longer than the timeout; a port which was given up some time *)
(* later. Both within Slack. The last argument of every call is its time in milliseconds.                              *)
EXTENDS Integers, Sequences, FiniteSets, Lin
PR_L0 == 0
Slack == 250
PUB == 1
SUB == 2
SRV == 3
PR_Init(cfg) == {[cfg |-> cfg, procs |-> <<>>, ports |-> <<>>, fresh |-> {}, next |-> 0]}
PR_Without(f, X) == [n \in DOMAIN f \ X |-> f[n]]
PR_Remove(o, X) == [o EXCEPT !.procs = PR_Without(@, X), !.ports = PR_Without(@, {n \in DOMAIN @ : @[n].p \in X})]
\* by time t ...
PR_Clean(o, t) == [o EXCEPT !.ports = PR_Without(@, {n \in DOMAIN @ : @[n].del # -1 /\ t - @[n].del > Slack})]
PR_Tick(o, t) ==
  IF o.cfg.mon = 0 THEN {PR_Clean(o, t)}
  ELSE LET silent(d) == {n \in DOMAIN o.procs : t - o.procs[n].last > d}
           must == silent(o.cfg.timeout + Slack)
           may == silent(o.cfg.timeout) \ must
       IN {PR_Clean(PR_Remove(o, must \cup X), t) : X \in SUBSET may}
\* time passes from a to b, with signs of life every 100 ms or without
PR_Pass(o, a, b, beats) ==
  LET o2 == IF beats THEN [o EXCEPT !.procs = [n \in DOMAIN @ |->
                   IF @[n].beats /\ a - @[n].last < o.cfg.timeout THEN [@[n] EXCEPT !.last = b - 100] ELSE [@[n] EXCEPT !.beats = FALSE]]]
            ELSE o
  IN UNION {PR_Tick(o3, b) : o3 \in PR_Tick(o2, a)}
\* version: 0 same, 1 patch, 2 minor, 3 major, 4 tweak, 5 build date, 6 unreadable, 7 commit
PR_Fits(level, v) ==
  CASE level = 0 -> TRUE
    [] level = 1 -> v \notin {3, 6}
    [] level = 2 -> v \notin {2, 3, 6}
    [] level = 3 -> v \notin {1, 2, 3, 6}
    [] level = 4 -> v \notin {1, 2, 3, 4, 6, 7}
    [] OTHER -> v = 0
PR_Kind(o, k) == {n \in DOMAIN o.ports : o.ports[n].k = k}
PR_Live(o, X) == {n \in X : o.ports[n].del = -1}
RECURSIVE PR_Less(_, _)
PR_Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE PR_Less(Tail(a), Tail(b))
\* elements: set of <<number, tuple>>, in the order of the tuples
RECURSIVE PR_Flat(_)
PR_Flat(X) == IF X = {} THEN <<>>
              ELSE LET m == CHOOSE x \in X : \A y \in X \ {x} : PR_Less(x[2], y[2]) \/ (x[2] = y[2] /\ x[1] < y[1])
                   IN m[2] \o PR_Flat(X \ {m})
PR_List(o) == PR_Flat({<<n, <<n, o.ports[n].k, o.ports[n].p, o.ports[n].s>>>> : n \in DOMAIN o.ports})
RECURSIVE PR_Sum(_, _, _)
PR_Sum(o, X, i) == IF X = {} THEN 0 ELSE LET n == CHOOSE n \in X : TRUE IN o.ports[n].l[i] + PR_Sum(o, X \ {n}, i)
PR_Report(o) ==
  LET P == PR_Flat({<<n, <<n, o.procs[n].pid>>>> : n \in DOMAIN o.procs})
      Q == PR_Flat({<<n, LET z == o.ports[n] IN IF z.k = PUB THEN <<PUB, z.p, z.s, n, 0>> ELSE <<SUB, z.p, z.s, 0, 2>>>> :
                     n \in PR_Kind(o, PUB) \cup PR_Kind(o, SUB)})
      S == PR_Flat({<<n, <<o.ports[n].p, o.ports[n].s, L_Bool(o.ports[n].want)>>>> : n \in PR_Kind(o, SUB)})
      pool(i) == <<1, o.cfg.pools[i][1], o.cfg.pools[i][2], PR_Sum(o, DOMAIN o.ports, i)>>
  IN <<Len(P) + 2, 0, 0>> \o P \o <<Len(Q)>> \o Q \o <<Len(S)>> \o S \o <<1>> \o pool(1) \o pool(2)
PR_Do(o, t, q) ==
  LET x == q.a
      now == x[Len(x)]
      n == x[1]
      end(o2, r) == {L_End(o2, q, r)}
      known == n \in DOMAIN o.procs
      stale == n \in o.fresh
      set(f, v) == [o EXCEPT !.ports[n] = [@ EXCEPT ![f] = v]]
  IN
  CASE q.op = "start" -> end([o EXCEPT !.fresh = @ \cup {n}], <<1>>)
    [] q.op = "crash" -> end(IF known THEN [o EXCEPT !.procs[n].beats = FALSE] ELSE o, <<>>)
    [] q.op = "beat" -> end(IF known THEN [o EXCEPT !.procs[n].last = now] ELSE o, <<>>)
    [] q.op = "reg" ->
         (LET o2 == PR_Remove(o, {n})
              o3 == [o2 EXCEPT !.procs = L_Put(@, n, [pid |-> x[2], last |-> now, beats |-> TRUE]), !.fresh = @ \ {n}]
          IN IF ~PR_Fits(o.cfg.level, x[3]) \/ Cardinality(DOMAIN o2.procs) >= o.cfg.procs THEN end(o2, <<>>) ELSE end(o3, <<1>>))
    [] q.op = "create" ->
         (LET k == x[2]
              \* a server which was given up makes room
              o2 == IF k = SRV THEN [o EXCEPT !.ports = PR_Without(@, {m \in PR_Kind(o, SRV) : o.ports[m].s = x[3] /\ o.ports[m].del # -1})] ELSE o
              all == PR_Kind(o2, k)
              live == PR_Live(o2, all)
              port == [k |-> k, p |-> n, s |-> IF k > 4 THEN 0 ELSE x[3], del |-> -1, want |-> k = SUB /\ x[4] = 1, l |-> <<0, 0>>]
          IN IF ~known THEN end(o, <<>>)
             ELSE IF k = SRV /\ \E m \in live : o2.ports[m].s = x[3] THEN end(o2, <<0, 1>>)
             ELSE (IF Cardinality(all) >= o.cfg.max[k] THEN end(o2, <<0, 1>>) ELSE {})
                  \cup (IF Cardinality(live) < o.cfg.max[k] THEN {L_Go([o2 EXCEPT !.ports = L_Put(@, 0 - (t + 1), port)], q, "name")} ELSE {}))
    [] q.op = "term" -> end([PR_Remove(o, {n}) EXCEPT !.fresh = @ \cup {n}], IF stale THEN <<9>> ELSE <<L_Bool(known)>>)
    [] q.op = "prep" -> end(o, IF stale THEN <<9>> ELSE <<L_Bool(known)>>)
    [] q.op = "odd" -> end(o, <<L_Bool(known /\ x[2] \in {0, 11})>>)
    [] q.op = "wait" -> {L_End(o2, q, <<>>) : o2 \in PR_Pass(o, now, now + x[1], x[2] = 1)}
    [] q.op = "list" -> {L_End(o2, q, PR_List(o2)) : o2 \in PR_Pass(o, now, now + 300, FALSE)}
    [] q.op = "report" -> {L_End(o2, q, PR_Report(o2)) : o2 \in PR_Pass(o, now, now + 3300, TRUE)}
    [] q.op = "shutdown" -> end(o, L_Sorted({o.procs[m].pid : m \in DOMAIN o.procs}))
    [] n \notin DOMAIN o.ports -> {}
    [] q.op = "destroy" -> end(set("del", now), <<>>)
    [] q.op \in {"offer", "stop"} -> end(o, <<>>)
    [] q.op = "subscribe" -> end(set("want", TRUE), <<>>)
    [] q.op = "unsubscribe" -> end(set("want", FALSE), <<>>)
    [] q.op = "loan" ->
         (LET i == x[2] + 1
              cap == o.cfg.pools[i][1]
              mine == o.ports[n].l[1] + o.ports[n].l[2]
          IN (IF mine >= o.cfg.loans \/ PR_Sum(o, DOMAIN o.ports, i) >= cap THEN end(o, <<0>>) ELSE {})
             \cup (IF mine < o.cfg.loans /\ PR_Sum(o, PR_Live(o, DOMAIN o.ports), i) < cap
                   THEN end([o EXCEPT !.ports[n].l[i] = @ + 1], <<1>>) ELSE {}))
    \* the last one taken: x[2] says of which pool
    [] q.op = "release" -> end([o EXCEPT !.ports[n].l[x[2] + 1] = @ - 1], <<>>)
    [] OTHER -> {}
PR_Step(o, t, q) ==
  IF q.pc = "name" THEN
    \* the daemon's answer arrives; the port may be gone again
    LET k == 0 - (t + 1)
        o2 == [o EXCEPT !.next = @ + 1]
    IN {L_End(IF k \in DOMAIN o.ports THEN [o2 EXCEPT !.ports = L_Put(PR_Without(@, {k}), o.next + 1, o.ports[k])] ELSE o2, q, <<1, o.next + 1>>)}
  ELSE IF q.pc # "start" THEN {}
  ELSE UNION {PR_Do(o2, t, q) : o2 \in PR_Tick(o, q.a[Len(q.a)])}
PR_Observe(o, e) == FALSE
============================================================================
