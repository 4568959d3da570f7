------------------------------ MODULE CondVar ------------------------------
(* A condition variable with named origins: act = origins that notified and were not reported yet, sem = posts not    *)
(* consumed, flag = the hint that something happened, dead = the listening side was told to end.  A notification is   *)
(* two steps: it becomes visible, and it is posted.  The one listening thread collects over some time (open):         *)
(* notifications that come meanwhile may or may not be part of what it got.                                           *)
(* Answer of wait: <<1 if the deadline passed, origins ...>>; a deadline exists for timedWait only.                   *)
EXTENDS Lin
CV_L0 == [last |-> FALSE, tm |-> 0]
CV_Init(cfg) == {[act |-> {}, got |-> {}, open |-> FALSE, sem |-> 0, flag |-> FALSE, half |-> 0, dead |-> FALSE]}
CV_Step(o, t, q) ==
  LET go(o2, pc) == L_Go(o2, q, pc)
      with(o2, pc, l) == [o |-> o2, q |-> [q EXCEPT !.pc = pc, !.l = l]]
      isWait == q.op \in {"wait", "timedWait"}
      post(o2) == [o2 EXCEPT !.sem = IF @ < 3 THEN @ + 1 ELSE @]
      \* starts to collect, or ends because it was told so
      collect(o2, last, tm) == IF o2.dead THEN {L_End(o2, q, <<tm>>)}
                               ELSE {with([o2 EXCEPT !.got = o2.act, !.act = {}, !.open = TRUE, !.flag = FALSE], "collect",
                                          [last |-> last, tm |-> tm])}
  IN
  CASE q.op = "notify" /\ q.pc = "start" ->
         {go([o EXCEPT !.act = @ \cup {q.a[1]}, !.half = @ + 1], "post")}
         \cup (IF o.open THEN {go([o EXCEPT !.got = @ \cup {q.a[1]}, !.half = @ + 1], "post")} ELSE {})
    [] q.op = "notify" /\ q.pc = "post" -> {L_End(post([o EXCEPT !.flag = TRUE, !.half = @ - 1]), q, <<>>)}
    [] q.op = "destroy" /\ q.pc = "start" -> {go([o EXCEPT !.dead = TRUE], "post")}
    [] q.op = "destroy" /\ q.pc = "post" -> {L_End(post(o), q, <<>>)}
    [] q.op = "wasNotified" -> {L_End(o, q, <<r>>) : r \in (IF o.flag \/ o.act # {} \/ o.half > 0 THEN {1} ELSE {})
                                                           \cup (IF ~o.flag \/ o.act = {} THEN {0} ELSE {})}
    \* posts from before the call do not count
    [] isWait /\ q.pc = "start" -> collect([o EXCEPT !.sem = 0], FALSE, 0)
    [] isWait /\ q.pc = "collect" ->
         LET o2 == [o EXCEPT !.got = {}, !.open = FALSE] IN
         IF o.got # {} \/ q.l.last THEN {L_End(o2, q, <<q.l.tm>> \o L_Sorted(o.got))} ELSE {go(o2, "sleep")}
    [] isWait /\ q.pc = "sleep" ->
         (IF o.sem > 0 THEN collect([o EXCEPT !.sem = @ - 1], q.op = "timedWait", 0) ELSE {})
         \cup (IF q.op = "timedWait" /\ o.sem = 0 THEN collect(o, TRUE, 1) ELSE {})
    [] OTHER -> {}
CV_Observe(o, e) == FALSE
============================================================================
