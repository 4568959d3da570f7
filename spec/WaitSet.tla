------------------------------ MODULE WaitSet ------------------------------
(* A WaitSet with origins: user triggers (0, 1: events only) and receivers of data (2..: event "received", state "has *)
(* data").  att = attachments (origin |-> [id, ev]); act = attached origins that notified and were not collected;     *)
(* lit = collected ones the WaitSet still looks at; q = received and not yet taken; the rest as in CondVar.           *)
(* One thread attaches, detaches, takes and waits; the origins fire in other threads.                                 *)
(* Answer of wait: <<1 if the deadline passed, ids of the reported attachments>>.                                     *)
EXTENDS Lin
WS_L0 == [last |-> FALSE, tm |-> 0, must |-> {}]
WS_Init(cfg) == LET O == {cfg.org[j] : j \in DOMAIN cfg.org} IN
  {[att |-> <<>>, act |-> {}, lit |-> {}, q |-> [k \in O |-> 0], got |-> {}, open |-> FALSE, sem |-> 0, flag |-> FALSE,
    dead |-> FALSE, cap |-> cfg.cap, qcap |-> cfg.qcap]}
WS_Sat(o, k) == k \in DOMAIN o.att /\ (o.att[k].ev \/ o.q[k] > 0)
WS_Ids(o, R) == L_Sorted({o.att[k].id : k \in R})
WS_Forget(o, k) == [o EXCEPT !.att = L_Drop(@, k), !.act = @ \ {k}, !.lit = @ \ {k}, !.got = @ \ {k}]
WS_Step(o, t, q) ==
  LET k == IF Len(q.a) > 0 THEN q.a[1] ELSE 0
      go(o2, pc) == L_Go(o2, q, pc)
      end(o2, r) == L_End(o2, q, r)
      with(o2, pc, l) == [o |-> o2, q |-> [q EXCEPT !.pc = pc, !.l = l]]
      isWait == q.op \in {"wait", "timedWait"}
      post(o2) == [o2 EXCEPT !.sem = IF @ < 3 THEN @ + 1 ELSE @]
      \* starts to collect; ends at once if it was told to end
      collect(o2, pc, l) == IF o2.dead THEN {with(o2, IF pc = "c1" THEN "e1" ELSE "e2", l)}
                            ELSE {with([o2 EXCEPT !.got = o2.act, !.act = {}, !.open = TRUE, !.flag = FALSE], pc, l)}
      \* the attachments are looked at one after the other
      look(o2, pc) == {with(o2, pc, [q.l EXCEPT !.must = {j \in o2.lit : WS_Sat(o2, j)}])}
      report(R) == [o EXCEPT !.lit = {j \in @ : j \in DOMAIN o.att /\ ~(j \in R /\ o.att[j].ev)}]
      can == {j \in o.lit : WS_Sat(o, j)}
      notify(o2, nx) ==
        IF k \in DOMAIN o2.att
        THEN {go([o2 EXCEPT !.act = @ \cup {k}], nx)} \cup (IF o2.open THEN {go([o2 EXCEPT !.got = @ \cup {k}], nx)} ELSE {})
        ELSE {end(o2, <<>>)}
  IN
  CASE q.op = "fire" /\ q.pc = "start" ->
         IF k < 2 THEN notify(o, "post") ELSE {go([o EXCEPT !.q[k] = IF @ < o.qcap THEN @ + 1 ELSE @], "notify")}
    [] q.op = "fire" /\ q.pc = "notify" -> notify(o, "post")
    [] q.op = "fire" /\ q.pc = "post" -> {end(post([o EXCEPT !.flag = TRUE]), <<>>)}
    [] q.op = "mark" /\ q.pc = "start" -> {go([o EXCEPT !.dead = TRUE], "post")}
    [] q.op = "mark" /\ q.pc = "post" -> {end(post(o), <<>>)}
    [] q.op = "take" -> {end([o EXCEPT !.q[k] = IF @ > 0 THEN @ - 1 ELSE 0], <<L_Bool(o.q[k] > 0)>>)}
    [] q.op = "size" -> {end(o, <<Cardinality(DOMAIN o.att)>>)}
    [] q.op \in {"attachE", "attachS"} /\ q.pc = "start" ->
         LET ev == k < 2 \/ q.op = "attachE" IN
         IF k \in DOMAIN o.att /\ o.att[k].ev = ev THEN {end(o, <<-2>>)}
         ELSE IF Cardinality(DOMAIN o.att) >= o.cap THEN {end(o, <<-1>>)}
         ELSE LET o2 == WS_Forget(o, k)
                  o3 == [o2 EXCEPT !.att = L_Put(@, k, [id |-> q.a[2], ev |-> ev])]
              IN IF ev THEN {end(o3, <<1>>)} ELSE {go(o3, "check")}
    \* a state that exists already is a notification
    [] q.op = "attachS" /\ q.pc = "check" ->
         IF o.q[k] > 0 THEN {end(post([o EXCEPT !.act = @ \cup {k}, !.flag = TRUE]), <<1>>)} ELSE {end(o, <<1>>)}
    [] q.op \in {"detachE", "detachS"} -> {end(WS_Forget(o, k), <<>>)}
    [] q.op \in {"kill", "renew"} -> {end([WS_Forget(o, k) EXCEPT !.q[k] = 0], <<>>)}
    \* first what is known already
    [] isWait /\ q.pc = "start" -> collect(o, "c1", q.l) \cup (IF o.flag THEN {} ELSE {go(o, "e1")})
    [] isWait /\ q.pc = "c1" -> {go([o EXCEPT !.lit = @ \cup o.got, !.got = {}, !.open = FALSE], "e1")}
    [] isWait /\ q.pc = "e1" -> look(o, "e1b")
    [] isWait /\ q.pc = "e1b" ->
         {end(report(R), <<0>> \o WS_Ids(o, R)) : R \in {X \in SUBSET can : q.l.must \subseteq X /\ X # {}}}
         \cup (IF q.l.must = {} THEN collect([report({}) EXCEPT !.sem = 0], "c2", [q.l EXCEPT !.must = {}]) ELSE {})
    \* then what comes
    [] isWait /\ q.pc = "c2" ->
         LET o2 == [o EXCEPT !.lit = @ \cup o.got, !.got = {}, !.open = FALSE] IN
         IF o.got # {} \/ q.l.last THEN {go(o2, "e2")} ELSE {go(o2, "sleep")}
    [] isWait /\ q.pc = "sleep" ->
         (IF o.sem > 0 THEN collect([o EXCEPT !.sem = @ - 1], "c2", [q.l EXCEPT !.last = (q.op = "timedWait")]) ELSE {})
         \cup (IF q.op = "timedWait" /\ o.sem = 0 THEN collect(o, "c2", [q.l EXCEPT !.last = TRUE, !.tm = 1]) ELSE {})
    [] isWait /\ q.pc = "e2" -> look(o, "e2b")
    [] isWait /\ q.pc = "e2b" ->
         {end(report(R), <<q.l.tm>> \o WS_Ids(o, R)) : R \in {X \in SUBSET can : q.l.must \subseteq X}}
    [] OTHER -> {}
WS_Observe(o, e) == FALSE
============================================================================
