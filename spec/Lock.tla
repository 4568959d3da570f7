-------------------------------- MODULE Lock --------------------------------
(* kind "lock": a mutex or spin lock.  own = owner (0 - 1 = nobody), cnt = how often, dead = the owner died with it,  *)
(*   odd = acquired from a dead owner and not declared consistent, lost = released in that state (robust only).       *)
(*   type normal | recursive | check (detects the own lock); lock: 1 acquired, 2 would deadlock, 3 acquired from a    *)
(*   dead owner, 4 unusable; try: likewise and 0 not free; unlock: 1, 2 not the owner.                                *)
(* kind "sem": n = value.  kind "file": own = function from names to owners.                                          *)
(* kind "named": names = function from names to semaphores, val = values of all semaphores, hs = function from        *)
(*   handles to [s, n, owner].  kind "smart": two values, each behind a lock.                                         *)
EXTENDS Lin
LK_L0 == 0
Nobody == 0 - 1
LK_Init(cfg) == {CASE cfg.kind = "lock" -> [cfg |-> cfg, own |-> Nobody, cnt |-> 0, dead |-> FALSE, odd |-> FALSE, lost |-> FALSE]
                   [] cfg.kind = "sem" -> [cfg |-> cfg, n |-> cfg.init]
                   [] cfg.kind = "file" -> [cfg |-> cfg, own |-> [x \in 0..1 |-> Nobody]]
                   [] cfg.kind = "named" -> [cfg |-> cfg, names |-> <<>>, val |-> <<>>, hs |-> <<>>]
                   [] cfg.kind = "smart" -> [cfg |-> cfg, v |-> [x \in 0..1 |-> 0]]}
LK_Lock(o, t, q) ==
  LET end(o2, r) == {L_End(o2, q, <<r>>)}
      take == [o EXCEPT !.own = t, !.cnt = 1]
      robust == o.cfg.robust = 1
      mine == o.own = t /\ ~o.dead
  IN
  CASE q.op = "lock" -> IF mine THEN IF o.cfg.type = "recursive" THEN end([o EXCEPT !.cnt = @ + 1], 1)
                                     ELSE IF o.cfg.type = "check" \/ o.cfg.spin = 1 THEN end(o, 2) ELSE {}
                        ELSE IF o.lost THEN end(o, 4)
                        ELSE IF o.own = Nobody THEN end(take, 1)
                        ELSE IF o.dead /\ robust THEN end([take EXCEPT !.dead = FALSE, !.odd = TRUE], 3)
                        ELSE {}
    [] q.op = "try" -> IF mine THEN IF o.cfg.type = "recursive" THEN end([o EXCEPT !.cnt = @ + 1], 1) ELSE end(o, 0)
                       ELSE IF o.lost THEN end(o, 4)
                       ELSE IF o.own = Nobody THEN end(take, 1)
                       ELSE IF o.dead /\ robust THEN end([take EXCEPT !.dead = FALSE, !.odd = TRUE], 3)
                       ELSE end(o, 0)
    [] q.op = "unlock" -> IF ~mine THEN end(o, 2)
                          ELSE IF o.cnt > 1 THEN end([o EXCEPT !.cnt = @ - 1], 1)
                          ELSE end([o EXCEPT !.own = Nobody, !.cnt = 0, !.lost = o.odd], 1)
    [] q.op = "consistent" -> {L_End([o EXCEPT !.odd = FALSE], q, <<>>)}
    [] q.op = "died" -> {L_End(IF mine THEN [o EXCEPT !.dead = TRUE] ELSE o, q, <<>>)}
    [] OTHER -> {}
LK_Sem(o, t, q) ==
  LET end(o2, r) == {L_End(o2, q, r)}
      take == [o EXCEPT !.n = @ - 1] IN
  CASE q.op = "post" -> IF o.n = o.cfg.max THEN end(o, <<0>>) ELSE end([o EXCEPT !.n = @ + 1], <<1>>)
    [] q.op = "wait" -> IF o.n > 0 THEN end(take, <<1>>) ELSE {}
    [] q.op = "tryWait" -> IF o.n > 0 THEN end(take, <<1>>) ELSE end(o, <<0>>)
    [] q.op = "timedWait" -> IF o.n > 0 THEN end(take, <<1>>) ELSE end(o, <<0, 1>>)
    [] OTHER -> {}
LK_File(o, t, q) ==
  CASE q.op = "acquire" -> IF o.own[q.a[1]] = Nobody THEN {L_End([o EXCEPT !.own[q.a[1]] = t], q, <<1>>)} ELSE {L_End(o, q, <<0>>)}
    [] q.op = "release" -> {L_End([o EXCEPT !.own[q.a[1]] = Nobody], q, <<>>)}
    [] q.op = "move" -> {L_End(o, q, <<>>)}
    [] q.op = "died" -> {L_End([o EXCEPT !.own = [x \in 0..1 |-> IF @[x] = t THEN Nobody ELSE @[x]]], q, <<>>)}
    [] OTHER -> {}
LK_Named(o, q) ==
  LET h == q.a[1]
      n == q.a[3]
      there == n \in DOMAIN o.names
      end(o2, r) == {L_End(o2, q, r)}
      s == o.hs[h].s
      new == [o EXCEPT !.val = Append(@, q.a[4]), !.names = L_Put(@, n, Len(o.val) + 1),
                       !.hs = L_Put(@, h, [s |-> Len(o.val) + 1, n |-> n, owner |-> TRUE])]
      old == [o EXCEPT !.hs = L_Put(@, h, [s |-> o.names[n], n |-> n, owner |-> FALSE])]
  IN
  CASE q.op = "create" -> IF q.a[4] < 0 THEN end(o, <<2>>)
                          ELSE CASE q.a[2] = 0 -> (IF there THEN end(old, <<1>>) ELSE end(o, <<3>>))
                                 [] q.a[2] = 1 -> (IF there THEN end(old, <<1>>) ELSE end(new, <<1>>))
                                 [] q.a[2] = 2 -> (IF there THEN end(o, <<4>>) ELSE end(new, <<1>>))
                                 [] OTHER -> end(new, <<1>>)
    [] q.op = "post" -> end([o EXCEPT !.val[s] = @ + 1], <<1>>)
    [] q.op = "tryWait" -> IF o.val[s] > 0 THEN end([o EXCEPT !.val[s] = @ - 1], <<1>>) ELSE end(o, <<0>>)
    [] q.op = "destroy" -> end([o EXCEPT !.hs = L_Drop(@, h), !.names = IF o.hs[h].owner THEN L_Drop(@, o.hs[h].n) ELSE @], <<>>)
    [] OTHER -> {}
LK_Smart(o, q) ==
  LET i == q.a[1] IN
  CASE q.op \in {"add", "guard"} -> {L_End([o EXCEPT !.v[i] = @ + q.a[2]], q, <<o.v[i] + q.a[2]>>)}
    \* the copy of a copy is asked for its value in a step of its own, but nobody else knows it
    [] q.op \in {"copy", "clone"} -> {L_End(o, q, <<o.v[i]>>)}
    [] q.op \in {"assign", "move"} -> {L_End([o EXCEPT !.v[i] = o.v[q.a[2]]], q, <<>>)}
    [] OTHER -> {}
LK_Step(o, t, q) == CASE o.cfg.kind = "lock" -> LK_Lock(o, t, q)
                      [] o.cfg.kind = "sem" -> LK_Sem(o, t, q)
                      [] o.cfg.kind = "file" -> LK_File(o, t, q)
                      [] o.cfg.kind = "named" -> LK_Named(o, q)
                      [] OTHER -> LK_Smart(o, q)
LK_Observe(o, e) == FALSE
=============================================================================
