------------------------------ MODULE Listener ------------------------------
(* A Listener with its own thread that runs callbacks.  att = attachments (origin |-> id), on = origins that notify;  *)
(* act = notified and not collected, col = collected and not yet called; stale = notifications left over from         *)
(* detached attachments: an attachment that takes their place may be called for them.                                 *)
(* The callbacks are recorded as calls cb(origin, id) of thread 90; they run one at a time and never after detach.    *)
EXTENDS Lin
LS_L0 == [x |-> 0]
LS_Init(cfg) == {[att |-> <<>>, on |-> {}, act |-> {}, col |-> {}, stale |-> 0, busy |-> -1, dead |-> FALSE, cap |-> cfg.cap]}
LS_Min(x) == IF x > 4 THEN 4 ELSE x
LS_Remove(o, k) == [o EXCEPT !.att = L_Drop(@, k), !.act = @ \ {k}, !.col = @ \ {k},
                             !.stale = LS_Min(@ + (IF k \in o.act THEN 1 ELSE 0) + (IF k \in o.col THEN 1 ELSE 0))]
LS_Step(o, t, q) ==
  LET k == IF Len(q.a) > 0 THEN q.a[1] ELSE 0
      go(o2, pc) == L_Go(o2, q, pc)
      end(o2, r) == L_End(o2, q, r)
      \* an occurrence; one that was there already may have been collected meanwhile
      notified(o2) == {[o2 EXCEPT !.act = @ \cup {k}]}
                      \cup (IF k \in o2.act THEN {[o2 EXCEPT !.col = @ \cup {k}]} ELSE {})
  IN
  CASE q.op = "fire" ->
         IF k \notin o.on THEN {end(o, <<>>)}
         ELSE IF k \in DOMAIN o.att THEN {end(z, <<>>) : z \in notified(o)}
         ELSE {end([o EXCEPT !.stale = LS_Min(@ + 1)], <<>>), end(o, <<>>)}
    [] q.op = "attach" /\ q.pc = "start" ->
         IF k \in DOMAIN o.att THEN {end(o, <<-2>>)}
         ELSE IF Cardinality(DOMAIN o.att) >= o.cap THEN {end(o, <<-1>>)}
         ELSE LET o2 == [o EXCEPT !.att = L_Put(@, k, q.a[2])] IN
              {go(o2, "on")} \cup (IF o.stale > 0 THEN {go([o2 EXCEPT !.stale = @ - 1, !.act = @ \cup {k}], "on")} ELSE {})
              \cup (IF o.stale > 1 THEN {go([o2 EXCEPT !.stale = @ - 2, !.act = @ \cup {k}, !.col = @ \cup {k}], "on")} ELSE {})
    [] q.op = "attach" /\ q.pc = "on" -> {end([o EXCEPT !.on = @ \cup {k}], <<1>>)}
    \* waits for the callback if it is running
    [] q.op \in {"detach", "detachSelf", "kill"} /\ q.pc = "start" ->
         IF o.busy = k /\ q.op # "detachSelf" THEN {} ELSE {go(LS_Remove(o, k), "off")}
    [] q.op \in {"detach", "detachSelf", "kill"} /\ q.pc = "off" -> {end([o EXCEPT !.on = @ \ {k}], <<>>)}
    [] q.op = "renew" -> {end(o, <<>>)}
    [] q.op = "size" -> {end(o, <<Cardinality(DOMAIN o.att)>>)}
    [] q.op = "cb" /\ q.pc = "start" ->
         IF o.dead \/ o.busy # -1 \/ k \notin DOMAIN o.att \/ k \notin (o.act \cup o.col) THEN {}
         ELSE IF o.att[k] # q.a[2] THEN {}
         ELSE {go([o EXCEPT !.busy = k, !.col = @ \ {k}, !.act = IF k \in o.col THEN @ ELSE @ \ {k}], "body")}
    [] q.op = "cb" /\ q.pc = "body" -> {end([o EXCEPT !.busy = -1], <<>>)}
    \* everything is quiet: every occurrence was answered by a callback
    [] q.op = "idle" -> IF o.act = {} /\ o.col = {} /\ o.busy = -1 THEN {end(o, <<>>)} ELSE {}
    [] q.op = "destroyL" -> IF o.busy = -1 THEN {end([o EXCEPT !.dead = TRUE, !.att = <<>>, !.on = {}, !.act = {}, !.col = {}], <<>>)} ELSE {}
    [] OTHER -> {}
LS_Observe(o, e) == FALSE
=============================================================================
