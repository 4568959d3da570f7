------------------------------- MODULE Channel -------------------------------
(* An ipc channel: qs = sequence of queues (one per time the receiving end was opened), each a sequence of            *)
(* <<message, length>>; cur = the queue one finds by the name (0: none), at = function from ends to queues (end 0     *)
(* receives).  A send that finds the queue full waits, gives up at once or at its deadline; so does a receive that    *)
(* finds it empty.  Answers: <<1>> / <<1, message, length>>, <<0, 2>> too long, <<0, 3, 1>> timeout after the time    *)
(* that was asked for, <<0, 4>> no receiver.  An empty message is message 0 - 1; what is   *)
(* no message at all (foreign) is message 0 - 2 and an error for the one who receives it.                             *)
EXTENDS Lin
CH_L0 == 0
CH_Init(cfg) == {[cfg |-> cfg, qs |-> IF cfg.life = 1 THEN <<>> ELSE <<<<>>>>, cur |-> IF cfg.life = 1 THEN 0 ELSE 1,
                  at |-> IF cfg.life = 1 THEN <<>> ELSE [t \in 0..9 |-> 1], open |-> IF cfg.life = 1 THEN 0 ELSE 1,
                  room |-> cfg.cap, there |-> 0]}
\* a named pipe: a send takes a place, puts the message there and then tells that it is there; a receive takes one that
\* was told of, the oldest one, and then gives the place back
CH_Pipe(o, q, isSend, m) ==
  LET s == o.cur
      go(o2, pc) == {L_Go(o2, q, pc)}
  IN IF isSend
     THEN CASE q.pc = "start" -> (IF q.a[2] > o.cfg.longest THEN {L_End(o, q, <<0, 2>>)}
                                  ELSE IF o.room > 0 THEN go([o EXCEPT !.room = @ - 1], "put")
                                  ELSE IF q.op = "send" THEN {} ELSE {L_End(o, q, <<0, 3, 1>>)})
            [] q.pc = "put" -> go([o EXCEPT !.qs[s] = Append(@, m)], "tell")
            [] q.pc = "tell" -> {L_End([o EXCEPT !.there = @ + 1], q, <<1>>)}
     ELSE CASE q.pc = "start" -> (IF o.there > 0 THEN go([o EXCEPT !.there = @ - 1], "get")
                                  ELSE IF q.op = "receive" THEN {} ELSE {L_End(o, q, <<0, 3, 1>>)})
            [] q.pc = "get" -> {[o |-> [o EXCEPT !.qs[s] = Tail(@)], q |-> [q EXCEPT !.pc = "free", !.r = <<1>> \o Head(o.qs[s])]]}
            [] q.pc = "free" -> {L_End([o EXCEPT !.room = @ + 1], q, q.r)}
CH_Step(o, t, q) ==
  LET life == o.cfg.life = 1
      b == IF life THEN 1 ELSE 0
      e == IF life THEN q.a[1] ELSE t
      end(o2, r) == {L_End(o2, q, r)}
      isSend == q.op \in {"send", "trySend", "timedSend"}
      m == <<IF q.a[b + 2] = 0 THEN 0 - 1 ELSE q.a[b + 1], q.a[b + 2]>>
      s == o.at[e]
      r == o.at[0]
      full == Len(o.qs[s]) >= o.cfg.cap
      uds == o.cfg.kind = "uds"
  IN
  CASE q.op = "open" /\ e = 0 ->
         end([o EXCEPT !.qs = Append(@, <<>>), !.cur = Len(o.qs) + 1, !.open = Len(o.qs) + 1, !.at = L_Put(@, 0, Len(o.qs) + 1)], <<1>>)
    [] q.op = "open" -> IF o.cur = 0 THEN end(o, <<0, 4>>) ELSE end([o EXCEPT !.at = L_Put(@, e, o.cur)], <<1>>)
    [] q.op = "close" -> end([o EXCEPT !.at = L_Drop(@, e), !.cur = IF e = 0 THEN 0 ELSE @, !.open = IF e = 0 THEN 0 ELSE @], <<>>)
    [] q.op = "move" -> end(o, <<>>)
    [] q.op = "foreign" -> IF Len(o.qs[r]) < o.cfg.cap THEN end([o EXCEPT !.qs[r] = Append(@, <<0 - 2, q.a[2]>>)], <<1>>) ELSE end(o, <<0>>)
    [] o.cfg.kind = "pipe" /\ ~life -> CH_Pipe(o, q, isSend, IF isSend THEN m ELSE <<>>)
    [] isSend -> (IF q.a[b + 2] > o.cfg.longest THEN end(o, <<0, 2>>)
                  ELSE IF uds /\ s # o.open THEN end(o, <<0, 4>>) \cup end(o, <<0, 9>>)
                  ELSE IF ~full THEN end([o EXCEPT !.qs[s] = Append(@, m)], <<1>>)
                  ELSE IF q.op = "send" THEN {} ELSE end(o, <<0, 3, 1>>))
    [] OTHER -> IF o.qs[r] # <<>> /\ Head(o.qs[r])[1] = 0 - 2 THEN end([o EXCEPT !.qs[r] = Tail(@)], <<0, 9>>)
                ELSE IF o.qs[r] # <<>> THEN end([o EXCEPT !.qs[r] = Tail(@)], <<1>> \o Head(o.qs[r]))
                ELSE IF q.op = "receive" THEN {} ELSE end(o, <<0, 3, 1>>)
CH_Observe(o, e) == FALSE
==============================================================================
