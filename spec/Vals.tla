-------------------------------- MODULE Vals --------------------------------
(* Three value objects (slots 1..3) of one kind. Content of a slot: a sequence, empty for "nothing".                   *)
(*   opt <<v>>; var <<alternative, v>>; exp <<0, value>> or <<1, error>>; expv <<0>> or <<1, error>>;                  *)
(*   fn <<kind of callable, id, calls>>; guard <<id>>; uptr <<id, deleter>>.                                           *)
(* Every answer: result, contents (where visible), number of living objects, number of lifetime errors and            *)
(* contradictions between accessors (0), and the actions that ran (clean-ups, deletions) in their order.              *)
EXTENDS Lin
VL_L0 == [x |-> 0]
VL_Moved == -7
VL_Init(cfg) ==
  {[kind |-> cfg.kind, calls |-> 0,      \* calls of the method of a common object
    s |-> [i \in 1..3 |-> CASE cfg.kind = "exp" -> <<0, i - 1>>
                            [] cfg.kind = "expv" -> <<0>>
                            [] cfg.kind = "fn" -> <<2, 1, 0>>
                            [] cfg.kind = "uptr" -> <<i - 1, 0>>
                            [] OTHER -> <<>>]]}
\* living objects because of a content
VL_Alive(k, c) ==
  IF c = <<>> THEN 0
  ELSE CASE k = "opt" -> 1
         [] k = "var" -> IF c[1] = 2 THEN 0 ELSE 1
         [] k = "exp" -> 1
         [] k = "expv" -> c[1]
         [] k = "fn" -> IF c[1] \in {0, 1} THEN 1 ELSE 0
         [] k = "guard" -> 1
         [] k = "uptr" -> IF c[2] = 0 THEN 1 ELSE 2
\* a moved-from deleter stays behind only where nothing is promised: none is alive
VL_Dump(k, c) ==
  LET d == CASE k \in {"fn", "guard"} -> <<>>
             [] k = "uptr" -> IF c = <<>> THEN <<>> ELSE <<c[1]>>
             [] OTHER -> c
  IN <<Len(d)>> \o d
\* what a moved-from object holds
VL_From(k, c) ==
  CASE k = "var" -> IF c = <<>> \/ c[1] = 2 THEN c ELSE <<c[1], VL_Moved>>
    [] k = "exp" -> <<c[1], VL_Moved>>
    [] k = "expv" -> IF c[1] = 0 THEN c ELSE <<1, VL_Moved>>
    [] OTHER -> <<>>
\* the actions run when a content is destroyed
VL_Gone(k, c) ==
  IF c = <<>> THEN <<>>
  ELSE CASE k = "guard" -> <<c[1]>>
         [] k = "uptr" -> IF c[2] = 0 THEN <<c[1]>> ELSE <<c[1] * 100 + c[2]>>
         [] OTHER -> <<>>
VL_Step(o, t, q) ==
  LET k == o.kind
      x == q.a
      i == x[1] + 1
      j == IF Len(x) > 1 /\ x[2] \in 0..2 THEN x[2] + 1 ELSE 1
      c == o.s[i]
      res(o2, r, log) ==
        {L_End(o2, q, r \o VL_Dump(k, o2.s[1]) \o VL_Dump(k, o2.s[2]) \o VL_Dump(k, o2.s[3])
                      \o <<VL_Alive(k, o2.s[1]) + VL_Alive(k, o2.s[2]) + VL_Alive(k, o2.s[3]), 0>> \o log)}
      \* the slot takes a new content, the old one goes
      put(v, r) == res([o EXCEPT !.s[i] = v], r, VL_Gone(k, c))
      stay(r) == res(o, r, <<>>)
      fatal == {L_Go(o, q, "fatal")}
  IN
  CASE q.pc # "start" -> {}
    [] q.op \in {"copyAssign", "copyAssignL"} -> put(o.s[j], <<1>>)
    [] q.op = "copyCtor" -> IF i = j THEN stay(<<>>) ELSE put(o.s[j], <<1>>)
    [] q.op = "moveAssign" -> IF i = j THEN stay(<<1>>)
                              ELSE res([o EXCEPT !.s[i] = o.s[j], !.s[j] = VL_From(k, o.s[j])], <<1>>, VL_Gone(k, c))
    [] q.op = "moveCtor" -> IF i = j THEN stay(<<>>)
                            ELSE res([o EXCEPT !.s[i] = o.s[j], !.s[j] = VL_From(k, o.s[j])], <<1>>, VL_Gone(k, c))
    [] q.op = "swap" -> res([o EXCEPT !.s[i] = o.s[j], !.s[j] = c], <<1>>, <<>>)
    [] q.op = "eq" -> stay(<<L_Bool(IF k = "uptr" THEN i = j \/ (c = <<>> /\ o.s[j] = <<>>) ELSE c = o.s[j])>>)
    [] k = "opt" ->
        (CASE q.op \in {"set", "ctor", "ctorIn", "make"} -> put(<<x[2]>>, <<1>>)
           [] q.op \in {"setL", "emplace"} -> put(<<x[2]>>, <<x[2]>>)
           [] q.op \in {"reset", "null"} -> put(<<>>, <<1>>)
           [] q.op = "get" -> IF c = <<>> THEN fatal ELSE stay(c)
           [] q.op = "take" -> IF c = <<>> THEN fatal ELSE put(<<VL_Moved>>, c)
           [] q.op = "valueOr" -> stay(IF c = <<>> THEN <<x[2]>> ELSE c)
           [] q.op = "andThen" -> stay(IF c = <<>> THEN <<0, 1>> ELSE <<1 + c[1], 0>>)
           [] OTHER -> {})
    [] k = "var" ->
        (CASE q.op \in {"emplace", "emplaceAt", "ctor", "ctorV"} -> put(<<x[2], x[3]>>, <<1>>)
           [] q.op = "set" -> IF c = <<>> THEN {} ELSE IF c[1] = x[2] THEN put(<<x[2], x[3]>>, <<1>>) ELSE stay(<<1>>)
           [] q.op = "reset" -> put(<<>>, <<1>>)
           [] OTHER -> {})
    [] k = "exp" ->
        (CASE q.op \in {"set", "ctor"} -> put(<<x[2], x[3]>>, <<1>>)
           [] q.op = "ctorV" -> put(<<x[2], x[3]>>, <<x[3]>>)
           [] q.op = "get" -> IF c[1] = 1 THEN fatal ELSE stay(<<c[2]>>)
           [] q.op = "err" -> IF c[1] = 0 THEN fatal ELSE stay(<<c[2]>>)
           [] q.op = "take" -> IF c[1] = 1 THEN fatal ELSE put(<<0, VL_Moved>>, <<c[2]>>)
           [] q.op = "takeErr" -> IF c[1] = 0 THEN fatal ELSE put(<<1, VL_Moved>>, <<c[2]>>)
           [] q.op = "valueOr" -> stay(IF c[1] = 1 THEN <<x[2]>> ELSE <<c[2]>>)
           [] q.op = "andThen" -> stay(IF c[1] = 1 THEN <<0, 1 + c[2]>> ELSE <<1 + c[2], 0>>)
           [] OTHER -> {})
    [] k = "expv" ->
        (CASE q.op \in {"set", "ctor"} -> put(IF x[2] = 0 THEN <<0>> ELSE <<1, x[3]>>, <<1>>)
           [] q.op = "err" -> IF c[1] = 0 THEN fatal ELSE stay(<<c[2]>>)
           [] q.op = "takeErr" -> IF c[1] = 0 THEN fatal ELSE put(<<1, VL_Moved>>, <<c[2]>>)
           [] q.op = "andThen" -> stay(IF c[1] = 1 THEN <<0, 1 + c[2]>> ELSE <<1, 0>>)
           [] OTHER -> {})
    [] k = "fn" ->
        (CASE q.op \in {"set", "ctor"} -> put(<<x[2], IF x[2] = 2 THEN x[3] % 2 ELSE x[3], 0>>, <<1>>)
           [] q.op \in {"call", "ref"} ->
                IF c = <<>> THEN fatal
                ELSE (CASE c[1] \in {0, 1} -> res([o EXCEPT !.s[i][3] = @ + 1], <<c[2] * 100 + (c[3] + 1) * 10 + x[2]>>, <<>>)
                       [] c[1] = 2 -> stay(<<IF c[2] = 1 THEN -100 - x[2] ELSE -200 - x[2]>>)
                       [] c[1] = 3 -> res([o EXCEPT !.calls = @ + 1], <<-300 - x[2] - 10 * (o.calls + 1)>>, <<>>)
                       [] c[1] = 4 -> stay(<<-400 - x[2] - 10 * o.calls>>))
           [] OTHER -> {})
    [] k = "guard" ->
        (CASE q.op = "ctor" -> put(<<x[2]>>, <<1>>)
           [] q.op = "ctorInit" -> res([o EXCEPT !.s[i] = <<x[2]>>], <<1>>, VL_Gone(k, c) \o <<1000 + x[2]>>)
           [] q.op = "release" -> IF c = <<>> THEN fatal ELSE res([o EXCEPT !.s[i] = <<>>], <<1>>, [n \in 1..x[2] |-> c[1]])
           [] OTHER -> {})
    [] k = "uptr" ->
        (CASE q.op \in {"set", "ctor"} -> put(<<x[2], x[3]>>, <<1>>)
           [] q.op = "get" -> IF c = <<>> THEN fatal ELSE stay(<<c[1]>>)
           [] q.op = "release" -> IF c = <<>> THEN {} ELSE res([o EXCEPT !.s[i] = <<>>], <<c[1]>>, <<>>)
           [] OTHER -> {})
    [] OTHER -> {}
VL_Observe(o, e) == FALSE
=============================================================================
