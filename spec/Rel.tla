-------------------------------- MODULE Rel --------------------------------
(* Addresses in memory shared by several processes.                                                                   *)
(* rel: every process p registers segments (id -> base, size) at its own addresses; pointers 1..3 are stored as       *)
(*   segment and offset and hence mean the same place for every process; segment 0: the raw address, -1: null.        *)
(* reloc: pointers 1..3 standing in an arena and pointing into it (offset or -1); the arena moves.                    *)
(* bump: an allocator that gives out consecutive aligned pieces of [0, len) of memory starting at address base.       *)
EXTENDS Lin
RP_L0 == [x |-> 0]
RP_Max == 9999
RP_Null == <<-1, -1>>
RP_Init(cfg) == {[kind |-> cfg.kind, cur |-> 1, reg |-> [p \in 1..2 |-> <<>>],
                  ptr |-> [i \in 1..3 |-> IF cfg.kind = "reloc" THEN -1 ELSE RP_Null],
                  base |-> cfg.base, len |-> cfg.len, pos |-> 0]}
RP_Contains(s, a) == a >= s.b /\ a < s.b + s.n
RP_Ids(g, a) == LET X == {id \in DOMAIN g : RP_Contains(g[id], a)} IN IF X = {} THEN {0} ELSE X
\* the shareable forms of an address
RP_Forms(g, a) == IF a = 0 THEN {RP_Null} ELSE {IF id = 0 THEN <<0, a>> ELSE <<id, a - g[id].b>> : id \in RP_Ids(g, a)}
\* where a stored pointer points for a process with registrations g; -1: nothing promised, or null
RP_Address(g, x) == IF x[1] = -1 THEN -1 ELSE IF x[1] = 0 THEN x[2] ELSE IF x[1] \in DOMAIN g THEN g[x[1]].b + x[2] ELSE -1
RP_Show(g, x) == <<x[1], x[2], RP_Address(g, x)>>
RP_Up(a, n) == ((a + n - 1) \div n) * n
RP_Step(o, t, q) ==
  LET x == q.a
      g == o.reg[o.cur]
      i == x[1] + 1
      j == IF Len(x) > 1 /\ x[2] \in 0..2 THEN x[2] + 1 ELSE 1
      res(o2, r) == LET h == o2.reg[o2.cur] IN
                    L_End(o2, q, <<r>> \o RP_Show(h, o2.ptr[1]) \o RP_Show(h, o2.ptr[2]) \o RP_Show(h, o2.ptr[3]))
      put(v) == res([o EXCEPT !.ptr[i] = v], 1)
      with(id, b, n) == [o EXCEPT !.reg[o.cur] = [y \in DOMAIN g \cup {id} |-> IF y = id THEN [b |-> b, n |-> n] ELSE g[y]]]
      \* arena
      ar(f) == {L_End([o EXCEPT !.ptr = f], q, <<1, f[1], f[2], f[3]>>)}
      at == RP_Up(o.base + o.pos, x[2]) - o.base
  IN
  CASE q.pc # "start" -> {}
    [] o.kind = "rel" ->
        (CASE q.op = "reg" ->
                LET id == CHOOSE n \in 1..RP_Max : n \notin DOMAIN g /\ \A m \in 1..(n - 1) : m \in DOMAIN g
                IN {res(with(id, x[1], x[2]), id)}
           [] q.op = "regId" -> IF x[1] \in DOMAIN g \/ x[1] > RP_Max THEN {res(o, 0)} ELSE {res(with(x[1], x[2], x[3]), 1)}
           [] q.op = "unreg" -> IF x[1] \in DOMAIN g THEN {res([o EXCEPT !.reg[o.cur] = [y \in DOMAIN g \ {x[1]} |-> g[y]]], 1)}
                                ELSE {res(o, 0)}
           [] q.op = "unregAll" -> {res([o EXCEPT !.reg[o.cur] = <<>>], 1)}
           [] q.op = "base" -> {res(o, IF x[1] \in DOMAIN g THEN g[x[1]].b ELSE 0)}
           [] q.op = "search" -> {res(o, f[1]) : f \in RP_Forms(g, x[1])}
           [] q.op = "process" -> {res([o EXCEPT !.cur = x[1]], 1)}
           [] q.op \in {"set", "ctor"} -> {put(f) : f \in RP_Forms(g, x[2])}
           [] q.op = "ctorId" -> {put(<<x[3], x[2] - g[x[3]].b>>)}
           [] q.op = "ctorOff" -> {put(<<x[3], x[2]>>)}
           [] q.op \in {"copy", "copyCtor"} -> {put(o.ptr[j])}
           [] q.op = "move" -> IF i = j THEN {res(o, 1)} ELSE {res([o EXCEPT !.ptr[i] = o.ptr[j], !.ptr[j] = RP_Null], 1)}
           [] q.op = "moveCtor" -> {res([o EXCEPT !.ptr = [[o.ptr EXCEPT ![j] = RP_Null] EXCEPT ![i] = o.ptr[j]]], 1)}
           [] q.op = "data" ->
                LET h == <<RP_Show(g, o.ptr[1]) \o RP_Show(g, o.ptr[2]) \o RP_Show(g, o.ptr[3])>>[1]
                    null == x[4] = 1 \/ x[1] = 65535 \/ (x[2] = 16777215 /\ x[3] = 16777215)
                IN {L_End(o, q, (IF null THEN <<65535, 16777215, 16777215, 1>> ELSE <<x[1], x[2], x[3], 0>>) \o h)}
           [] OTHER -> {})
    [] o.kind = "reloc" ->
        (CASE q.op = "relocate" -> ar(o.ptr)
           [] q.op \in {"set", "ctor"} -> ar([o.ptr EXCEPT ![i] = x[2]])
           [] q.op \in {"copy", "copyCtor"} -> ar([o.ptr EXCEPT ![i] = o.ptr[j]])
           [] q.op = "move" -> IF i = j THEN ar(o.ptr) ELSE ar([o.ptr EXCEPT ![i] = o.ptr[j], ![j] = -1])
           [] q.op = "moveCtor" -> ar([[o.ptr EXCEPT ![j] = -1] EXCEPT ![i] = o.ptr[j]])
           [] OTHER -> {})
    [] o.kind = "bump" ->
        (CASE q.op = "free" -> {L_End([o EXCEPT !.pos = 0], q, <<1>>)}
           [] q.op = "alloc" ->     \* a negative size stands for 2^64 plus it
                IF x[1] = 0 THEN {L_End(o, q, <<-2>>)}
                ELSE IF x[1] < 0 \/ at + x[1] > o.len THEN {L_End(o, q, <<-1>>)}
                ELSE {L_End([o EXCEPT !.pos = at + x[1]], q, <<at>>)}
           [] OTHER -> {})
    [] OTHER -> {}
RP_Observe(o, e) == FALSE
=============================================================================
