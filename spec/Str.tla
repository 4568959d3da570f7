-------------------------------- MODULE Str --------------------------------
(* Fixed-capacity strings a and b (sequences of character codes); every answer is the result followed by both strings *)
(* and a counter of contradictions between accessors, which has to be 0.                                              *)
EXTENDS Lin
ST_L0 == [x |-> 0]
ST_Init(cfg) == {[cap |-> cfg.cap, a |-> <<>>, b |-> <<>>]}
ST_Min(x, y) == IF x < y THEN x ELSE y
ST_Cut(s, n) == SubSeq(s, 1, ST_Min(n, Len(s)))
ST_Dump(s) == <<Len(s)>> \o s
ST_Least(X) == IF X = {} THEN -1 ELSE CHOOSE x \in X : \A y \in X : x <= y
ST_Most(X) == IF X = {} THEN -1 ELSE CHOOSE x \in X : \A y \in X : x >= y
ST_Cmp(s, u) ==
  LET D == {i \in 1..ST_Min(Len(s), Len(u)) : s[i] # u[i]} IN
  IF D # {} THEN LET i == ST_Least(D) IN IF s[i] < u[i] THEN -1 ELSE 1
  ELSE IF Len(s) < Len(u) THEN -1 ELSE IF Len(s) > Len(u) THEN 1 ELSE 0
ST_Step(o, t, q) ==
  LET a == o.a
      b == o.b
      n == Len(a)
      x == q.a
      res(o2, r) == {L_End(o2, q, r \o ST_Dump(o2.a) \o ST_Dump(o2.b) \o <<0>>)}
      set(s) == res([o EXCEPT !.a = s], <<1>>)
      stay(r) == res(o, <<r>>)
      fit(s) == IF Len(s) > o.cap THEN stay(0) ELSE set(s)
      trunc(s) == set(ST_Cut(s, o.cap))
  IN
  CASE q.pc # "start" -> {}
    [] q.op = "assign" -> fit(x)
    [] q.op = "trunc" -> trunc(IF x[1] < 0 THEN Tail(x) ELSE ST_Cut(Tail(x), x[1]))
    [] q.op = "append" -> fit(a \o b)
    [] q.op = "appendT" -> trunc(a \o b)
    [] q.op \in {"appendC", "appendStd"} -> fit(a \o x)
    [] q.op = "appendCT" -> trunc(a \o x)
    [] q.op = "insert" ->
         IF x[2] > Len(b) \/ x[1] > n \/ n + x[2] > o.cap THEN stay(0)
         ELSE set(SubSeq(a, 1, x[1]) \o SubSeq(b, 1, x[2]) \o SubSeq(a, x[1] + 1, n))
    [] q.op = "substr" ->
         IF x[1] > n THEN stay(0)
         ELSE res([o EXCEPT !.b = SubSeq(a, x[1] + 1, IF x[2] < 0 THEN n ELSE ST_Min(n, x[1] + x[2]))], <<1>>)
    [] q.op = "find" ->
         stay(ST_Least({p \in x[1]..(n - Len(b)) : \A i \in 1..Len(b) : a[p + i] = b[i]}))
    [] q.op = "findFirst" -> stay(ST_Least({p \in x[1]..(n - 1) : \E i \in 1..Len(b) : a[p + 1] = b[i]}))
    [] q.op = "findLast" -> stay(ST_Most({p \in 0..ST_Min(x[1], n - 1) : \E i \in 1..Len(b) : a[p + 1] = b[i]}))
    [] q.op = "compare" -> stay(ST_Cmp(a, b))
    [] q.op = "compareC" -> stay(ST_Cmp(a, x))
    [] q.op = "at" -> IF x[1] >= n THEN {L_Go(o, q, "fatal")} ELSE stay(a[x[1] + 1])
    [] q.op = "concat" -> res(o, ST_Dump(a \o b \o <<120>>) \o ST_Dump(a \o b))
    [] q.op = "concatC" -> res(o, ST_Dump(<<120>> \o a))
    [] q.op = "clear" -> set(<<>>)
    [] q.op = "copyAssign" -> set(b)
    [] q.op = "moveAssign" -> res([o EXCEPT !.a = b, !.b = <<>>], <<1>>)
    [] q.op = "selfAssign" -> stay(1)
    [] q.op = "ctorMove" -> res([o EXCEPT !.b = a, !.a = <<>>], <<1>>)
    [] q.op = "swap" -> res([o EXCEPT !.a = b, !.b = a], <<1>>)
    [] q.op = "raw" -> trunc(x)
    [] q.op = "std" -> res([o EXCEPT !.b = a], <<1>>)
    [] OTHER -> {}
ST_Observe(o, e) == FALSE
=============================================================================
