-------------------------------- MODULE Seqs --------------------------------
(* Fixed-capacity containers.  Two containers a and b of one kind; every answer is the result followed by the whole   *)
(* content of both and three counters that have to be 0: objects alive beyond the elements, misused objects,          *)
(* contradictions between the accessors (or elements that changed their address where that is not allowed).           *)
(* vector, list, flist (forward list), stack: sequences; fpc (fixed position container): index |-> value.             *)
EXTENDS Lin
SQ_L0 == [x |-> 0]
SQ_Init(cfg) == {[kind |-> cfg.kind, cap |-> cfg.cap, a |-> <<>>, b |-> <<>>]}
RECURSIVE SQ_Flat(_, _)
SQ_Flat(f, D) == IF D = {} THEN <<>> ELSE LET m == CHOOSE x \in D : \A y \in D : x <= y IN <<m, f[m]>> \o SQ_Flat(f, D \ {m})
SQ_Dump(k, c) == LET s == IF k = "fpc" THEN SQ_Flat(c, DOMAIN c) ELSE c IN <<Len(s)>> \o s
SQ_Insert(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
SQ_Erase(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))          \* p counts from 0
SQ_Repeat(n, x) == [i \in 1..n |-> x]
\* the values of an fpc in the order of their indices, and all fpcs with these values in this order
SQ_Vals(c) == [i \in 1..Cardinality(DOMAIN c) |-> c[CHOOSE k \in DOMAIN c : Cardinality({j \in DOMAIN c : j < k}) = i - 1]]
SQ_Alike(c, cap) ==
  LET n == Cardinality(DOMAIN c)
      v == SQ_Vals(c)
  IN {[k \in D |-> v[1 + Cardinality({j \in D : j < k})]] : D \in {X \in SUBSET (0..cap - 1) : Cardinality(X) = n}}
SQ_Step(o, t, q) ==
  LET a == o.a
      n == Len(a)
      x == q.a[Len(q.a)]
      p == q.a[1]
      full == n >= o.cap
      end(o2, r) == L_End(o2, q, <<r>> \o SQ_Dump(o.kind, o2.a) \o SQ_Dump(o.kind, o2.b) \o <<0, 0, 0>>)
      set(s, r) == {end([o EXCEPT !.a = s], r)}
      stay(r) == {end(o, r)}
      fatal == {L_Go(o, q, "fatal")}
      add(s, r) == IF full THEN stay(0) ELSE set(s, r)
      \* a copy: same values in the same order; where the elements of an fpc lie is not specified
      copies(c) == IF o.kind = "fpc" THEN SQ_Alike(c, o.cap) ELSE {c}
      kept == SelectSeq(a, LAMBDA y : IF q.op = "remove" THEN y # x ELSE y % 2 # x)
  IN
  CASE q.pc # "start" -> {}
    [] q.op = "copyAssign" -> {end([o EXCEPT !.a = c], 1) : c \in copies(o.b)}
    [] q.op = "moveAssign" -> {end([o EXCEPT !.a = c, !.b = <<>>], 1) : c \in copies(o.b)}
    [] q.op = "selfAssign" -> stay(1)
    [] q.op = "ctorCopy" -> {end([o EXCEPT !.b = c], 1) : c \in copies(o.a)}
    [] q.op = "ctorMove" -> {end([o EXCEPT !.b = c, !.a = <<>>], 1) : c \in copies(o.a)}
    [] q.op = "swap" -> UNION {{end([o EXCEPT !.a = c, !.b = d], 1) : c \in copies(o.b)} : d \in copies(o.a)}
    [] q.op = "clear" -> set(<<>>, 1)
    \* ---- fixed position container
    [] o.kind = "fpc" /\ q.op \in {"put", "insert"} ->
         IF Cardinality(DOMAIN a) >= o.cap THEN stay(-1)
         ELSE {end([o EXCEPT !.a = L_Put(a, i, x)], i) : i \in (0..o.cap - 1) \ DOMAIN a}
    [] q.op = "drop" ->
         IF x \notin DOMAIN a THEN fatal
         ELSE LET later == {j \in DOMAIN a : j > x} IN
              set(L_Drop(a, x), IF later = {} THEN -1 ELSE CHOOSE j \in later : \A i \in later : j <= i)
    [] q.op = "has" -> stay(IF x \in DOMAIN a THEN a[x] ELSE -1)
    \* ---- sequences
    [] q.op = "eq" -> stay(IF a = o.b THEN 1 ELSE 2)
    [] q.op = "resize" ->
         IF p > o.cap THEN stay(0) ELSE set(IF p <= n THEN SubSeq(a, 1, p) ELSE a \o SQ_Repeat(p - n, x), 1)
    [] q.op = "ctorN" -> {end([o EXCEPT !.b = SQ_Repeat(IF p > o.cap THEN o.cap ELSE p, x)], 1)}
    [] q.op = "at" -> IF x >= n THEN fatal ELSE stay(a[x + 1])
    [] q.op = "front" -> IF n = 0 THEN fatal ELSE stay(a[1])
    [] q.op = "back" -> IF n = 0 THEN fatal ELSE stay(a[n])
    [] q.op \in {"pushBack", "pushBackM", "emplaceBack"} -> add(Append(a, x), 1)
    [] q.op \in {"pushFront", "pushFrontM"} -> add(<<x>> \o a, 1)
    [] q.op = "popBack" -> IF n = 0 THEN stay(0) ELSE set(SubSeq(a, 1, n - 1), 1)
    [] q.op = "popFront" -> IF n = 0 THEN stay(0) ELSE set(Tail(a), 1)
    [] q.op = "popValue" -> IF n = 0 THEN stay(-99) ELSE set(SubSeq(a, 1, n - 1), a[n])
    [] q.op \in {"remove", "removeIf"} -> set(kept, n - Len(kept))
    [] q.op = "emplace" /\ o.kind = "vector" -> IF full \/ p > n THEN stay(0) ELSE set(SQ_Insert(a, p, x), 1)
    [] q.op = "erase" /\ o.kind = "vector" -> IF x >= n THEN stay(0) ELSE set(SQ_Erase(a, x), 1)
    \* lists: an iterator that was moved on beyond the end starts again; before the position, behind it in a flist
    [] q.op \in {"emplace", "insert", "insertM"} ->
         IF p > n THEN {} ELSE IF full THEN stay(-1) ELSE set(SQ_Insert(a, p, x), p)
    [] q.op = "erase" -> IF x > n THEN {} ELSE IF x = n THEN stay(-1) ELSE set(SQ_Erase(a, x), IF x = n - 1 THEN -1 ELSE x)
    [] OTHER -> {}
SQ_Observe(o, e) == FALSE
=============================================================================
