--------------------------------- MODULE Hb ---------------------------------
(* The happens-before relation of the C++ memory model (C++17), computed with vector clocks over a sequence of memory   *)
(* accesses with their declared memory orders, and the absence of data races: two accesses to a place conflict if they  *)
(* are made by different threads, at least one of them writes and at least one of them is not atomic; conflicting       *)
(* accesses must be ordered by happens-before.  This judges what the language guarantees on any processor, whatever the *)
(* order in which one particular processor happened to carry the accesses out.                                          *)
(*                                                                                                                      *)
(* Thread 1 starts and joins the others.  C[t]: what thread t knows of each thread; A[t]: what it would learn at an     *)
(* acquire fence; F[t]: what it knew at its last release fence; L[l]: what a reader of atomic l learns, H[l] the thread  *)
(* whose release sequence this is.  For each place x and thread t the times of the last plain read and write and of the *)
(* last atomic read and write.                                                                                          *)
EXTENDS Naturals, Sequences, FiniteSets
Zero(n) == [t \in 1..n |-> 0]
Join(a, b) == [t \in DOMAIN a |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
\* everything accessed so far is known: a <= b
Below(a, b) == \A t \in DOMAIN a : a[t] <= b[t]

HB_Init(n, nl, nx) ==
  [C |-> [t \in 1..n |-> [u \in 1..n |-> IF u = t THEN 1 ELSE 0]],
   A |-> [t \in 1..n |-> Zero(n)],
   F |-> [t \in 1..n |-> Zero(n)],
   L |-> [l \in 1..nl |-> Zero(n)],
   H |-> [l \in 1..nl |-> 0],
   pr |-> [x \in 1..nx |-> Zero(n)], pw |-> [x \in 1..nx |-> Zero(n)],
   ar |-> [x \in 1..nx |-> Zero(n)], aw |-> [x \in 1..nx |-> Zero(n)]]

Tick(s, t) == [s EXCEPT !.C[t][t] = @ + 1]
Range(q) == {q[k] : k \in DOMAIN q}

\* a plain access to the places xs: {} is a data race
Read(s, t, xs) ==
  IF \A x \in xs : Below(s.pw[x], s.C[t]) /\ Below(s.aw[x], s.C[t])
  THEN {[s EXCEPT !.pr = [x \in DOMAIN @ |-> IF x \in xs THEN [@[x] EXCEPT ![t] = s.C[t][t]] ELSE @[x]]]} ELSE {}
Write(s, t, xs) ==
  IF \A x \in xs : /\ Below(s.pw[x], s.C[t]) /\ Below(s.pr[x], s.C[t])
                   /\ Below(s.aw[x], s.C[t]) /\ Below(s.ar[x], s.C[t])
  THEN {[s EXCEPT !.pw = [x \in DOMAIN @ |-> IF x \in xs THEN [@[x] EXCEPT ![t] = s.C[t][t]] ELSE @[x]]]} ELSE {}
\* an atomic access to places that are also accessed otherwise
Touch(s, t, xs, rd, wr) ==
  IF xs = {} THEN {s}
  ELSE IF \A x \in xs : /\ Below(s.pw[x], s.C[t])
                        /\ wr => Below(s.pr[x], s.C[t])
  THEN {[s EXCEPT !.ar = IF rd THEN [x \in DOMAIN @ |-> IF x \in xs THEN [@[x] EXCEPT ![t] = s.C[t][t]] ELSE @[x]] ELSE @,
                  !.aw = IF wr THEN [x \in DOMAIN @ |-> IF x \in xs THEN [@[x] EXCEPT ![t] = s.C[t][t]] ELSE @[x]] ELSE @]} ELSE {}

\* reading from a release sequence: at once if acquiring, otherwise at the next acquire fence
Load(s, t, l, acq) ==
  IF acq THEN [s EXCEPT !.C[t] = Join(@, s.L[l])] ELSE [s EXCEPT !.A[t] = Join(@, s.L[l])]
\* a store heads a new release sequence if it releases or follows a release fence; a relaxed store of the same thread
\* continues its own, one of another thread ends it
Store(s, t, l, rel) ==
  IF rel THEN Tick([s EXCEPT !.L[l] = s.C[t], !.H[l] = t], t)
  ELSE [s EXCEPT !.L[l] = IF s.H[l] = t THEN Join(@, s.F[t]) ELSE s.F[t], !.H[l] = t]
\* a read-modify-write continues the sequence it reads from, whatever its order
Rmw(s, t, l, acq, rel) ==
  LET r == Load(s, t, l, acq)
  IN IF rel THEN Tick([r EXCEPT !.L[l] = Join(@, r.C[t])], t)
            ELSE [r EXCEPT !.L[l] = Join(@, s.F[t])]
Fence(s, t, acq, rel) ==
  LET r == IF acq THEN [s EXCEPT !.C[t] = Join(@, s.A[t])] ELSE s
  IN IF rel THEN Tick([r EXCEPT !.F[t] = r.C[t]], t) ELSE r
Start(s, t) == Tick([s EXCEPT !.C = [u \in DOMAIN @ |-> Join(@[u], s.C[t])]], t)
RECURSIVE JoinAll(_, _, _)
JoinAll(s, t, u) == IF u = 0 THEN s ELSE JoinAll([s EXCEPT !.C[t] = Join(@, s.C[u])], t, u - 1)

HB_Step(s, e) ==
  LET B(x) == x = 1 IN
  CASE e.k = "R" -> Read(s, e.t, Range(e.x))
    [] e.k = "W" -> Write(s, e.t, Range(e.x))
    [] e.k = "ld" -> {Load(u, e.t, e.l, B(e.a)) : u \in Touch(s, e.t, Range(e.x), TRUE, FALSE)}
    [] e.k = "st" -> {Store(u, e.t, e.l, B(e.r)) : u \in Touch(s, e.t, Range(e.x), FALSE, TRUE)}
    [] e.k = "rmw" -> {Rmw(u, e.t, e.l, B(e.a), B(e.r)) : u \in Touch(s, e.t, Range(e.x), TRUE, TRUE)}
    [] e.k = "fence" -> {Fence(s, e.t, B(e.a), B(e.r))}
    [] e.k = "start" -> {Start(s, e.t)}
    [] e.k = "join" -> {JoinAll(s, e.t, Len(s.C))}
    [] OTHER -> {}
HB_InitSet(cfg) == {HB_Init(cfg.n, cfg.l, cfg.x)}
HB_Post(S, e) == UNION {HB_Step(s, e) : s \in S}
=============================================================================
