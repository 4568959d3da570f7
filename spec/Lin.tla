-------------------------------- MODULE Lin --------------------------------
(* Conformance of call/return histories with an object whose operations are sequences of atomic steps.               *)
(* Object: ObjInit(cfg) = initial states; L0 = initial local state of a call;                                         *)
(*   Step(o, t, q) = the ways in which call q of thread t can do its next step in object state o: a set of            *)
(*   [o |-> object state, q |-> call]; a call is over when q.pc = "done", its answer is q.r.                          *)
(* Events: c (call: t, o, a), r (return: t, a), x (call and return at once: t, o, a, r),                              *)
(*   die (t stops wherever it is), blocked (the calls of threads a cannot go on), o (observation: o, a),              *)
(*   fatal (the call of t reports a fatal error, the execution ends: the call must be at pc "fatal").                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS ObjInit(_), L0, Step(_, _, _), Observe(_, _)
L_Init(cfg) == {[o |-> x, p |-> <<>>] : x \in ObjInit(cfg)}
L_Call(e) == [op |-> e.o, a |-> e.a, pc |-> "start", l |-> L0, r |-> <<>>]
L_Put(p, t, q) == [u \in DOMAIN p \cup {t} |-> IF u = t THEN q ELSE p[u]]
L_Drop(p, t) == [u \in DOMAIN p \ {t} |-> p[u]]
L_Steps(s, t) == IF s.p[t].pc = "done" THEN {}
                 ELSE {[o |-> z.o, p |-> [s.p EXCEPT ![t] = z.q]] : z \in Step(s.o, t, s.p[t])}
RECURSIVE L_Close(_, _)
L_Close(new, all) ==
  LET nx == UNION {UNION {L_Steps(s, t) : t \in DOMAIN s.p} : s \in new} \ all
  IN IF nx = {} THEN all ELSE L_Close(nx, all \cup nx)
L_Closure(S) == L_Close(S, S)
\* one call alone, from start to end
RECURSIVE L_Alone(_, _, _)
L_Alone(new, t, done) ==
  LET nx == UNION {Step(z.o, t, z.q) : z \in new}
      d == {z \in nx : z.q.pc = "done"}
  IN IF nx = {} THEN done ELSE L_Alone(nx \ d, t, done \cup d)
L_Post(S, e) ==
  CASE e.k = "c" -> {[s EXCEPT !.p = L_Put(s.p, e.t, L_Call(e))] : s \in S}
    [] e.k = "r" -> {[s EXCEPT !.p = L_Drop(s.p, e.t)] :
                       s \in {x \in L_Closure(S) : x.p[e.t].pc = "done" /\ x.p[e.t].r = e.a}}
    [] e.k = "x" -> UNION {{[s EXCEPT !.o = z.o] : z \in {y \in L_Alone({[o |-> s.o, q |-> L_Call(e)]}, e.t, {}) : y.q.r = e.r}} : s \in S}
    [] e.k = "die" -> {[s EXCEPT !.p = L_Drop(s.p, e.t)] : s \in L_Closure(S)}
    [] e.k = "blocked" -> {s \in L_Closure(S) : \A j \in DOMAIN e.a : s.p[e.a[j]].pc # "done" /\ L_Steps(s, e.a[j]) = {}}
    [] e.k = "fatal" -> {s \in L_Closure(S) : e.t \in DOMAIN s.p /\ s.p[e.t].pc = "fatal"}
    [] e.k = "o" -> {s \in S : Observe(s.o, e)}
    [] OTHER -> {}
\* helpers for specifications
L_End(o, q, r) == [o |-> o, q |-> [q EXCEPT !.pc = "done", !.r = r, !.l = L0]]
L_Go(o, q, pc) == [o |-> o, q |-> [q EXCEPT !.pc = pc]]
L_Bool(b) == IF b THEN 1 ELSE 0
RECURSIVE L_Sorted(_)
L_Sorted(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o L_Sorted(X \ {m})
============================================================================
