-------------------------------- MODULE Queue --------------------------------
(* The queues that carry samples between threads and processes, as their users see them.                             *)
(*                                                                                                                    *)
(* A state: q the elements in order, free the number of slots nobody uses, cap the capacity, p[t] the pending call of *)
(* thread t with its progress st and its result r.                                                                    *)
(*   mpmc / resize   push takes a free slot or, only if the queue is full, the oldest element (which it returns);     *)
(*                   tryPush fails only if no slot is free; pop takes the oldest element and gives its slot back;     *)
(*                   an element in flight (slot taken, not yet appended / taken, slot not yet given back) uses a slot *)
(*   sofi            push appends and then, if the queue holds more than its capacity, evicts the oldest (overflow)   *)
(*   fifo            push fails iff full                                                                              *)
(*   loffli          the lock-free free list: q is not used, free is the set of free indices                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Threads == 0..3
Idle == [o |-> "idle", a |-> 0, st |-> "idle", r |-> <<>>, mc |-> 0]
Q_Init(cfg) ==
  { [type |-> cfg.type, max |-> cfg.max, cap |-> cfg.cap, q |-> <<>>, resizing |-> FALSE,
     free |-> IF cfg.type = "loffli" THEN 0..(cfg.cap - 1) ELSE {},
     n |-> cfg.cap, p |-> [t \in Threads |-> Idle]] }

Set(c, t, st, r) == [c EXCEPT !.p[t].st = st, !.p[t].r = r]
Done(c, t, r) == Set(c, t, "done", r)
Mpmc(c) == c.type \in {"mpmc", "resize"}
Min(a, b) == IF a < b THEN a ELSE b
\* the capacity changes: everybody who is pushing may have seen the smallest one
SetCap(c, k) == [c EXCEPT !.cap = k, !.p = [t \in Threads |-> [c.p[t] EXCEPT !.mc = Min(@, k)]]]

\* ---- pushes that may not fail
PushNew(c, t) ==
  IF c.type = "sofi"
  THEN { Set([c EXCEPT !.q = Append(@, c.p[t].a)], t, "appended", <<>>) }
  ELSE (IF c.n > 0 THEN { Set([c EXCEPT !.n = @ - 1], t, "slot", <<>>) } ELSE {})
       \cup (IF Len(c.q) >= c.p[t].mc /\ c.q # <<>>
             THEN { Set([c EXCEPT !.q = Tail(@)], t, "slot", <<Head(c.q)>>) } ELSE {})
PushAppended(c, t) ==   \* sofi
  IF Len(c.q) > c.cap THEN { Done([c EXCEPT !.q = Tail(@)], t, <<Head(c.q)>>) } ELSE { Done(c, t, <<>>) }
PushSlot(c, t) == { Done([c EXCEPT !.q = Append(@, c.p[t].a)], t, c.p[t].r) }
\* ---- pushes that fail if the queue is full
TryNew(c, t) ==
  IF c.type = "fifo"
  THEN IF Len(c.q) < c.cap THEN { Done([c EXCEPT !.q = Append(@, c.p[t].a)], t, <<1>>) } ELSE { Done(c, t, <<0>>) }
  ELSE IF c.n > 0 THEN { Set([c EXCEPT !.n = @ - 1], t, "slot", <<1>>) } ELSE { Done(c, t, <<0>>) }
\* ---- pop
PopNew(c, t) ==
  IF c.q = <<>> THEN { Done(c, t, <<>>) }
  ELSE LET d == [c EXCEPT !.q = Tail(@)] IN
       IF Mpmc(c) THEN { Set(d, t, "taken", <<Head(c.q)>>) } ELSE { Done(d, t, <<Head(c.q)>>) }
PopTaken(c, t) == { Done([c EXCEPT !.n = @ + 1], t, c.p[t].r) }
\* ---- inspection
InFlight(c) == Cardinality({t \in Threads : c.p[t].st \in {"slot", "taken", "removed"}})
SizeNew(c, t) == IF Mpmc(c) THEN { Done(c, t, <<k>>) : k \in Len(c.q)..(Len(c.q) + InFlight(c)) } ELSE { Done(c, t, <<Len(c.q)>>) }
EmptyNew(c, t) == { Done(c, t, <<IF c.q = <<>> THEN 1 ELSE 0>>) }
CapNew(c, t) == { Done(c, t, <<c.cap>>) }
\* ---- change of capacity; r = <<1>> followed by the elements removed, oldest first
SetCapNew(c, t) ==
  LET k == c.p[t].a IN
  IF c.type = "sofi"
  THEN IF c.q = <<>> /\ k <= c.max THEN { Done([c EXCEPT !.cap = k], t, <<1>>) } ELSE { Done(c, t, <<0>>) }
  ELSE IF k > c.max \/ c.resizing THEN { Done(c, t, <<0>>) }
       ELSE { Set([c EXCEPT !.resizing = TRUE], t, "resizing", <<1>>) }
SetCapResizing(c, t) ==
  LET k == c.p[t].a IN
  IF c.cap = k THEN { Done([c EXCEPT !.resizing = FALSE], t, c.p[t].r) }
  ELSE IF c.cap < k THEN { Set(SetCap(c, c.cap + 1), t, "grow", c.p[t].r) }
  ELSE (IF c.n > 0 THEN { Set([c EXCEPT !.n = @ - 1], t, "shrink", c.p[t].r) } ELSE {})
       \cup (IF Len(c.q) >= c.cap /\ c.q # <<>> THEN { Set([c EXCEPT !.q = Tail(@)], t, "removed", Append(c.p[t].r, Head(c.q))) } ELSE {})
SetCapGrow(c, t) == { Set([c EXCEPT !.n = @ + 1], t, "resizing", c.p[t].r) }
SetCapShrink(c, t) == { Set(SetCap(c, c.cap - 1), t, "resizing", c.p[t].r) }
\* ---- free list
GetNew(c, t) == IF c.free = {} THEN { Done(c, t, <<>>) } ELSE { Done([c EXCEPT !.free = @ \ {x}], t, <<x>>) : x \in c.free }
PutNew(c, t) == LET x == c.p[t].a IN
  IF x >= c.cap \/ x \in c.free THEN { Done(c, t, <<0>>) } ELSE { Done([c EXCEPT !.free = @ \cup {x}], t, <<1>>) }

StepsOf(c, t) ==
  LET o == c.p[t].o  s == c.p[t].st IN
  CASE s \in {"idle", "done"} -> {}
    [] o = "push" /\ s = "new" -> PushNew(c, t)
    [] o = "push" /\ s = "appended" -> PushAppended(c, t)
    [] o \in {"push", "tryPush"} /\ s = "slot" -> PushSlot(c, t)
    [] o = "tryPush" /\ s = "new" -> TryNew(c, t)
    [] o = "pop" /\ s = "new" -> PopNew(c, t)
    [] o = "pop" /\ s = "taken" -> PopTaken(c, t)
    [] o = "size" -> SizeNew(c, t)
    [] o = "empty" -> EmptyNew(c, t)
    [] o = "capacity" -> CapNew(c, t)
    [] o = "setCapacity" /\ s = "new" -> SetCapNew(c, t)
    [] o = "setCapacity" /\ s = "resizing" -> SetCapResizing(c, t)
    [] o = "setCapacity" /\ s = "grow" -> SetCapGrow(c, t)
    [] o = "setCapacity" /\ s \in {"shrink", "removed"} -> SetCapShrink(c, t)
    [] o = "get" -> GetNew(c, t)
    [] o = "put" -> PutNew(c, t)
Steps(c) == UNION { StepsOf(c, t) : t \in {u \in Threads : c.p[u].st \notin {"idle", "done"}} }

RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET nx == (UNION { Steps(c) : c \in new }) \ all IN Close(all \cup nx, nx)
Begin(c, t, o, a) == [c EXCEPT !.p[t] = [o |-> o, a |-> a, st |-> "new", r |-> <<>>, mc |-> c.cap]]
Arg(e) == IF e.a = <<>> THEN 0 ELSE e.a[1]
Q_Call(S, t, o, a) == LET B == { Begin(c, t, o, a) : c \in S } IN Close(B, B)
Q_Ret(S, t, r) == { [c EXCEPT !.p[t] = Idle] : c \in { d \in S : d.p[t].st = "done" /\ d.p[t].r = r } }
Q_Post(S, e) ==
  CASE e.k = "c" -> Q_Call(S, e.t, e.o, Arg(e))
    [] e.k = "r" -> Q_Ret(S, e.t, e.a)
    [] OTHER -> {}      \* stuck, fatal: never explained

\* ---- invariants of the specification itself (checked by QueueModel)
SlotsUsed(c) == Cardinality({t \in Threads : c.p[t].st \in {"slot", "taken"}})
Bounded(c) == \/ c.type = "loffli"
              \/ c.type = "sofi" /\ Len(c.q) <= c.cap + 1
              \/ c.type = "fifo" /\ Len(c.q) <= c.cap
              \/ Mpmc(c) /\ Len(c.q) <= c.max /\ (~c.resizing => c.n + Len(c.q) + SlotsUsed(c) = c.cap)
==============================================================================
