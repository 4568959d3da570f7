------------------------------- MODULE Daemon -------------------------------
(* kind "daemon": ports = function from numbers to [k, p, s, want, known, gone]: kind (1 publisher, 2 subscriber,      *)
(*   3 server, 4 client, 5 interface, 6 condition variable), owner, service, whether its user offers it, whether the   *)
(*   daemon knows that, whether its user gave it up; next = ports ever created.  pub = <<services of publishers, of    *)
(*   servers>> as last published to the searching process, news = not yet fetched by it, cache = what it fetched last; *)
(*   hold: it is fetching; meanwhile the daemon may lack the memory to publish, and does it later.                     *)
(* kind "registry": reg = function from services to <<publishers, servers>>, chg = something changed.                  *)
(* Services: 4 * service + 2 * instance + event; 90 and above: reserved for the daemon.                                *)
EXTENDS Lin
DM_L0 == [todo |-> {}, new |-> <<>>]
DM_Init(cfg) == {[cfg |-> cfg, ports |-> <<>>, next |-> 0, pub |-> <<{}, {}>>, news |-> TRUE, hold |-> FALSE, cache |-> <<{}, {}>>,
                  reg |-> <<>>, chg |-> "yes"]}
DM_Match(s, x) == /\ x[1] \in {-1, s \div 4} /\ x[2] \in {-1, (s \div 2) % 2} /\ x[3] \in {-1, s % 2}
DM_Of(o, k) == {n \in DOMAIN o.ports : o.ports[n].k = k}
DM_Without(f, X) == [n \in DOMAIN f \ X |-> f[n]]
DM_Known(o) == <<{o.ports[n].s : n \in {m \in DM_Of(o, 1) : o.ports[m].known}} \ 90..99,
                 {o.ports[n].s : n \in {m \in DM_Of(o, 3) : o.ports[m].known}}>>
RECURSIVE DM_Ports(_, _)
DM_Ports(o, X) == IF X = {} THEN <<>>
                  ELSE LET n == CHOOSE x \in X : \A y \in X : x <= y
                           z == o.ports[n]
                       IN <<n, z.k, z.p, z.s, L_Bool(z.known)>> \o DM_Ports(o, X \ {n})
RECURSIVE DM_Reg(_, _)
DM_Reg(f, X) == IF X = {} THEN <<>>
                ELSE LET s == CHOOSE x \in X : \A y \in X : x <= y IN <<s>> \o f[s] \o DM_Reg(f, X \ {s})
DM_Kinds == {1, 3}
DM_Step(o, t, q) ==
  LET x == q.a
      isDisc == q.op = "discover"
      end(o2, r) == {L_End(o2, q, r)}
      \* the daemon looks at port n
      look(o2, n) == IF o2.ports[n].gone THEN [o2 EXCEPT !.ports = DM_Without(@, {n})]
                     ELSE [o2 EXCEPT !.ports[n].known = o2.ports[n].want]
      rest == q.l.todo
      same(svc, k) == {n \in DM_Of(o, k) : o.ports[n].s = svc}
      \* a given up port with the same name makes room
      uniq == x[1] = 3 \/ (x[1] = 1 /\ o.cfg.unique = 1)
      o3 == IF q.op = "create" /\ uniq THEN [o EXCEPT !.ports = DM_Without(@, {n \in same(x[3], x[1]) : o.ports[n].gone})] ELSE o
      make(o2) == IF Cardinality(DM_Of(o2, x[1])) >= o2.cfg.max[x[1]] THEN end(o2, <<0, 1>>)
                  ELSE LET w == x[1] \in DM_Kinds /\ x[4] = 1 IN
                       end([o2 EXCEPT !.next = @ + 1,
                                      !.ports = L_Put(@, o2.next + 1, [k |-> x[1], p |-> x[2], s |-> x[3], want |-> w, known |-> w, gone |-> FALSE])],
                           <<1, o2.next + 1>>)
      \* registry
      has == x[1] \in DOMAIN o.reg
      i == IF q.op \in {"addPub", "remPub"} THEN 1 ELSE 2
      cnt == IF has THEN o.reg[x[1]] ELSE <<0, 0>>
      regd(f, certain) == [o EXCEPT !.reg = f, !.chg = IF certain THEN "yes" ELSE IF o.chg = "no" THEN "perhaps" ELSE o.chg]
  IN
  IF o.cfg.kind = "registry" THEN
    IF q.pc # "start" THEN {}
    ELSE
    CASE q.op \in {"addPub", "addSrv"} ->
           IF ~has /\ Cardinality(DOMAIN o.reg) >= o.cfg.cap THEN end(o, <<0>>)
           ELSE end(regd(L_Put(o.reg, x[1], [cnt EXCEPT ![i] = @ + 1]), cnt[i] = 0), <<1>>)
      [] q.op \in {"remPub", "remSrv"} ->
           IF cnt[i] = 0 THEN end(o, DM_Reg(o.reg, DOMAIN o.reg))
           ELSE LET c2 == [cnt EXCEPT ![i] = @ - 1]
                    f == IF c2 = <<0, 0>> THEN L_Drop(o.reg, x[1]) ELSE [o.reg EXCEPT ![x[1]] = c2]
                IN end(regd(f, c2[i] = 0), DM_Reg(f, DOMAIN f))
      [] q.op = "purge" -> LET f == L_Drop(o.reg, x[1]) IN end(regd(f, has), DM_Reg(f, DOMAIN f))
      \* a change of what can be found is announced; other changes may be
      [] q.op = "changed" -> {L_End([o EXCEPT !.chg = "no"], q, <<r>>) :
                                r \in IF o.chg = "yes" THEN {1} ELSE IF o.chg = "no" THEN {0} ELSE {0, 1}}
      [] q.op = "list" -> end(o, DM_Reg(o.reg, DOMAIN o.reg))
      [] q.op = "search" -> end(o, DM_Reg(o.reg, {s \in DOMAIN o.reg : DM_Match(s, x)}))
      [] OTHER -> {}
  ELSE
  CASE q.op = "create" ->
         (IF x[1] = 1 /\ o.cfg.unique = 1 /\ (x[3] >= 90 \/ \E n \in same(x[3], 1) : ~o.ports[n].gone) THEN end(o3, <<0, 2>>)
          ELSE IF x[1] = 3 /\ \E n \in same(x[3], 3) : ~o.ports[n].gone THEN end(o3, <<0, 2>>)
          ELSE IF x[1] = 1 /\ x[3] >= 90 THEN end(o3, <<0, 3>>)
          ELSE make(o3))
    [] q.op = "offer" -> end([o EXCEPT !.ports[x[1]].want = TRUE], <<>>)
    [] q.op = "stop" -> end([o EXCEPT !.ports[x[1]].want = FALSE], <<>>)
    [] q.op = "destroy" -> end([o EXCEPT !.ports[x[1]].gone = TRUE], <<>>)
    [] q.op = "unblock" -> end([o EXCEPT !.ports = [n \in DOMAIN o.ports |->
                                  IF o.ports[n].p = x[1] THEN [o.ports[n] EXCEPT !.want = FALSE, !.known = FALSE] ELSE o.ports[n]]], <<>>)
    [] q.op = "end" -> end([o EXCEPT !.ports = DM_Without(@, {n \in DOMAIN o.ports : o.ports[n].p = x[1]})], <<>>)
    \* one port after the other, then the result is published if it differs
    [] isDisc /\ q.pc = "start" -> {[o |-> o, q |-> [q EXCEPT !.pc = "look", !.l.todo = DOMAIN o.ports]]}
    [] isDisc /\ q.pc = "look" /\ rest # {} ->
         {[o |-> look(o, n), q |-> [q EXCEPT !.l.todo = rest \ {n}]] : n \in
            \* ports whose look can make no difference now or later go first, in one order
            LET calm == {n \in rest : o.ports[n].want = o.ports[n].known /\ t = 0} IN
            IF calm # {} THEN {CHOOSE n \in calm : TRUE} ELSE IF t = 0 THEN {CHOOSE n \in rest : TRUE} ELSE rest}
    [] isDisc /\ q.pc = "look" /\ rest = {} ->
         LET new == DM_Known(o) IN
         (IF new = o.pub \/ o.hold THEN end(o, <<>>) ELSE {})
         \cup {[o |-> [o EXCEPT !.news = FALSE], q |-> [q EXCEPT !.pc = "put", !.l.new = new]]}
    [] isDisc /\ q.pc = "put" -> end([o EXCEPT !.pub = q.l.new, !.news = TRUE], <<>>)
    [] q.op = "find" /\ q.pc = "start" ->
         LET c2 == IF o.news THEN o.pub ELSE o.cache IN {L_Go([o EXCEPT !.news = FALSE, !.hold = TRUE, !.cache = c2], q, "read")}
    [] q.op = "find" /\ q.pc = "read" -> end([o EXCEPT !.hold = FALSE], L_Sorted({s \in o.cache[x[4] + 1] : DM_Match(s, x)}))
    [] q.op = "news" -> end(o, <<L_Bool(o.news)>>)
    [] q.op = "list" -> end(o, DM_Ports(o, DOMAIN o.ports))
    [] OTHER -> {}
DM_Observe(o, e) == FALSE
=============================================================================
