-------------------------------- MODULE Loan --------------------------------
(* Loans of blocks. pools[i] = [size, n]: n blocks of that size. refs = function from blocks <<pool, block>> to the    *)
(* number of its users (absent: free); slot = what the users hold; a block is free once nobody uses it.                *)
(* A request: <<slot, k, s, alignment, user header size, user header alignment>>, for s bytes (k = 0), 2^64 - s (1) or *)
(* s * 2^40 (2). Answers: <<1, pool, block>>, or <<0, error>>: 1 invalid, 2 no pool, 3 none free, 4 too many.          *)
(* kind "port": a publisher; last = its latest sent block, hist = blocks it keeps for late joiners.                    *)
EXTENDS Lin
LO_L0 == [x |-> 0]
LO_Init(cfg) == {[cfg |-> cfg, refs |-> <<>>, slot |-> <<>>, last |-> <<>>, hist |-> <<>>]}
LO_Max(a, b) == IF a > b THEN a ELSE b
LO_Up(x, a) == ((x + a - 1) \div a) * a
LO_Pow2(x) == \E k \in 0..30 : x = 2^k
LO_Align(x) == IF x = 0 THEN 1 ELSE x
\* bytes beyond the payload for which there must be room, whatever the address of the block
LO_Extra(cfg, al, uh) == IF uh = 0 THEN IF al <= cfg.ha THEN cfg.hs ELSE cfg.hs - cfg.ha + al
                         ELSE LO_Up(cfg.hs + uh, 4) + LO_Max(4, al)
LO_Valid(cfg, x) == /\ LO_Pow2(LO_Align(x[4])) /\ LO_Pow2(LO_Align(x[6])) /\ LO_Align(x[6]) <= cfg.ha
                    /\ x[5] % LO_Align(x[6]) = 0
                    /\ x[2] = 1 => x[3] > LO_Extra(cfg, LO_Align(x[4]), x[5])
LO_Fits(cfg, x, size) == x[2] = 0 /\ LO_Extra(cfg, LO_Align(x[4]), x[5]) <= size - x[3]
LO_Pools(cfg, x) == {i \in DOMAIN cfg.pools : LO_Fits(cfg, x, cfg.pools[i].size)}
LO_Smallest(I) == CHOOSE i \in I : \A j \in I : i <= j
LO_Free(o, i) == {b \in 1..o.cfg.pools[i].n : <<i, b>> \notin DOMAIN o.refs}
LO_Add(refs, b) == [y \in DOMAIN refs \cup {b} |-> IF y = b THEN (IF b \in DOMAIN refs THEN refs[b] ELSE 0) + 1 ELSE refs[y]]
LO_Sub(refs, b) == IF refs[b] = 1 THEN [y \in DOMAIN refs \ {b} |-> refs[y]] ELSE [refs EXCEPT ![b] = @ - 1]
LO_Take(o, s, b) == [o EXCEPT !.refs = LO_Add(@, b), !.slot = L_Put(@, s, b)]
LO_Info(o) == LET f[i \in 0..Len(o.cfg.pools)] ==
                    IF i = 0 THEN <<>>
                    ELSE f[i - 1] \o <<o.cfg.pools[i].n - Cardinality(LO_Free(o, i)), o.cfg.pools[i].n, o.cfg.pools[i].size>>
              IN f[Len(o.cfg.pools)]
LO_Step(o, t, q) ==
  LET x == q.a
      port == o.cfg.kind = "port"
      I == LO_Pools(o.cfg, x)
      full == port /\ Cardinality(DOMAIN o.slot) >= o.cfg.max
      drop(o2, s) == [o2 EXCEPT !.refs = LO_Sub(@, o2.slot[s]), !.slot = L_Drop(@, s)]
      err(n) == {L_End(o, q, <<0, n>>)}
      \* the sender keeps the block, and the latest ones for late joiners
      b == IF q.op = "send" THEN o.slot[x[1]] ELSE <<>>
      r1 == IF o.cfg.history > 0 THEN LO_Add(o.refs, b) ELSE o.refs
      r2 == IF o.cfg.history > 0 /\ Len(o.hist) = o.cfg.history THEN LO_Sub(r1, o.hist[1]) ELSE r1
      h2 == IF o.cfg.history = 0 THEN <<>> ELSE IF Len(o.hist) = o.cfg.history THEN Append(Tail(o.hist), b) ELSE Append(o.hist, b)
      r3 == IF o.last # <<>> THEN LO_Sub(r2, o.last) ELSE r2
  IN
  CASE q.pc # "start" -> {}
    [] q.op = "info" -> {L_End(o, q, LO_Info(o))}
    [] q.op = "previous" -> {L_End(o, q, IF o.last = <<>> THEN <<0, 0>> ELSE o.last)}
    [] q.op = "copy" -> {L_End(LO_Take(o, x[2], o.slot[x[1]]), q, <<>>)}
    [] q.op \in {"drop", "release"} -> {L_End(drop(o, x[1]), q, <<1>>)}
    [] q.op = "send" -> {L_End([o EXCEPT !.refs = r3, !.hist = h2, !.last = b, !.slot = L_Drop(@, x[1])], q, <<1>>)}
    [] q.op = "loan" ->
         (IF ~LO_Valid(o.cfg, x) THEN err(1)
          ELSE IF port /\ o.last # <<>> /\ o.refs[o.last] = 1 /\ LO_Fits(o.cfg, x, o.cfg.pools[o.last[1]].size)
               THEN IF full THEN err(4) ELSE {L_End(LO_Take(o, x[1], o.last), q, <<1>> \o o.last)}
          ELSE IF I = {} THEN err(2)
          ELSE LET i == LO_Smallest(I) IN
               IF LO_Free(o, i) = {} THEN err(3)
               ELSE IF full THEN err(4)
               ELSE {L_End(LO_Take(o, x[1], <<i, n>>), q, <<1, i, n>>) : n \in LO_Free(o, i)})
    [] OTHER -> {}
\* where a loan lies in its block: request, pool, block, offset of metadata, of the user header (-1: none), of the payload,
\* remainders of both addresses, mapping back, recorded sizes right, recorded block size, used size at most that
LO_Observe(o, e) ==
  LET x == <<0>> \o e.a
      size == x[3]  al == LO_Align(x[4])  uh == x[5]
      pool == x[7]  meta == x[9]  uhAt == x[10]  at == x[11]
  IN /\ pool \in DOMAIN o.cfg.pools /\ x[8] \in 1..o.cfg.pools[pool].n
     /\ x[2] = 0
     /\ meta = 0
     /\ IF uh = 0 THEN uhAt = -1 /\ at >= o.cfg.hs
        ELSE uhAt >= o.cfg.hs /\ at >= uhAt + uh /\ x[13] = 0
     /\ at + size <= o.cfg.pools[pool].size
     /\ x[12] = 0
     /\ x[14] = 1 /\ x[15] = 1
     /\ x[16] = o.cfg.pools[pool].size /\ x[17] = 1
=============================================================================
