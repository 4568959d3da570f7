-------------------------------- MODULE Segs --------------------------------
(* Configured payload segments, their pools, and what users of any set of groups get.                                  *)
(* cfg.segs[i] = [r: reader group, w: writer group, pools: sequence of <<number of blocks, size>>]; cfg.hdr: what      *)
(* every block has in addition.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, Lin
SG_L0 == 0
SG_Init(cfg) == {[cfg |-> cfg, made |-> FALSE]}
Seg(o) == 1..Len(o.cfg.segs)
SG_Pools(o, s) == o.cfg.segs[s].pools
\* pools must be given in increasing order, sizes in units of 8
SG_Good(o) == \A s \in Seg(o) : LET z == SG_Pools(o, s) IN
                /\ \A p \in 1..Len(z) : (z[p][2] + o.cfg.hdr) % 8 = 0
                /\ \A p \in 2..Len(z) : z[p - 1][2] < z[p][2]
SG_Writes(o, G) == {s \in Seg(o) : o.cfg.segs[s].w \in G}
SG_Reads(o, G) == {s \in Seg(o) : o.cfg.segs[s].r \in G} \ SG_Writes(o, G)
RECURSIVE SG_Flat(_, _, _)
SG_Flat(o, G, s) == IF s > Len(o.cfg.segs) THEN <<>>
                    ELSE (IF s \in SG_Writes(o, G) THEN <<s, 1>> ELSE IF s \in SG_Reads(o, G) THEN <<s, 0>> ELSE <<>>) \o SG_Flat(o, G, s + 1)
RECURSIVE SG_Sum(_, _)
SG_Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + SG_Sum(f, k - 1)
\* the description of all blocks: per segment -1, its size; per pool -2, number, block size, used; then offset and size of every
\* block; at the end -3 and how many blocks did not keep what was written
SG_Layout(o, a) ==
  LET n == Len(o.cfg.segs)
      plen(s) == [p \in 1..Len(SG_Pools(o, s)) |-> 4 + 2 * SG_Pools(o, s)[p][1]]
      slen == [s \in 1..n |-> 2 + SG_Sum(plen(s), Len(plen(s)))]
      sat(s) == 1 + SG_Sum(slen, s - 1)
      pat(s, p) == sat(s) + 2 + SG_Sum(plen(s), p - 1)
      off(s, p, i) == a[pat(s, p) + 4 + 2 * (i - 1)]
      len(s, p, i) == a[pat(s, p) + 5 + 2 * (i - 1)]
      B(s) == {<<p, i>> \in (1..Len(SG_Pools(o, s))) \X (1..6) : i <= SG_Pools(o, s)[p][1]}
  IN /\ Len(a) = SG_Sum(slen, n) + 2 /\ a[Len(a) - 1] = -3 /\ a[Len(a)] = 0
     /\ \A s \in 1..n :
          /\ a[sat(s)] = -1
          /\ \A p \in 1..Len(SG_Pools(o, s)) :
               LET z == SG_Pools(o, s)[p]
                   k == pat(s, p)
               IN a[k] = -2 /\ a[k + 1] = z[1] /\ a[k + 2] = z[2] + o.cfg.hdr /\ a[k + 3] = 0
          /\ \A b \in B(s) :
               /\ len(s, b[1], b[2]) = SG_Pools(o, s)[b[1]][2] + o.cfg.hdr
               /\ off(s, b[1], b[2]) >= 0 /\ off(s, b[1], b[2]) % 8 = 0
               /\ off(s, b[1], b[2]) + len(s, b[1], b[2]) <= a[sat(s) + 1]
               /\ \A c \in B(s) \ {b} : off(s, b[1], b[2]) + len(s, b[1], b[2]) <= off(s, c[1], c[2]) \/ off(s, c[1], c[2]) + len(s, c[1], c[2]) <= off(s, b[1], b[2])
SG_Acl(o, s) ==
  LET z == o.cfg.segs[s]
      lo == IF z.r < z.w THEN z.r ELSE z.w
      hi == IF z.r < z.w THEN z.w ELSE z.r
      bits(g) == IF g = z.w THEN 6 ELSE 4
  IN <<-3, 6, -1, 0, lo, bits(lo)>> \o (IF lo = hi THEN <<>> ELSE <<hi, bits(hi)>>)
SG_Step(o, t, q) ==
  LET x == q.a
      G == {x[i] : i \in DOMAIN x}
      end(o2, r) == {L_End(o2, q, r)}
      twice == Cardinality(SG_Writes(o, G)) > 1
      fits == {p \in 1..Len(SG_Pools(o, x[1])) : x[2] <= SG_Pools(o, x[1])[p][2]}
      best == CHOOSE p \in fits : \A p2 \in fits : p <= p2
  IN
  IF q.pc # "start" THEN {}
  ELSE
  CASE q.op = "create" -> IF SG_Good(o) THEN end([o EXCEPT !.made = TRUE], <<>>) ELSE {L_Go(o, q, "fatal")}
    [] ~o.made -> {}
    [] q.op = "layout" -> IF SG_Layout(o, x) THEN end(o, <<>>) ELSE {}
    [] q.op = "map" -> IF twice THEN {L_Go(o, q, "fatal")} ELSE end(o, SG_Flat(o, G, 1))
    [] q.op = "attach" -> IF twice THEN {L_Go(o, q, "fatal")} ELSE end(o, <<1>> \o SG_Flat(o, G, 1))
    [] q.op = "write" -> IF twice THEN {} ELSE end(o, L_Sorted(SG_Writes(o, G)))
    [] q.op = "alloc" -> IF fits = {} THEN end(o, <<0>>) ELSE end(o, <<best, SG_Pools(o, x[1])[best][2] + o.cfg.hdr>>)
    [] q.op = "acl" -> end(o, SG_Acl(o, x[1]))
    [] OTHER -> {}
SG_Observe(o, e) == FALSE
=============================================================================
