------------------------------- MODULE Codec -------------------------------
(* Encoded control data, as sequences of character codes.                                                             *)
(* msg: a message is a sequence of entries, each followed by the separator; it is invalid after an entry with a       *)
(*   separator was added, or when it was set to a text that does not end with the separator.                          *)
(* ser: values are encoded as length ':' text, one after the other; fields: n >= 0 a string up to n characters, of which k are kept,     *)
(*   n = -1 a number up to the decimal m. A text is decoded to exactly the values it encodes, or refused.             *)
EXTENDS Lin
CO_L0 == [x |-> 0]
CO_Sep == 44
CO_Colon == 58
CO_Init(cfg) == {[kind |-> cfg.kind, fields |-> cfg.fields, valid |-> TRUE, e |-> <<>>, s |-> <<>>]}
CO_Has(s, ch) == \E i \in DOMAIN s : s[i] = ch
CO_First(s, ch) == CHOOSE i \in DOMAIN s : s[i] = ch /\ \A j \in 1..(i - 1) : s[j] # ch
RECURSIVE CO_Split(_)
CO_Split(s) == IF s = <<>> THEN <<>>
               ELSE LET i == CO_First(s, CO_Sep) IN <<SubSeq(s, 1, i - 1)>> \o CO_Split(SubSeq(s, i + 1, Len(s)))
RECURSIVE CO_Many(_)
CO_Many(e) == IF e = <<>> THEN <<>> ELSE <<Len(e[1])>> \o e[1] \o CO_Many(Tail(e))
RECURSIVE CO_Parts(_)
CO_Parts(x) == IF x = <<>> THEN <<>> ELSE <<SubSeq(x, 2, x[1] + 1)>> \o CO_Parts(SubSeq(x, x[1] + 2, Len(x)))
\* decimal numbers
CO_Digits(d) == d # <<>> /\ \A i \in DOMAIN d : d[i] \in 48..57
RECURSIVE CO_Strip(_)
CO_Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN CO_Strip(Tail(d)) ELSE d
RECURSIVE CO_Less(_, _)   \* of equal length
CO_Less(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE CO_Less(Tail(a), Tail(b))
CO_AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~CO_Less(b, a))
RECURSIVE CO_Value(_, _)
CO_Value(d, acc) == IF d = <<>> THEN acc ELSE CO_Value(Tail(d), acc * 10 + d[1] - 48)
RECURSIVE CO_Decimal(_)
CO_Decimal(n) == IF n < 0 THEN <<45>> \o CO_Decimal(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE CO_Decimal(n \div 10) \o <<48 + (n % 10)>>
\* first value of an encoded text: <<it, rest>> or <<>>
CO_Entry(s) ==
  IF ~CO_Has(s, CO_Colon) THEN <<>>
  ELSE LET p == CO_First(s, CO_Colon)
           d == SubSeq(s, 1, p - 1)
           z == CO_Strip(d)
       IN IF ~CO_Digits(d) THEN <<>>
          ELSE IF Len(z) > 6 THEN <<>>
          ELSE IF CO_Value(z, 0) > Len(s) - p THEN <<>>
          ELSE <<SubSeq(s, p + 1, p + CO_Value(z, 0)), SubSeq(s, p + 1 + CO_Value(z, 0), Len(s))>>
\* the value of a field: <<it>> or <<>>
CO_Field(f, v) ==
  IF f.n >= 0 THEN IF Len(v) <= f.n THEN <<SubSeq(v, 1, IF Len(v) < f.k THEN Len(v) ELSE f.k)>> ELSE <<>>
  ELSE IF CO_Digits(v) /\ CO_AtMost(CO_Strip(v), f.m) THEN <<CO_Strip(v)>> ELSE <<>>
RECURSIVE CO_Decode(_, _, _)
CO_Decode(s, fields, acc) ==
  IF fields = <<>> THEN IF s = <<>> THEN <<acc>> ELSE <<>>
  ELSE LET e == CO_Entry(s) IN
       IF e = <<>> THEN <<>>
       ELSE LET v == CO_Field(fields[1], e[1]) IN IF v = <<>> THEN <<>> ELSE CO_Decode(e[2], Tail(fields), Append(acc, v[1]))
RECURSIVE CO_Encode(_)
CO_Encode(vals) == IF vals = <<>> THEN <<>> ELSE CO_Decimal(Len(vals[1])) \o <<CO_Colon>> \o vals[1] \o CO_Encode(Tail(vals))
RECURSIVE CO_Nth(_, _)
CO_Nth(s, n) == LET e == CO_Entry(s) IN IF e = <<>> THEN <<>> ELSE IF n = 0 THEN <<e[1]>> ELSE CO_Nth(e[2], n - 1)
CO_Step(o, t, q) ==
  LET x == q.a
      msg(valid, e) == {L_End([o EXCEPT !.valid = valid, !.e = e], q,
                              IF valid THEN <<1, Len(e)>> \o CO_Many(e) \o <<0>> ELSE <<0>>)}
      ser(s) == {L_End([o EXCEPT !.s = s], q, <<1>>)}
      all == CO_Parts(x)
  IN
  CASE q.pc # "start" -> {}
    [] o.kind = "msg" ->
        (CASE q.op = "add" -> IF CO_Has(x, CO_Sep) \/ ~o.valid THEN msg(FALSE, <<>>) ELSE msg(TRUE, Append(o.e, x))
           [] q.op = "addN" -> IF ~o.valid THEN msg(FALSE, <<>>) ELSE msg(TRUE, Append(o.e, CO_Decimal(x[1])))
           [] q.op = "set" -> IF x # <<>> /\ x[Len(x)] # CO_Sep THEN msg(FALSE, <<>>) ELSE msg(TRUE, CO_Split(x))
           [] q.op = "clear" -> msg(TRUE, <<>>)
           [] q.op = "send" -> IF o.valid THEN msg(TRUE, o.e) ELSE {}
           [] q.op = "ctor" -> IF \E i \in DOMAIN all : CO_Has(all[i], CO_Sep) THEN msg(FALSE, <<>>) ELSE msg(TRUE, all)
           [] OTHER -> {})
    [] o.kind = "ser" ->
        (CASE q.op = "write" -> ser(CO_Encode(all))
           [] q.op = "raw" -> ser(x)
           [] q.op = "remove" -> IF x[1] >= Len(o.s) THEN ser(o.s) ELSE ser(SubSeq(o.s, 1, x[1]) \o SubSeq(o.s, x[1] + x[2] + 1, Len(o.s)))
           [] q.op = "insert" -> LET k == IF x[1] > Len(o.s) THEN Len(o.s) ELSE x[1] IN ser(SubSeq(o.s, 1, k) \o Tail(x) \o SubSeq(o.s, k + 1, Len(o.s)))
           [] q.op = "read" -> LET v == CO_Decode(o.s, o.fields, <<>>) IN
                               {L_End(o, q, IF v = <<>> THEN <<0>> ELSE <<1>> \o CO_Many(v[1]))}
           [] q.op = "nth" -> LET v == CO_Nth(o.s, x[1]) IN {L_End(o, q, IF v = <<>> THEN <<0>> ELSE <<1>> \o CO_Many(v))}
           [] OTHER -> {})
    [] OTHER -> {}
CO_Observe(o, e) == FALSE
=============================================================================
