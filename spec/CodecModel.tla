---------------------------- MODULE CodecModel ----------------------------
(* Every text over a small alphabet, and every encoding of small values with every single alteration, is decoded.     *)
EXTENDS LinModel, Codec
Alphabet == {48, 49, 50, 58, 97}
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Words == {<<>>, <<97>>, <<58, 49>>}
Numbers == {<<48>>, <<49>>, <<50, 53>>}
Fields == <<[n |-> 2, k |-> 2, m |-> <<>>], [n |-> -1, k |-> 0, m |-> <<51, 48>>]>>
Writes == {C("write", CO_Many(<<w, x>>)) : w \in Words, x \in Numbers}
Alter == {C("remove", <<p, k>>) : p \in 0..5, k \in {1, 100}} \cup {C("insert", <<p, ch>>) : p \in 0..5, ch \in Alphabet}
CM_Menu(n) == [t \in {1} |-> <<{C("raw", x) : x \in Texts(n)} \cup Writes, {C("read", <<>>)}, Alter, {C("read", <<>>)}>>]
CM_Menu3 == CM_Menu(3)
CM_Menu5 == CM_Menu(5)
CM_Cfg == [kind |-> "ser", fields |-> Fields]
Answered == \A t \in DOMAIN pend : pend[t].pc = "start" => Step(obj, t, pend[t]) # {}
Sound == LET v == CO_Decode(obj.s, Fields, <<>>) IN
         v # <<>> => /\ Len(v[1]) = 2 /\ Len(v[1][1]) <= 2
                     /\ CO_Value(v[1][2], 0) <= 30
                     /\ CO_Decode(CO_Encode(v[1]), Fields, <<>>) = v
                     /\ \A k \in 0..(Len(obj.s) - 1) : CO_Decode(SubSeq(obj.s, 1, k), Fields, <<>>) = <<>>
RoundTrip == Len(hist) = 2 /\ hist[1][2] = "write" => hist[2][4] = <<1>> \o hist[1][3]
============================================================================
