---------------------------- MODULE SmallObjects ----------------------------
(* Programs of two packages: a fixed one, and two types of another in all   *)
(* ways of composing them from others.                                      *)
EXTENDS Objects, Integers

D(k, name, form, of, embeds, methods) == [k |-> k, name |-> name, form |-> form, of |-> of, embeds |-> embeds, methods |-> methods]
M(n, ptr) == [n |-> n, ptr |-> ptr]
Em(a, b, ptr) == [e |-> <<a, b>>, ptr |-> ptr]

Base == [p |-> "a/go-base", n |-> "base", decls |->
  << D("type", "S", "struct", <<>>, <<>>, <<M("M", FALSE), M("N", TRUE), M("m", FALSE)>>),     \* 0 0
     D("type", "I", "iface", <<>>, <<>>, <<M("K", FALSE)>>),                                    \* 0 1
     D("alias", "A", "of", << <<0, 0>> >>, <<>>, <<>>),                                         \* 0 2
     D("type", "B", "of", <<>>, <<>>, <<M("M", TRUE)>>),                                        \* 0 3
     D("const", "C", "", <<>>, <<>>, <<>>), D("var", "V", "", <<>>, <<>>, <<>>), D("func", "F", "", <<>>, <<>>, <<>>) >>]

Own == { <<>>, <<M("M", TRUE)>>, <<M("L", FALSE)>> }
SEmb(S) == {<<>>} \cup { <<x>> : x \in S } \cup { z \in { <<x, y>> : x, y \in S } : z[1].e # z[2].e }
Firsts == { D("type", "T", "struct", <<>>, em, ms) : em \in SEmb({ Em(0, 0, FALSE), Em(0, 1, FALSE), Em(0, 2, TRUE), Em(0, 3, TRUE) }), ms \in Own }
     \cup { D("type", "T", "iface", <<>>, em, ms) : em \in { <<>>, <<Em(0, 1, FALSE)>> }, ms \in { <<>>, <<M("J", FALSE)>> } }
     \cup { D("type", "T", "of", of, <<>>, ms) : of \in { <<>>, << <<0, 0>> >>, << <<0, 2>> >>, << <<0, 3>> >> }, ms \in Own }
     \cup { D("type", "T", "of", << <<0, 1>> >>, <<>>, <<>>) }
     \cup { D("alias", "T", "of", of, <<>>, <<>>) : of \in { <<>>, << <<0, 0>> >>, << <<0, 1>> >>, << <<0, 2>> >> } }
IfaceT(d) == d.form = "iface" \/ d.of = << <<0, 1>> >>
Seconds(d) ==
          { D("type", "U", "struct", <<>>, em, ms) : em \in { <<Em(1, 0, FALSE)>>, <<Em(1, 0, FALSE), Em(0, 0, FALSE)>>, <<Em(0, 3, FALSE), Em(1, 0, FALSE)>> }, ms \in Own }
     \cup (IF IfaceT(d) THEN { D("type", "U", "iface", <<>>, <<Em(1, 0, FALSE)>>, <<M("H", FALSE)>>) } ELSE {})
     \cup { D(k, "U", "of", << <<1, 0>> >>, <<>>, <<>>) : k \in {"type", "alias"} }
Programs == { <<Base, [p |-> "b/x", n |-> "ex", decls |-> <<f, s>>]>> : f \in Firsts, s \in UNION { Seconds(g) : g \in Firsts } }
Fits(pr) == LET d == pr[2].decls IN d[2] \in Seconds(d[1])

Methods == {"M", "N", "m", "K", "L", "J", "H"}
Q(e, m, via) == [e |-> e, name |-> "", m |-> m, via |-> via]
Queries == [x \in 1..9 |-> Q(IF x < 8 THEN <<0, x - 1>> ELSE <<1, x - 8>>, "", "scope")]
=============================================================================
