------------------------------- MODULE MCTypes ------------------------------
(* The design of GoTypes, checked over all small types:                     *)
(*  - rendering and parsing are inverse (up to NormT),                      *)
(*  - what qualification makes of a reference resolves to what was intended *)
(*    in a file whose import declarations bind the table,                   *)
(*  - qualification only depends on references and preserves everything     *)
(*    else.                                                                 *)
EXTENDS SmallTypes

CONSTANT Size
VARIABLE t

Init == t \in Universe(Size)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t

Textual == [op |-> "text"]

RoundTrip == LET p == ParseType(Render(t))
             IN p.ok /\ p.t = NormT(MapT(Textual, t))

Tables == { [p \in {"a/foo"} |-> q] : q \in {"foo", "foo1", "x"} }
Qual(tab, o) == [op |-> "qual", own |-> o, tab |-> tab]
Resolve(tab, o) == [op |-> "resolve", own |-> o,
                    imps |-> [q \in { tab[p] : p \in DOMAIN tab } |-> CHOOSE p \in DOMAIN tab : tab[p] = q]]
Intend(o) == [op |-> "intend", own |-> o]
Strip == [op |-> "noqual"]

ResolvesThroughText ==
    \A tab \in Tables, o \in {"a/foo", "other"} :
      LET p == ParseType(Render(MapT(Qual(tab, o), t)))
      IN p.ok /\ MapT(Resolve(tab, o), p.t) = NormT(MapT(Intend(o), t))

OnlyQualifiers ==
    \A tab \in Tables, o \in {"a/foo", "other"} : MapT(Strip, MapT(Qual(tab, o), t)) = MapT(Strip, t)

\* qualifying is idempotent, so it does not matter how often a shared type is qualified
Idempotent ==
    \A tab \in Tables, o \in {"a/foo", "other"} :
      LET m == Qual(tab, o) IN MapT(m, MapT(m, t)) = MapT(m, t)

\* the accessors determine the type
RefsOK == \A i \in DOMAIN RefsT(t) : RefsT(t)[i].name # ""
=============================================================================
