---------------------------- MODULE ImportTable -----------------------------
(* The import table of a generated file, and how operations change it.      *)
(*                                                                          *)
(*   own   import path of the file's own package (never imported)           *)
(*   tab   import path -> [q, decl]: the qualifier handed out for the       *)
(*         package, and the package name that was declared when it was      *)
(*         registered ("" if it was not known)                              *)
(*                                                                          *)
(* Which qualifier a package with a clashing or unusable name gets is not   *)
(* specified: any fresh identifier will do.  So the transitions are         *)
(* relations: Successor(own, tab, op, tab2) says whether tab2 may be the    *)
(* table after operation op, and Answer(own, tab2, op) is the value the     *)
(* operation then returns.                                                  *)
EXTENDS GoTypes

Empty == [p \in {} |-> [q |-> "", decl |-> ""]]

Quals(tab) == [p \in DOMAIN tab |-> tab[p].q]

----------------------------------------------------------------------------
(* Operations.  What an operation refers to, as a sequence of references,   *)
(* and whether it registers packages that are not in the table yet.         *)
RefsOf(op) ==
    CASE op.op \in {"reg", "regpkg", "datapkg"} -> <<Sym(op.p, op.q, "")>>
      [] op.op = "prefix"                       -> <<Sym(op.p, "", "")>>
      [] op.op \in {"ensureSym", "qualSym", "dataSym"} -> <<op.sym>>
      [] op.op \in {"ensureT", "qualT", "dataT"}       -> RefsT(op.t)
      [] op.op \in {"ensureSig", "qualSig", "dataSig"} -> RefsSig(op.sig)
      [] op.op = "data" -> op.refs

Registers(op) == op.op \notin {"prefix", "qualSym", "qualT", "qualSig"}

Needed(own, op) == PathsOf(own, RefsOf(op))

\* the package names declared for path p in op
DeclaredIn(op, p) == { r.q : r \in { x \in SeqRange(RefsOf(op)) : x.p = p } }

\* a look-up fails iff it refers to a package that was never registered
Fails(own, tab, op) == ~Registers(op) /\ ~(Needed(own, op) \subseteq DOMAIN tab)

(* tab2 may be the table after op *)
Successor(own, tab, op, tab2) ==
    LET new == IF Registers(op) THEN Needed(own, op) \ DOMAIN tab ELSE {}
    IN /\ DOMAIN tab2 = DOMAIN tab \cup new
       /\ \A p \in DOMAIN tab : tab2[p] = tab[p]
       /\ \A p \in new :
            /\ Identifier(tab2[p].q)
            /\ \A r \in DOMAIN tab2 \ {p} : tab2[r].q # tab2[p].q
            /\ tab2[p].decl \in DeclaredIn(op, p)
            \* no gratuitous aliases: the declared name is used if it is usable
            /\ (Identifier(tab2[p].decl) /\ tab2[p].q # tab2[p].decl)
                  => \E r \in DOMAIN tab2 \ {p} : tab2[r].q = tab2[p].decl

\* the mapping of references that table tab defines
Mapping(own, tab) == [op |-> "qual", own |-> own, tab |-> Quals(tab)]

Prefix(own, tab, p) == IF p = own THEN "" ELSE tab[p].q \o "."

(* the import specs of a table: exactly one per package, sorted by path *)
AliasOf(e) == IF e.q = e.decl THEN "" ELSE e.q
Sorted(specs)  == \A i \in 1..(Len(specs) - 1) : Less(specs[i].p, specs[i + 1].p)
SpecSet(tab)   == { [a |-> AliasOf(tab[p]), p |-> p] : p \in DOMAIN tab }
IsSpecsOf(specs, tab) == /\ Len(specs) = Cardinality(DOMAIN tab)
                         /\ SeqRange(specs) = SpecSet(tab)
                         /\ Sorted(specs)
\* (strict order: sorted lists of the right length and elements are unique)
RECURSIVE SortPaths(_)
SortPaths(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Less(x, y)
                     IN <<m>> \o SortPaths(S \ {m})
SpecsOf(tab) == LET ps == SortPaths(DOMAIN tab)
                IN [i \in DOMAIN ps |-> [a |-> AliasOf(tab[ps[i]]), p |-> ps[i]]]

(* The table that a list of import specs denotes, given the table before    *)
(* and the operation that led to it: the name a spec binds is its alias, or *)
(* else the declared name of the package.                                   *)
SpecFor(specs, p) == LET i == CHOOSE j \in DOMAIN specs : specs[j].p = p IN specs[i]
DeclOf(specs, tab, op, p) ==
    IF p \in DOMAIN tab THEN tab[p].decl
    ELSE LET ns == DeclaredIn(op, p)
             a  == SpecFor(specs, p).a
             c1 == { n \in ns : IF a = "" THEN n # "" ELSE n # a }
         IN IF a # "" /\ "" \in ns THEN ""
            ELSE IF c1 # {} THEN CHOOSE n \in c1 : TRUE
            ELSE IF ns # {} THEN CHOOSE n \in ns : TRUE ELSE ""
TableOf(specs, tab, op) ==
    [p \in { specs[i].p : i \in DOMAIN specs } |->
       LET s == SpecFor(specs, p)
           d == DeclOf(specs, tab, op, p)
       IN [q |-> IF s.a = "" THEN d ELSE s.a, decl |-> d]]
=============================================================================
