------------------------------- MODULE GenGrow ------------------------------
(* Histories of building a small program, with writes at every point, from  *)
(* the steps of Grow: every sequence of up to Most steps in which what is   *)
(* referred to is there, and that ends with a write.                        *)
EXTENDS GrowSteps, SmallTypes, SequencesExt, Json, IOUtils

What == IOEnv.WHAT
Size == IOEnv.SIZE
Most == CASE Size = "small" -> 3 [] Size = "medium" -> 4 [] OTHER -> 5

World == << [p |-> "a/own", n |-> "own"], [p |-> "b/foo", n |-> "foo"], [p |-> "c/foo", n |-> "foo"], [p |-> "d/go-bar", n |-> "bar"] >>
Lit(ts)   == [k |-> "lit", toks |-> ts]
TId(s)    == [c |-> "id", s |-> s]
TOp(s)    == [c |-> "op", s |-> s]
Arg(a, v) == [k |-> "arg", a |-> a, verb |-> v]
Spec0 == [doc |-> <<>>, names |-> <<>>, ty |-> <<>>, init |-> <<>>, name |-> "", alias |-> FALSE, form |-> "",
          fields |-> <<>>, elems |-> <<>>]
Sig0  == [args |-> <<>>, res |-> <<>>, var |-> FALSE]
T(p)  == Named(p, IF p = "d/go-bar" THEN "bar" ELSE "foo", "U")
Stmt(a, v) == <<Lit(<<TId("_"), TOp("=")>>), Arg(a, v), Lit(<<TOp(";")>>)>>

\* pool: a symbol of b/foo and of c/foo, a method reference, and (3) file 0's var
Pool == << [k |-> "sym", sym |-> Sym("b/foo", "foo", "X")], [k |-> "psym", sym |-> Sym("c/foo", "foo", "X")],
           [k |-> "mref", sym |-> Sym("d/go-bar", "bar", "X"), m |-> "Meth"], [k |-> "elem", e |-> <<0, 0, 0>>] >>

File0(n, p, q) == [name |-> n, path |-> p, pkg |-> q, fc |-> <<>>, pc |-> <<>>, canon |-> "", regs |-> <<>>, decls |-> <<>>]
Base == [world |-> World, pool |-> Pool, blocks |-> << <<>> >>, files |-> << File0("a.go", "a/own", "own"), File0("b.go", "c/foo", "foo") >>]

VarDecl(v) == [k |-> "var", doc |-> <<>>, via |-> v, specs |-> << [Spec0 EXCEPT !.names = <<"V">>, !.ty = <<[k |-> "t", t |-> T("b/foo")]>>] >>]
FunDecl == [k |-> "func", doc |-> <<>>, name |-> "F", recv |-> <<>>, sig |-> Sig0, body |-> <<>>]
Piece(a, v, k) == [k |-> k, parts |-> Stmt(a, v), shape |-> "slice"]

\* file 0 declares a var first, then functions; file 1 functions
NDecl(p, f) == Len(p.files[f + 1].decls)
IsVar(p, f, d) == p.files[f + 1].decls[d + 1].k = "var"
Steps(p) ==
      (IF NDecl(p, 0) = 0 THEN { [a |-> "decl", f |-> 0, decl |-> VarDecl(v)] : v \in {"add", "decl"} } ELSE {})
 \cup { [a |-> "decl", f |-> f, decl |-> FunDecl] : f \in { g \in 0..1 : NDecl(p, g) = 1 - g } }
 \cup UNION { UNION { IF IsVar(p, f, d)
                      THEN { [a |-> "type", f |-> f, d |-> d, s |-> 0, ty |-> [k |-> "t", t |-> T("c/foo")]],
                             [a |-> "doc", f |-> f, d |-> d, s |-> 0, w |-> "spec", doc |-> <<"doc">>],
                             [a |-> "init", f |-> f, d |-> d, s |-> 0,
                              init |-> [via |-> "fmt", block |-> 0, pieces |-> <<[k |-> "printf", parts |-> <<Arg(2, "s")>>]>>]] }
                           \cup (IF p.files[f + 1].decls[d + 1].via = "decl"
                                 THEN { [a |-> "spec", f |-> f, d |-> d, spec |-> [Spec0 EXCEPT !.names = <<"W">>, !.ty = <<[k |-> "t", t |-> T("c/foo")]>>]] }
                                 ELSE {})
                      ELSE { [a |-> "arg", f |-> f, d |-> d, s |-> 0, arg |-> ArgN("x", T("b/foo")), var |-> FALSE],
                             [a |-> "res", f |-> f, d |-> d, s |-> 0, arg |-> Arg1(T("c/foo"))],
                             [a |-> "piece", f |-> f, d |-> d, s |-> 0, piece |-> [k |-> "add", block |-> 0]] }
                           \cup { [a |-> "piece", f |-> f, d |-> d, s |-> 0, piece |-> Piece(x, "v", "printlnf")] :
                                    x \in {1} \cup (IF NDecl(p, 0) > 0 THEN {3} ELSE {}) }
                    : d \in 0..(NDecl(p, f) - 1) } : f \in 0..1 }
 \cup { [a |-> "bpiece", b |-> 0, piece |-> Piece(2, "s", k)] : k \in {"printlnf", "tmpl"} }
 \cup { [a |-> "reg", f |-> 1, reg |-> [p |-> "b/foo", n |-> "foo"]], [a |-> "doc", f |-> 0, w |-> "pc", doc |-> <<"pkg">>] }

Writes == { [a |-> "write", f |-> f] : f \in 0..1 }

Follow(h) == Steps(h.p) \cup (IF h.s # <<>> /\ h.s[Len(h.s)].a # "write" THEN Writes ELSE {})

\* one step more
More(H) == UNION { { [p |-> Apply(h.p, st), s |-> Append(h.s, st), w |-> h.w \/ st.a = "write"] : st \in Follow(h) } : h \in H }

\* the steps of the histories of at most n steps more than those of H, with a write in the middle
\* (without one, they are what progdecls and progargs do already)
RECURSIVE From(_, _)
From(H, n) == { h.s : h \in { x \in H : x.w } } \cup (IF n = 0 THEN {} ELSE From(TLCEval(More(H)), n - 1))

Complete(h) == h \o << [a |-> "write", f |-> 0], [a |-> "write", f |-> 1] >>
Cases == LET H == SetToSeq(From({ [p |-> Base, s |-> <<>>, w |-> FALSE] }, Most))
         IN [i \in DOMAIN H |-> [id |-> "grow-g" \o ToString(i), kind |-> "grow", world |-> World, pool |-> Pool, blocks |-> 1,
                                 files |-> Base.files, steps |-> Complete(H[i])]]

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
=============================================================================
