------------------------------- MODULE FileDoc ------------------------------
(* The document that a written file is, o, judged against file f of prog.   *)
(* extra: import paths that may be imported although nothing needs them     *)
EXTENDS File, Judge

ImportsOK(prog, f, o, extra) ==
    LET ps == { o.imports[i].p : i \in DOMAIN o.imports }
    IN    If(NeededBy(prog, f) \subseteq ps /\ ps \subseteq NeededBy(prog, f) \cup extra,
             IF NeededBy(prog, f) \ ps # {} THEN {"C09/missing"} ELSE {"C09/extra"})
     \cup If(Cardinality(ps) = Len(o.imports), {"C09/twice"})
     \cup If(FileOf(prog, f).path \notin ps, {"C09/own"})
     \cup If(\A i, j \in DOMAIN o.imports : i # j => BoundName(prog, o.imports[i]) # BoundName(prog, o.imports[j]),
             {"C08/ambiguous", "C09/ambiguous"})

HeaderOK(prog, f, o) ==
    LET fl == FileOf(prog, f)
    IN    If(o.pkg = fl.pkg, {"C10/package-clause"})
     \cup If(o.pdoc = fl.pc, {"C10/package-comment"})
     \cup If(o.fc = IF fl.fc = <<>> THEN <<>> ELSE <<fl.fc>>, {"C10/file-comment"})
     \cup If(o.canon = IF fl.canon = "" THEN <<>> ELSE <<"import \"" \o fl.canon \o "\"">>, {"C10/canonical-import"})
     \cup If(o.stray = 0, {"C10/stray-comment"})
     \cup If(~o.late, {"C10/late-import"})

DeclsOK(prog, f, o) ==
    LET own  == FileOf(prog, f).path
        imps == Bindings(prog, o)
        want == Intended(prog, f)
        got  == Denoted(imps, o)
        same == /\ Len(want) = Len(got)
                /\ \A i \in DOMAIN want : want[i].k = got[i].k
        struct == same /\ \A i \in DOMAIN want : BlindDecl(want[i]) = BlindDecl(got[i])
    IN    If(struct, {"C10/declarations"})
     \cup If(same, {"C15/complete"})
     \cup If(struct => want = got, {"C08/declared-types"})
     \cup If(DenotedRefs(want) \subseteq DenotedRefs(got), {"C08/references"})

CodeOK(prog, f, o) ==
    LET fl   == FileOf(prog, f)
        imps == Bindings(prog, o)
        same == /\ Len(fl.decls) = Len(o.decls)
                /\ \A i \in DOMAIN o.decls :
                     /\ o.decls[i].k = fl.decls[i].k
                     /\ o.decls[i].k # "func" => Len(o.decls[i].specs) = Len(fl.decls[i].specs)
        Bad(i) ==
            LET want == CodeOf(prog, fl.decls[i])
                got  == TextsOf(o.decls[i])
                inits == fl.decls[i].k \in {"func", "type"}
                         \/ \A n \in DOMAIN want : (fl.decls[i].specs[n].init = <<>>) = (o.decls[i].specs[n].init = <<>>)
            IN If(inits, {"C10/initializer"})
               \cup UNION { IF Says(fl.path, imps, FALSE, want[n], 1, got[n], 1) THEN {}
                            ELSE IF Says(fl.path, imps, TRUE, want[n], 1, got[n], 1) THEN {"C08/code"}
                            ELSE {"C08/code", "C10/code"} : n \in DOMAIN want }
    IN IF same THEN UNION { Bad(i) : i \in DOMAIN o.decls } ELSE {}

WrongDoc(prog, f, o, extra) ==
    IF o.st # "ok" THEN {"C10/not-go", "C08/not-go", "C09/not-go", "C15/not-go"}
    ELSE ImportsOK(prog, f, o, extra) \cup HeaderOK(prog, f, o) \cup DeclsOK(prog, f, o) \cup CodeOK(prog, f, o)
=============================================================================
