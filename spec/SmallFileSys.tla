----------------------------- MODULE SmallFileSys ---------------------------
(* Small trees below a root <<"r">>, and short lists of files.              *)
EXTENDS FileSys, SequencesExt

R == <<"r">>
Spots == { R, R \o <<"a">>, R \o <<"f.go">>, R \o <<"a", "f.go">>, R \o <<"a", "b">> }
Kind(t, w, to) == [t |-> t, c |-> IF t = "file" THEN "old" ELSE "", to |-> to, w |-> w]
Other == <<"other">>
Kinds(p) == { Nothing, Kind("dir", TRUE, <<>>), Kind("dir", FALSE, <<>>) }
       \cup (IF p = R THEN { Kind("link", TRUE, Other) }
             ELSE { Kind("file", TRUE, <<>>), Kind("file", FALSE, <<>>), Kind("full", TRUE, <<>>), Kind("link", TRUE, Other) })

Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* no name ending in .go is a link
Sane(s) == \A p \in Spots : /\ (s[p].t # "none" /\ p # R) => s[Parent(p)].t = "dir"
                            /\ (s[p].t = "link") => p \notin { x \in Spots : x[Len(x)] = "f.go" }
Chosen == { s \in [Spots -> UNION { Kinds(p) : p \in Spots }] : (\A p \in Spots : s[p] \in Kinds(p)) /\ Sane(s) }
Base   == (<<>> :> NewDir) @@ (<<"cwd">> :> NewDir) @@ (Other :> NewDir)
TreeFrom(s) == Base @@ [p \in { p \in Spots : s[p].t # "none" } |-> s[p]]
Trees  == { TreeFrom(s) : s \in Chosen }

Spec1(dir, name, v, bad) == [dir |-> dir, name |-> name, v |-> v, bad |-> bad]
FileSpecs == { Spec1(<<>>, "f.go", 1, ""), Spec1(<<"a">>, "f.go", 1, ""), Spec1(<<"a">>, "f.go", 2, ""),
               Spec1(<<"a", "b">>, "g.go", 1, ""), Spec1(<<"f.go">>, "g.go", 1, ""), Spec1(<<"a">>, "f.go", 1, "body"), Spec1(<<"n">>, "h.go", 1, "body") }
\* the file at its place
AtRoot(f) == [path |-> R \o f.dir \o <<f.name>>, c |-> "new" \o ToString(f.v) \o f.name, bad |-> f.bad # ""]
=============================================================================
