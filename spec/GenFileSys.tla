----------------------------- MODULE GenFileSys -----------------------------
(* All small trees, and lists of files to write to them.                    *)
EXTENDS SmallFileSys, Json, IOUtils

Size == IOEnv.SIZE
NodesOf(tree) == SetToSeq({ [path |-> p, t |-> tree[p].t, c |-> tree[p].c, to |-> tree[p].to, w |-> tree[p].w] : p \in DOMAIN tree \ {<<>>} })
FileOf(f) == [dir |-> f.dir, name |-> f.name, pkg |-> "p", v |-> f.v, size |-> f.v, bad |-> f.bad]
Call(fn, form, fs) == [fn |-> fn, root |-> R, form |-> form, more |-> "", files |-> [n \in DOMAIN fs |-> FileOf(fs[n])]]
Case(t, cs) == [nodes |-> NodesOf(t), calls |-> cs]
Lists == { <<f>> : f \in FileSpecs }
    \cup (IF Size = "small" THEN { <<Spec1(<<"a">>, "f.go", 1, ""), f>> : f \in FileSpecs } ELSE { <<f, g>> : f \in FileSpecs, g \in FileSpecs })
Cases == { Case(t, <<Call(fn, "abs", l)>>) : t \in Trees, l \in Lists, fn \in IF Size = "small" THEN {"fs"} ELSE {"fs", "gopath"} }
    \cup { Case(t, <<Call("gopath", f, <<Spec1(<<"a">>, "f.go", 1, "")>>)>>) : t \in Trees, f \in {"abs", "unset", "empty"} }
    \cup { Case(t, <<Call("fs", "slash", <<Spec1(<<"a">>, "f.go", 2, "")>>), Call("fs", "dot", <<Spec1(<<"a">>, "f.go", 1, "")>>)>>) : t \in Trees }
Number(name, kind, S) ==
    LET s == SetToSeq(S)
    IN [i \in DOMAIN s |-> s[i] @@ [id |-> name \o "-g" \o ToString(i), kind |-> kind]]
ASSUME ndJsonSerialize(IOEnv.OUT, Number("fs", "fs", Cases))
=============================================================================
