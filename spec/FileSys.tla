------------------------------- MODULE FileSys ------------------------------
(* A tree of directories and files, and what writing Go files does to it.   *)
(*                                                                          *)
(*   tree   function from paths (Seqs of names, from the scratch directory) *)
(*          to nodes [t, c, to, w]:                                         *)
(*            t   dir, file, link (to a directory), full (a device that     *)
(*                fails when written to)                                    *)
(*            c   content of a file     to  target of a link                *)
(*            w   may be written to                                         *)
(*   A file to be written is [path, c, bad]; with bad it is not Go.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nothing == [t |-> "none", c |-> "", to |-> <<>>, w |-> FALSE]
Node(tree, p) == IF p \in DOMAIN tree THEN tree[p] ELSE Nothing
NewDir     == [t |-> "dir", c |-> "", to |-> <<>>, w |-> TRUE]
NewFile(c) == [t |-> "file", c |-> c, to |-> <<>>, w |-> TRUE]

\* the path without links, except perhaps for the last name
RECURSIVE Real(_, _, _)
Real(tree, done, rest) ==
    IF rest = <<>> THEN done
    ELSE LET p == Append(done, Head(rest))
         IN IF Node(tree, p).t = "link" THEN Real(tree, <<>>, Node(tree, p).to \o Tail(rest))
            ELSE Real(tree, p, Tail(rest))
RealPath(tree, p) == Real(tree, <<>>, p)

Above(p) == { SubSeq(p, 1, n) : n \in 0..(Len(p) - 1) }
MaxName == 255

\* there cannot be a file of that path
Obstructed(tree, f) ==
    LET p == RealPath(tree, f.path)
        miss == { x \in Above(p) \cup {p} : Node(tree, x).t = "none" }
    IN \/ \E x \in Above(p) : Node(tree, x).t \in {"file", "full"}
       \/ Node(tree, p).t = "dir"
       \/ \E n \in DOMAIN p : Len(p[n]) > MaxName
       \/ \E x \in miss : ~(x \in {<<>>}) /\ Node(tree, SubSeq(x, 1, Len(x) - 1)).t = "dir" /\ ~Node(tree, SubSeq(x, 1, Len(x) - 1)).w
\* it depends on how the file is replaced
Doubtful(tree, f) ==
    LET p == RealPath(tree, f.path)
    IN \/ Node(tree, p).t = "full"
       \/ Node(tree, p).t = "file" /\ (~Node(tree, p).w \/ ~Node(tree, SubSeq(p, 1, Len(p) - 1)).w)

MustFail(tree, f) == f.bad \/ Obstructed(tree, f)
MayFail(tree, f)  == MustFail(tree, f) \/ Doubtful(tree, f)
Errors(tree, f)   == (IF f.bad THEN {"format"} ELSE {}) \cup (IF Obstructed(tree, f) \/ Doubtful(tree, f) THEN {"other"} ELSE {})

\* the tree after f was written
Put(tree, f) ==
    LET p == RealPath(tree, f.path)
        new == { x \in Above(p) : x \notin DOMAIN tree }
    IN [x \in DOMAIN tree \cup new \cup {p} |->
          IF x = p THEN NewFile(f.c) ELSE IF x \in new THEN NewDir ELSE tree[x]]

\* nodes are compared by what they hold
Eq(a, b)   == a.t = b.t /\ a.c = b.c /\ a.to = b.to
Same(s, t) == DOMAIN s = DOMAIN t /\ \A p \in DOMAIN s : Eq(s[p], t[p])

\* t may be what is left of tree when writing f failed
Left(tree, f, t) ==
    LET p == RealPath(tree, f.path)
    IN /\ DOMAIN tree \subseteq DOMAIN t \cup {p}
       /\ \A x \in DOMAIN t \cup DOMAIN tree :
            \/ x \in DOMAIN tree \cap DOMAIN t /\ Eq(tree[x], t[x])
            \/ x \notin DOMAIN tree /\ x \in Above(p) /\ t[x].t = "dir"
            \/ x = p /\ Node(tree, p).t # "dir" /\ Node(t, p).t \in {"none", "file", "full"}

\* may writing files fs, from the n-th on, to tree leave t and return an error of class e?
RECURSIVE Outcome(_, _, _, _, _)
Outcome(tree, fs, n, t, e) ==
    IF n > Len(fs) THEN e = "" /\ Same(tree, t)
    ELSE \/ ~MustFail(tree, fs[n]) /\ Outcome(Put(tree, fs[n]), fs, n + 1, t, e)
         \/ MayFail(tree, fs[n]) /\ e \in Errors(tree, fs[n]) /\ Left(tree, fs[n], t)
=============================================================================
