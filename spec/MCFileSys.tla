------------------------------ MODULE MCFileSys -----------------------------
(* Writing files one system call at a time: directories are made one by     *)
(* one, the file is opened, truncated, written and closed; any of these     *)
(* steps may fail where the tree makes it.  Whatever happens in between,    *)
(* what is left at the end is an outcome FileSys allows.                    *)
EXTENDS SmallFileSys
CONSTANTS Truncate,        \* FALSE: old content stays behind the new
          StopAtError,     \* FALSE: writing goes on after an error
          ReportAll,       \* FALSE: an error when closing is lost
          MaxFiles

VARIABLES tree, orig, files, at, pc, deep, err
vars == <<tree, orig, files, at, pc, deep, err>>

Init == /\ tree \in Trees /\ orig = tree
        /\ files \in UNION { [1..n -> FileSpecs] : n \in 0..MaxFiles }
        /\ at = 1 /\ pc = "next" /\ deep = 1 /\ err = ""

F == AtRoot(files[at])
Writable(p) == Node(tree, p).w
Parent_(p) == SubSeq(p, 1, Len(p) - 1)
Fail(e) == /\ err' = IF err = "" THEN e ELSE err
           /\ IF StopAtError THEN pc' = "done" /\ UNCHANGED at ELSE pc' = "next" /\ at' = at + 1
           /\ deep' = 1

Start  == pc = "next" /\ at <= Len(files) /\ (IF F.bad THEN Fail("format") ELSE pc' = "mkdir" /\ UNCHANGED <<at, err, deep>>) /\ UNCHANGED <<tree, orig, files>>
Finish == pc = "next" /\ at > Len(files) /\ pc' = "done" /\ UNCHANGED <<tree, orig, files, at, deep, err>>
\* the deep-th directory on the way
Mkdir  == /\ pc = "mkdir" /\ UNCHANGED <<orig, files>>
          /\ LET p == RealPath(tree, SubSeq(F.path, 1, deep))
                 t == Node(tree, p).t
             IN IF deep = Len(F.path) THEN pc' = "open" /\ UNCHANGED <<tree, at, deep, err>>
                ELSE CASE t = "dir" -> deep' = deep + 1 /\ UNCHANGED <<tree, at, pc, err>>
                       [] t \in {"file", "full"} -> Fail("other") /\ UNCHANGED tree
                       [] OTHER -> IF Writable(Parent_(p)) THEN tree' = tree @@ (p :> NewDir) /\ deep' = deep + 1 /\ UNCHANGED <<at, pc, err>>
                                   ELSE Fail("other") /\ UNCHANGED tree
Open   == /\ pc = "open" /\ UNCHANGED <<orig, files>>
          /\ LET p == RealPath(tree, F.path)
                 n == Node(tree, p)
             IN CASE n.t = "dir" \/ (n.t = "file" /\ ~n.w) \/ (n.t = "none" /\ ~Writable(Parent_(p))) -> Fail("other") /\ UNCHANGED tree
                  [] n.t = "full" -> pc' = "write" /\ UNCHANGED <<tree, at, deep, err>>
                  [] n.t = "file" -> tree' = [tree EXCEPT ![p].c = IF Truncate THEN "" ELSE @] /\ pc' = "write" /\ UNCHANGED <<at, deep, err>>
                  [] OTHER -> tree' = tree @@ (p :> NewFile("")) /\ pc' = "write" /\ UNCHANGED <<at, deep, err>>
Write  == /\ pc = "write" /\ UNCHANGED <<orig, files>>
          /\ LET p == RealPath(tree, F.path)
             IN IF Node(tree, p).t = "full" THEN (IF ReportAll THEN Fail("other") ELSE pc' = "next" /\ at' = at + 1 /\ deep' = 1 /\ UNCHANGED err) /\ UNCHANGED tree
                ELSE /\ tree' = [tree EXCEPT ![p].c = F.c \o @]
                     /\ pc' = "next" /\ at' = at + 1 /\ deep' = 1 /\ UNCHANGED err
Next == Start \/ Finish \/ Mkdir \/ Open \/ Write \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Files == [n \in DOMAIN files |-> AtRoot(files[n])]
\* the algorithm does what the specification of the outcome says
Allowed == pc = "done" => Outcome(orig, Files, 1, tree, err)
\* nothing is touched that is not on the way to one of the files
Ways == UNION { Above(RealPath(orig, Files[n].path)) \cup { RealPath(orig, Files[n].path) } : n \in DOMAIN files }
Confined == \A p \in DOMAIN tree \cup DOMAIN orig : p \notin Ways => p \in DOMAIN tree \cap DOMAIN orig /\ tree[p] = orig[p]
Kept == \A p \in DOMAIN orig : p \in DOMAIN tree /\ tree[p].t = orig[p].t
\* and files written before the one that failed are complete
Earlier == pc = "done" => \A n \in 1..(at - 1) : n \in DOMAIN files /\ ~MayFail(orig, Files[n]) =>
              \/ \E k \in n + 1..at : k \in DOMAIN files /\ RealPath(tree, Files[k].path) = RealPath(tree, Files[n].path)
              \/ Node(tree, RealPath(tree, Files[n].path)).c = Files[n].c
=============================================================================
