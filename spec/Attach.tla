------------------------------- MODULE Attach -------------------------------
(* Elements, the declarations they are put in, and the files they belong    *)
(* to: what can be asked of an element at every point of its history.       *)
(*                                                                          *)
(* items:  Seq of elements, in order of creation:                           *)
(*   [k |-> "const" | "var", names]                                         *)
(*   [k |-> "type", name, alias, und]     und: underlying type (as made)    *)
(*        (an unnamed one has the text of that type, which is written "=")  *)
(*   [k |-> "func", name, sig]                                              *)
(*   [k |-> "method", name, sig, recv : [n, t, ptr]]                        *)
(*   [k |-> "imethod", name, sig]                                           *)
(* owner:  for each element, the files it may belong to, as a set: {0} is   *)
(*         none.  For an interface method, the type it was put in.          *)
(* decls:  Seq of [k, specs]: declarations, holding indices of items        *)
(* files:  Seq of [p, n, elems]; elems is a Seq of                          *)
(*   [e |-> "decl" | "item", i] (an item added directly)                    *)
EXTENDS GoTypes

VARIABLES items, owner, decls, files
avars == <<items, owner, decls, files>>

AInit == items = <<>> /\ owner = <<>> /\ decls = <<>> /\ files = <<>>

NoSig == [args |-> <<>>, res |-> <<>>, var |-> FALSE]
New(x)    == items' = Append(items, x) /\ owner' = Append(owner, {0})

\* to whom everything that an operation attaches belongs
Own(S, o) == owner' = [j \in DOMAIN owner |-> IF j \in S THEN {o} ELSE owner[j]]

FilePkg(f) == [p |-> files[f].p, q |-> files[f].n]

\* the package of an element: known only when there is no doubt where it belongs
Known(j)  == \E o \in DOMAIN files : owner[j] = {o}
Without(j) == owner[j] = {0}
FileOfI(j) == CHOOSE o \in DOMAIN files : owner[j] = {o}
SymAt(j, name) == Sym(FilePkg(FileOfI(j)).p, FilePkg(FileOfI(j)).q, name)

NamedOf(s) == Named(s.p, s.q, s.name)
TypeNameOf(j) == IF items[j].name = "" THEN items[j].und ELSE NamedOf(SymAt(j, items[j].name))

----------------------------------------------------------------------------
(* Receivers                                                                *)
\* via: name, ptrname (by name); for, ptrfor (by type, or by an element)
RecvOf(r) ==
    IF r.via \in {"name", "ptrname"} THEN [ok |-> r.name # "", t |-> r.name, ptr |-> r.via = "ptrname"]
    ELSE IF r.elem # <<>>
    THEN LET x == items[r.elem[1]] IN [ok |-> x.name # "", t |-> x.name, ptr |-> r.via = "ptrfor"]
    ELSE LET t == r.t[1]
         IN IF t.k = "named" THEN [ok |-> TRUE, t |-> t.name, ptr |-> r.via = "ptrfor"]
            ELSE IF r.via = "for" /\ t.k = "ptr" /\ t.e.k = "named" THEN [ok |-> TRUE, t |-> t.e.name, ptr |-> TRUE]
            ELSE [ok |-> FALSE, t |-> "", ptr |-> FALSE]

----------------------------------------------------------------------------
(* Operations.  Each says whether it is to panic.                           *)
IfaceOf(ms) == [k |-> "iface", elems |-> [x \in DOMAIN ms |-> [k |-> "method", doc |-> <<>>, n |-> items[ms[x]].name, sig |-> items[ms[x]].sig]]]

\* (embedded interfaces first, as in all types)
IfaceWith(els) ==
    LET es == SelectSeq(els, LAMBDA e : e.m = <<>>)
        ms == SelectSeq(els, LAMBDA e : e.m # <<>>)
    IN [k |-> "iface", elems |-> [x \in DOMAIN es |-> [k |-> "embed", doc |-> <<>>, sym |-> es[x].sym[1]]]
                                 \o IfaceOf([x \in DOMAIN ms |-> ms[x].m[1]]).elems]
MethodsIn(o) == CASE o.form = "iface"  -> SeqRange(o.ms)
                  [] o.form = "ifaces" -> { o.els[x].m[1] : x \in { x \in DOMAIN o.els : o.els[x].m # <<>> } }
                  [] OTHER             -> {}

\* the type that a new type is defined as
Defining(o) ==
    CASE o.form \in {"of", "alias"}   -> [ok |-> TRUE, t |-> o.t[1]]
      [] o.form \in {"from", "aliasfrom"} ->
            LET j == o.elem[1]
            IN IF items[j].name = "" THEN [ok |-> TRUE, t |-> items[j].und]
               ELSE [ok |-> Known(j), t |-> IF Known(j) THEN TypeNameOf(j) ELSE Basic("int")]
      [] o.form = "struct" -> [ok |-> TRUE, t |-> [k |-> "struct", fields |-> <<[n |-> "F", t |-> o.t[1], tag |-> "", doc |-> <<>>]>>]]
      [] o.form = "iface"  -> [ok |-> TRUE, t |-> IfaceOf(o.ms)]
      [] o.form = "structs" ->
            [ok |-> TRUE,
             t  |-> [k |-> "struct",
                     fields |-> [x \in DOMAIN o.fields |->
                        LET f == o.fields[x]
                        IN [n |-> f.n, t |-> IF f.elem = <<>> THEN f.t[1] ELSE TypeNameOf(f.elem[1]), tag |-> f.tag, doc |-> <<>>]]]]
      [] o.form = "ifaces" -> [ok |-> TRUE, t |-> IfaceWith(o.els)]

Panics(o) ==
    CASE o.op = "type"   -> ~Defining(o).ok
      [] o.op = "method" -> ~RecvOf(o.recv).ok
      [] OTHER           -> FALSE

\* operations on something whose attachment is in doubt are not made
Defined(o) ==
    CASE o.op = "type" /\ o.form \in {"from", "aliasfrom"} ->
            items[o.elem[1]].name = "" \/ Known(o.elem[1]) \/ Without(o.elem[1])
      [] o.op = "type" /\ o.form = "structs" ->
            \A x \in DOMAIN o.fields : o.fields[x].elem = <<>> \/ items[o.fields[x].elem[1]].name = "" \/ Known(o.fields[x].elem[1])
      [] OTHER -> TRUE

DoNew(o) ==
    /\ UNCHANGED <<decls, files>>
    /\ CASE o.op \in {"const", "var"} -> New([k |-> o.op, names |-> o.names])
         [] o.op \in {"func", "imethod"} -> New([k |-> o.op, name |-> o.name, sig |-> NoSig])
         [] o.op = "method" ->
              LET r == RecvOf(o.recv)
              IN New([k |-> "method", name |-> o.name, sig |-> NoSig, recv |-> [n |-> o.recv.n, t |-> r.t, ptr |-> r.ptr]])
         [] o.op = "type" ->
              LET x  == [k |-> "type", name |-> o.name, alias |-> o.form \in {"alias", "aliasfrom"}, und |-> Defining(o).t]
                  ms == MethodsIn(o)
                  me == Len(items) + 1
              IN /\ items' = Append(items, x)
                 /\ owner' = Append([j \in DOMAIN owner |-> IF j \in ms THEN {me} ELSE owner[j]], {0})

DoSig(o) ==
    /\ UNCHANGED <<owner, decls, files>>
    /\ items' = [items EXCEPT ![o.s].sig =
          CASE o.op = "arg"      -> [@ EXCEPT !.args = Append(@, [n |-> o.n, t |-> o.t])]
            [] o.op = "result"   -> [@ EXCEPT !.res = Append(@, [n |-> o.n, t |-> o.t])]
            [] o.op = "variadic" -> [@ EXCEPT !.var = o.v]
            [] o.op = "setarg"   -> [@ EXCEPT !.args[o.x] = [n |-> o.n, t |-> o.t]]
            [] o.op = "setres"   -> [@ EXCEPT !.res[o.x] = [n |-> o.n, t |-> o.t]]
            [] o.op = "dropargs" -> [@ EXCEPT !.args = <<>>]]

\* (what was made from an element before is not affected)
DoSet(o) ==
    /\ UNCHANGED <<owner, decls, files>>
    /\ items' = CASE o.op = "setrecv" -> [items EXCEPT ![o.s].recv = [n |-> o.n, t |-> o.name, ptr |-> o.ptr]]
                  [] items[o.s].k \in {"const", "var"} -> [items EXCEPT ![o.s].names = o.names]
                  [] OTHER -> [items EXCEPT ![o.s].name = o.name]

\* a declaration that is in a file already: whether a spec added to it belongs to the file is in doubt
FilesWith(d) == { f \in DOMAIN files : \E x \in DOMAIN files[f].elems : files[f].elems[x] = [e |-> "decl", i |-> d] }

Do(o) ==
    CASE o.op \in {"const", "var", "type", "func", "method", "imethod"} -> DoNew(o)
      [] o.op \in {"arg", "result", "variadic", "setarg", "setres", "dropargs"} -> DoSig(o)
      [] o.op \in {"setname", "setrecv"} -> DoSet(o)
      [] o.op = "file"   -> files' = Append(files, [p |-> o.p, n |-> o.n, elems |-> <<>>]) /\ UNCHANGED <<items, owner, decls>>
      [] o.op = "rename" -> files' = [files EXCEPT ![o.f].n = o.n] /\ UNCHANGED <<items, owner, decls>>
      [] o.op = "decl"   -> decls' = Append(decls, [k |-> o.k, specs |-> o.specs]) /\ UNCHANGED <<items, owner, files>>
      [] o.op = "append" ->
           /\ decls' = [decls EXCEPT ![o.d].specs = Append(@, o.s)]
           /\ owner' = IF FilesWith(o.d) = {} THEN owner ELSE [owner EXCEPT ![o.s] = @ \cup FilesWith(o.d)]
           /\ UNCHANGED <<items, files>>
      [] o.op = "add"    ->
           /\ files' = [files EXCEPT ![o.f].elems = Append(@, [e |-> "decl", i |-> o.d])]
           /\ Own(SeqRange(decls[o.d].specs), o.f)
           /\ UNCHANGED <<items, decls>>
      [] o.op = "additem" ->
           /\ files' = [files EXCEPT ![o.f].elems = Append(@, [e |-> "item", i |-> o.s])]
           /\ Own({o.s}, o.f)
           /\ UNCHANGED <<items, decls>>

----------------------------------------------------------------------------
(* What every query must answer.  A query that panics answers <<>>.         *)
Ref(s, m) == [p |-> s.p, q |-> s.q, name |-> s.name, m |-> m]
Spelled(s) == IF s.q = "" THEN s.name ELSE s.q \o "." \o s.name

RECURSIVE Joined(_, _)
Joined(ss, x) == IF x > Len(ss) THEN "" ELSE (IF x = 1 THEN "" ELSE ", ") \o ss[x] \o Joined(ss, x + 1)

Answer(j) ==
    LET x  == items[j]
        in == Known(j)
        S(n) == SymAt(j, n)
        MaybeSig(s) == IF VariadicOK(s) THEN <<[k |-> "func", sig |-> s]>> ELSE <<>>
        With(t)     == [x.sig EXCEPT !.args = <<[n |-> "", t |-> t]>> \o @]
        None == [syms |-> <<>>, one |-> <<>>, str |-> "", tn |-> <<>>, mref |-> <<>>, und |-> <<>>, alias |-> FALSE]
    IN CASE x.k \in {"const", "var"} ->
              [None EXCEPT !.syms = [y \in DOMAIN x.names |-> IF in THEN <<Ref(S(x.names[y]), "")>> ELSE <<>>],
                           !.one  = IF in /\ Len(x.names) = 1 THEN <<Ref(S(x.names[1]), "")>> ELSE <<>>,
                           !.str  = Joined([y \in DOMAIN x.names |-> IF in THEN Spelled(S(x.names[y])) ELSE x.names[y]], 1)]
         [] x.k = "type" ->
              [None EXCEPT !.one = IF in /\ x.name # "" THEN <<Ref(S(x.name), "")>> ELSE <<>>,
                           !.str = IF x.name = "" THEN "=" ELSE IF in THEN Spelled(S(x.name)) ELSE x.name,
                           !.tn  = IF x.name = "" THEN <<x.und>> ELSE IF in THEN <<TypeNameOf(j)>> ELSE <<>>,
                           !.und = <<x.und>>, !.alias = x.alias]
         [] x.k = "func" ->
              [None EXCEPT !.one = IF in THEN <<Ref(S(x.name), "")>> ELSE <<>>,
                           !.str = IF in THEN Spelled(S(x.name)) ELSE x.name,
                           !.tn  = MaybeSig(x.sig)]
         [] x.k = "method" ->
              [None EXCEPT !.one = IF in THEN <<Ref(S(x.recv.t), x.name)>> ELSE <<>>,
                           !.str = x.name,
                           !.tn  = IF ~in THEN <<>>
                                   ELSE LET t == NamedOf(S(x.recv.t))
                                        IN MaybeSig(With(IF x.recv.ptr THEN [k |-> "ptr", e |-> t] ELSE t))]
         [] x.k = "imethod" ->
              LET c == owner[j]
                  o == CHOOSE o \in c : TRUE
                  anon == o # 0 /\ items[o].name = ""
              IN [None EXCEPT !.str  = x.name,
                              !.tn   = IF o # 0 /\ (anon \/ Known(o)) THEN MaybeSig(With(TypeNameOf(o))) ELSE <<>>,
                              !.mref = IF o # 0 /\ ~anon /\ Known(o) THEN <<Ref(SymAt(o, items[o].name), x.name)>> ELSE <<>>]

\* may the answers about an element be judged?
Sure(j) == IF items[j].k = "imethod"
           THEN \A o \in owner[j] : o = 0 \/ Known(o) \/ Without(o)
           ELSE Known(j) \/ Without(j)

FileAnswer(f) == [p |-> files[f].p, n |-> files[f].n, elems |-> files[f].elems]
=============================================================================
