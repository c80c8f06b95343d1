------------------------------- MODULE Objects ------------------------------
(* Declared objects of type-checked packages, and the references that name  *)
(* them.                                                                    *)
(*                                                                          *)
(*   pkgs   Seq of [p, n, decls]; a declaration is addressed as <<package,  *)
(*          declaration>>, from 0, and is                                   *)
(*            [k, name, form, of, embeds, methods]                          *)
(*          k       const, var, func, type or alias                         *)
(*          form    of types: struct, iface, or of (defined, or an alias,   *)
(*                  in terms of <<>> (int) or of one declaration)           *)
(*          embeds  [e, ptr] of structs and interfaces                      *)
(*          methods [n, ptr] declared for the type or in the interface      *)
(*                                                                          *)
(* A method belongs to the type that it was declared for, or the interface  *)
(* that it was declared in, through whatever other type it was found.       *)
EXTENDS GoTypes

Pack(pkgs, e) == pkgs[e[1] + 1]
Ent(pkgs, e)  == Pack(pkgs, e).decls[e[2] + 1]

\* the declaration of the type that e denotes
RECURSIVE Target(_, _)
Target(pkgs, e) == LET d == Ent(pkgs, e) IN IF d.k = "alias" /\ d.of # <<>> THEN Target(pkgs, d.of[1]) ELSE e
\* the declaration that says what the type that e denotes consists of
RECURSIVE Under(_, _)
Under(pkgs, e) == LET t == Target(pkgs, e)
                      d == Ent(pkgs, t)
                  IN IF d.form = "of" /\ d.of # <<>> THEN Under(pkgs, d.of[1]) ELSE t
IsIface(pkgs, e) == Ent(pkgs, Under(pkgs, e)).form = "iface"

\* methods, as [recv, n], of an interface
RECURSIVE IMethods(_, _)
IMethods(pkgs, e) ==
    LET u == Under(pkgs, e)
        d == Ent(pkgs, u)
    IN { [recv |-> u, n |-> d.methods[x].n] : x \in DOMAIN d.methods }
       \cup UNION { IMethods(pkgs, d.embeds[x].e) : x \in DOMAIN d.embeds }
\* those that a type has without looking into what it embeds
Direct(pkgs, e) ==
    IF IsIface(pkgs, e) THEN IMethods(pkgs, e)
    ELSE LET t == Target(pkgs, e) IN { [recv |-> t, n |-> Ent(pkgs, t).methods[x].n] : x \in DOMAIN Ent(pkgs, t).methods }

Exported(n) == Char(n, 1) \in CharsOf(Upper)
Visible(pkgs, from, m) == Exported(m.n) \/ Pack(pkgs, m.recv).p = from

RECURSIVE FlatEmb(_, _)
FlatEmb(pkgs, lvl) ==
    IF lvl = <<>> THEN <<>>
    ELSE LET d == Ent(pkgs, Under(pkgs, Head(lvl)))
         IN (IF d.form = "struct" THEN [x \in DOMAIN d.embeds |-> Target(pkgs, d.embeds[x].e)] ELSE <<>>)
            \o FlatEmb(pkgs, Tail(lvl))

\* breadth first: the shallowest method of that name, if it is the only one at its depth
RECURSIVE Look(_, _, _, _, _)
Look(pkgs, from, n, lvl, seen) ==
    LET Hits(x) == { m \in Direct(pkgs, lvl[x]) : m.n = n /\ Visible(pkgs, from, m) }
        at == { x \in DOMAIN lvl : Hits(x) # {} }
    IN IF lvl = <<>> THEN <<>>
       ELSE IF at = {} THEN LET s2 == seen \cup SeqRange(lvl)
                            IN Look(pkgs, from, n, SelectSeq(FlatEmb(pkgs, lvl), LAMBDA e : e \notin s2), s2)
       ELSE IF Cardinality(at) > 1 THEN <<>>
       ELSE LET m == CHOOSE m \in Hits(CHOOSE x \in at : TRUE) : TRUE IN <<m>>

\* the reference that query q [e, m] leads to, as a sequence: empty if there is no such object
Refer(pkgs, q) ==
    IF q.m = "" THEN << [k |-> "sym", p |-> Pack(pkgs, q.e).p, q |-> Pack(pkgs, q.e).n, name |-> Ent(pkgs, q.e).name, m |-> ""] >>
    ELSE LET r == Look(pkgs, Pack(pkgs, q.e).p, q.m, <<Target(pkgs, q.e)>>, {})
         IN IF r = <<>> THEN <<>>
            ELSE LET e == r[1].recv
                 IN << [k |-> "mref", p |-> Pack(pkgs, e).p, q |-> Pack(pkgs, e).n, name |-> Ent(pkgs, e).name, m |-> q.m] >>
=============================================================================
