------------------------------ MODULE MCObjects -----------------------------
(* Over all small programs: a method that is found is declared by the type  *)
(* it is said to belong to, an alias stands for its target, and a type's    *)
(* own methods come before those it embeds.                                 *)
EXTENDS SmallObjects
CONSTANT AliasOwns         \* a wrong way of naming the receiver's type

VARIABLES pr, q
Init == pr \in { p \in Programs : Fits(p) } /\ q \in { [e |-> e, m |-> m] : e \in {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 0>>, <<1, 1>>}, m \in Methods }
Next == UNCHANGED <<pr, q>>
Spec == Init /\ [][Next]_<<pr, q>>

R == IF AliasOwns /\ Refer(pr, q) # <<>> /\ Ent(pr, q.e).k = "alias"
     THEN <<[Refer(pr, q)[1] EXCEPT !.name = Ent(pr, q.e).name]>> ELSE Refer(pr, q)
Decls == UNION { { Pack(pr, <<i, 0>>).decls[j] @@ [p |-> pr[i + 1].p] : j \in DOMAIN pr[i + 1].decls } : i \in {0, 1} }
Declared == R # <<>> => \E d \in Decls : d.k = "type" /\ d.name = R[1].name /\ d.p = R[1].p /\ \E x \in DOMAIN d.methods : d.methods[x].n = q.m
Aliases  == Exported(q.m) => Refer(pr, q) = Refer(pr, [q EXCEPT !.e = Target(pr, @)])
OwnFirst == LET t == Ent(pr, Target(pr, q.e)) IN Exported(q.m) /\ (\E x \in DOMAIN t.methods : t.methods[x].n = q.m) => R # <<>> /\ R[1].name = t.name
=============================================================================
