------------------------------ MODULE GrowSteps -----------------------------
(* The steps of building a program.                                         *)
(* Steps:                                                                   *)
(*   decl f decl            a declaration is added to a file                *)
(*   spec f d spec          a const, var or type is added to a declaration  *)
(*   arg/res f d arg (var)  a parameter or result is added to a function    *)
(*   piece f d piece        code is added to a function                     *)
(*   bpiece b piece         code is added to a block                        *)
(*   init f d s init        an initializer is set                           *)
(*   type f d s ty          the type of a const or var is set               *)
(*   doc f w ..             a comment is set: w is fc, pc, decl, spec       *)
(*   rename f d s name      an element gets another name                    *)
(*   setarg/setres f d i arg  a parameter or result becomes another one     *)
(*   field/elem f d s i ..  a field or an element of an interface becomes   *)
(*                          another one                                     *)
(*   drop f d               the last const, var or type of a declaration is *)
(*                          taken away                                      *)
(*   canon f, reg f         canonical import path; an explicit import       *)
(*   write f                                                                *)
EXTENDS File

\* adding a block adds the pieces that it has then
Pieces(p, pc) == IF pc.k = "add" THEN p.blocks[pc.block + 1] ELSE <<pc>>

Apply(p, st) ==
    CASE st.a = "decl"   -> [p EXCEPT !.files[st.f + 1].decls = Append(@, st.decl)]
      [] st.a = "spec"   -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs = Append(@, st.spec)]
      [] st.a = "arg"    -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].sig =
                               [args |-> Append(@.args, st.arg), res |-> @.res, var |-> @.var \/ st.var]]
      [] st.a = "res"    -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].sig.res = Append(@, st.arg)]
      [] st.a = "piece"  -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].body = @ \o Pieces(p, st.piece)]
      [] st.a = "bpiece" -> [p EXCEPT !.blocks[st.b + 1] = @ \o Pieces(p, st.piece)]
      [] st.a = "init"   -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].init = <<st.init>>]
      [] st.a = "type"   -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].ty = <<st.ty>>]
      [] st.a = "rename" ->
          (CASE p.files[st.f + 1].decls[st.d + 1].k = "func" -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].name = st.name]
             [] p.files[st.f + 1].decls[st.d + 1].k = "type" ->
                  [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].name = st.name]
             [] OTHER -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].names[1] = st.name])
      [] st.a = "setarg" -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].sig.args[st.i + 1] = st.arg]
      [] st.a = "setres" -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].sig.res[st.i + 1] = st.arg]
      [] st.a = "field"  -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].fields[st.i + 1] = st.field]
      [] st.a = "elem"   -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].elems[st.i + 1] = st.elem]
      [] st.a = "drop"   -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs = SubSeq(@, 1, Len(@) - 1)]
      [] st.a = "canon"  -> [p EXCEPT !.files[st.f + 1].canon = st.canon]
      [] st.a = "reg"    -> [p EXCEPT !.files[st.f + 1].regs = Append(@, st.reg)]
      [] st.a = "doc" ->
          (CASE st.w = "fc"   -> [p EXCEPT !.files[st.f + 1].fc = st.doc]
             [] st.w = "pc"   -> [p EXCEPT !.files[st.f + 1].pc = st.doc]
             [] st.w = "decl" -> [p EXCEPT !.files[st.f + 1].decls[st.d + 1].doc = st.doc]
             [] st.w = "spec" -> IF p.files[st.f + 1].decls[st.d + 1].k = "func"
                                 THEN [p EXCEPT !.files[st.f + 1].decls[st.d + 1].doc = st.doc]
                                 ELSE [p EXCEPT !.files[st.f + 1].decls[st.d + 1].specs[st.s + 1].doc = st.doc])
      [] OTHER           -> p
=============================================================================
