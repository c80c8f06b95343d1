-------------------------------- MODULE Code --------------------------------
(* Code blocks: what they consist of, and the text they stand for.          *)
(*                                                                          *)
(*   blocks   Seq of blocks, in order of creation; a block is a Seq of      *)
(*            chunks, in order:                                             *)
(*              [c |-> "lit", s]                     text, as it is         *)
(*              [c |-> "ref", a, verb, w, left, prec] a formatted reference *)
(*                                                                          *)
(* Pieces that are put into a block are [k, parts]; k says which method did *)
(* it.  Adding a block to another copies what it consists of at that time.  *)
(*                                                                          *)
(* Text is represented by its bytes: a string has one character per byte.   *)
EXTENDS File

VARIABLE blocks
NL == "\n"
BlockStart == "_ = `<<~<"
BlockEnd   == ">~>>`"

LineKind(k) == k \in {"println", "printlnf"}

\* (what fmt makes of ordinary values is recorded with the case: fmt is the environment)
Chunk(p) == CASE p.k = "lit"   -> [c |-> "lit", s |-> p.s]
              [] p.k = "plain" -> [c |-> "lit", s |-> p.out]
              [] p.k = "arg"   -> [c |-> "ref", a |-> p.a, verb |-> p.verb, w |-> p.w, left |-> p.left, prec |-> p.prec]
Chunks(pc) == [x \in DOMAIN pc.parts |-> Chunk(pc.parts[x])]
                \o (IF LineKind(pc.k) THEN <<[c |-> "lit", s |-> NL]>> ELSE <<>>)

CInit == blocks = <<>>

Do(o) ==
    blocks' =
      CASE o.op = "new"  -> Append(blocks, IF o.kind = "func" THEN <<[c |-> "lit", s |-> BlockStart]>> ELSE <<>>)
        [] o.op \in {"con", "init"} -> Append(blocks, Chunks(o.piece))
        [] o.op = "put"  -> [blocks EXCEPT ![o.b] = @ \o Chunks(o.piece)]
        [] o.op = "add"  -> [blocks EXCEPT ![o.b] = @ \o blocks[o.c]]
        [] o.op = "end"  -> [blocks EXCEPT ![o.b] = Append(@, [c |-> "lit", s |-> BlockEnd])]
        [] o.op = "show" -> blocks

----------------------------------------------------------------------------
(* The text of a reference, given the qualifiers of packages: a function    *)
(* from import paths; own is the file's path.                               *)
Qual(own, quals, s)   == IF (s.p = "" /\ s.q = "") \/ s.p = own THEN "" ELSE quals[s.p]
Name(own, quals, s)   == LET q == Qual(own, quals, s) IN IF q = "" THEN s.name ELSE q \o "." \o s.name

RECURSIVE Spell(_, _, _)
Spell(own, quals, t) ==
    CASE t.k = "basic" -> t.b
      [] t.k = "named" -> Name(own, quals, Sym(t.p, t.q, t.name))
      [] t.k = "ptr"   -> "*" \o Spell(own, quals, t.e)
      [] t.k = "slice" -> "[]" \o Spell(own, quals, t.e)
      [] t.k = "array" -> "[" \o t.n \o "]" \o Spell(own, quals, t.e)
      [] t.k = "map"   -> "map[" \o Spell(own, quals, t.key) \o "]" \o Spell(own, quals, t.e)

RefText(own, quals, x) ==
    CASE x.m = "ref"  -> Name(own, quals, x.sym)
      [] x.m = "mref" -> Name(own, quals, x.sym) \o "." \o x.meth
      [] x.m = "pkg"  -> Qual(own, quals, x.sym)
      [] x.m = "type" -> Spell(own, quals, x.t)
      [] OTHER        -> x.s

RECURSIVE Spaces(_)
Spaces(k) == IF k <= 0 THEN "" ELSE " " \o Spaces(k - 1)
Fmt(ch, s) ==
    LET cut == IF ch.prec >= 0 /\ ch.prec < Len(s) THEN SubSeq(s, 1, ch.prec) ELSE s
        t   == IF ch.verb = "q" THEN "\"" \o cut \o "\"" ELSE cut
    IN IF ch.left THEN t \o Spaces(ch.w - Len(t)) ELSE Spaces(ch.w - Len(t)) \o t

RECURSIVE TextFrom(_, _, _, _, _)
TextFrom(own, quals, pool, b, x) ==
    IF x > Len(b) THEN ""
    ELSE (IF b[x].c = "lit" THEN b[x].s
          ELSE Fmt(b[x], RefText(own, quals, Meaning([pool |-> pool], pool[b[x].a + 1]))))
         \o TextFrom(own, quals, pool, b, x + 1)
BlockText(own, quals, pool, b) == TextFrom(own, quals, pool, b, 1)

\* the packages that rendering a block refers to
BlockRefs(pool, b) == UNION { IF b[x].c = "lit" THEN {} ELSE SeqRange(RefsMeaning(Meaning([pool |-> pool], pool[b[x].a + 1]))) : x \in DOMAIN b }
BlockPaths(own, pool, b) == { r.p : r \in { r \in BlockRefs(pool, b) : ~(r.p = "" /\ r.q = "") } } \ {own}
=============================================================================
