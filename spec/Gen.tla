--------------------------------- MODULE Gen --------------------------------
(* Test cases generated from the specification: bounded-exhaustive sets of  *)
(* inputs and histories, written as ndjson for the driver.                  *)
(*   WHAT  kind of case    SIZE  small, medium or large    OUT  file        *)
EXTENDS SmallTypes, Json, IOUtils

What == IOEnv.WHAT
Size == IOEnv.SIZE

Number(name, kind, S) ==
    LET s == SetToSeq(S)
    IN [i \in DOMAIN s |-> s[i] @@ [id |-> name \o "-g" \o ToString(i), kind |-> kind]]

----------------------------------------------------------------------------
TypeCases   == { [t |-> t] : t \in Universe(Size) }
\* go/types does not allow two embedded types of one name, nor embedded predeclared pointers; the
\* universe has none
GoTypeCases ==
      { [t |-> t, recv |-> <<>>, rn |-> ""] : t \in Universe(Size) }
 \cup { [t |-> FuncOf(s), recv |-> <<r>>, rn |-> n] :
          s \in Sigs(Leaf), n \in {"", "r"},
          r \in { Named("a/foo", "foo", "T"), [k |-> "ptr", e |-> Named("a/foo", "foo", "T")] } }

CtorArgsS == {<<>>} \cup { <<a>> : a \in 0..3 } \cup { <<a, b>> : a, b \in 0..3 }
Ctor(f, args, res, v, n, d, rk) ==
    [f |-> f, rk |-> rk, n |-> n, d |-> d, args |-> args, res |-> res, var |-> v]
CtorCases ==
      { Ctor("basic", <<>>, <<>>, FALSE, "0", 0, k) :
          k \in Basics \cup {"invalid", "chan", "func", "interface", "map", "ptr", "slice", "struct", "array", "unsafe.Pointer"} }
 \cup { Ctor(f, <<a>>, <<>>, FALSE, "0", 0, "int") : f \in {"ptr", "slice"}, a \in 0..3 }
 \cup { Ctor("array", <<a>>, <<>>, FALSE, n, 0, "int") : a \in 0..3, n \in {"-1", "0", "1", "9223372036854775807", "-9223372036854775808"} }
 \cup { Ctor("map", <<a, b>>, <<>>, FALSE, "0", 0, "int") : a, b \in 0..3 }
 \cup { Ctor("chan", <<a>>, <<>>, FALSE, "0", d, "int") : a \in 0..3, d \in -1..8 }
 \cup { Ctor(f, as, rs, v, "0", 0, "int") : f \in {"func", "funcsig"}, as \in CtorArgsS, rs \in CtorArgsS, v \in BOOLEAN }

----------------------------------------------------------------------------
(* Histories of the import table.                                           *)
ImpOps == { [op |-> "reg", p |-> p, q |-> q] : p \in {"a/own", "a/foo", "b/foo", "c/x-y"}, q \in {"", "foo", "foo1", "func"} }
     \cup { [op |-> "prefix", p |-> p] : p \in {"a/own", "a/foo", "b/foo"} }
     \cup { [op |-> "ensureSym", sym |-> Sym("b/foo", q, "X")] : q \in {"foo", ""} }
     \cup { [op |-> "qualSym", sym |-> Sym(p, "foo", "X")] : p \in {"a/foo", "b/foo"} }
ImpSeqs(n) == [1..n -> ImpOps]
ImportHistories ==
    { [own |-> "a/own", ops |-> s] :
        s \in CASE Size = "small" -> ImpSeqs(2) [] Size = "medium" -> ImpSeqs(3) [] OTHER -> ImpSeqs(3) }

(* Packages whose paths end in all kinds of characters, twice.              *)
Odd == ForeignLetters \cup ForeignDigits \cup ForeignOther \cup {"a", "Z", "7", "_", "-", ".", "$", "~", "+", " "}
Short == Odd \cup { a \o b : a \in Odd, b \in {"a", "7", "٣", "_", "-", "́", "€"} } \cup Keywords \cup {"", "..", "x.go", "Func", "string"}
ElementHistories ==
    { [own |-> "a/own", ops |-> <<[op |-> "reg", p |-> "p/" \o e, q |-> q], [op |-> "reg", p |-> "r/" \o e, q |-> q],
                                  [op |-> "ensureSym", sym |-> Sym("s/" \o e, q, "X")]>>] : e \in Short, q \in {"", "foo"} }
 \cup { [own |-> "a/own", ops |-> <<[op |-> "reg", p |-> "p/x", q |-> e], [op |-> "reg", p |-> "p/y", q |-> e], [op |-> "reg", p |-> "p/" \o e, q |-> ""]>>] : e \in Short }

(* A type qualified against a table in which its package has an alias, or   *)
(* not, or is the file's own.                                               *)
QualHistories ==
    { [own |-> o, ops |-> <<[op |-> "qualT", t |-> t], [op |-> "reg", p |-> "b/foo", q |-> r],
                            [op |-> "ensureT", t |-> t], [op |-> "qualT", t |-> t], [op |-> "dataT", t |-> t]>>] :
        t \in Universe(Size), o \in {"a/foo", "own"}, r \in {"foo", "x"} }
 \cup { [own |-> "own", ops |-> <<[op |-> "qualSig", sig |-> s], [op |-> "reg", p |-> "b/foo", q |-> "foo"],
                                  [op |-> "ensureSig", sig |-> s], [op |-> "qualSig", sig |-> s], [op |-> "dataSig", sig |-> s]>>] :
        s \in Sigs(Leaf) }

(* Names: ranges of first characters, with several tails.                   *)
Tails == << <<>>, <<97, 66>>, <<95>>, <<233, 49, -255, -195>> >>
NameCases ==
    LET NameRange(from, to, only, tails) == [from |-> from, to |-> to, only |-> only, tails |-> tails, names |-> << <<>> >>]
    IN { NameRange(0, 767, "all", Tails) }
  \cup { NameRange(65280, 65535, "all", Tails) }
  \cup { [from |-> 1, to |-> 0, only |-> "", tails |-> << <<>> >>,
          names |-> << <<-b>> \o t, <<-b, -128>> \o t, <<97, -b>> \o t, <<95, -b, -b>> \o t >>] : b \in {128, 191, 192, 195, 224, 239, 240, 245, 255}, t \in {<<>>, <<97>>, <<65533>>} }
  \cup { NameRange(k * 1024, k * 1024 + 1023, "cased", Tails) : k \in 0..127 }
  \cup (IF Size = "small" THEN {} ELSE { NameRange(k * 512, k * 512 + 511, "all", SubSeq(Tails, 1, 2)) : k \in 0..2175 })

(* Writing files: every combination of faults (and of files that cannot be  *)
(* rendered) for up to two files, and for three with fewer kinds of faults. *)
IOFile(k, bad)   == [seed |-> k, path |-> "*", pkg |-> "", name |-> "f" \o ToString(k) \o ".go", big |-> 0, bad |-> bad]
Fault(o, wr, cl) == [open |-> o, write |-> IF wr = "" THEN "" ELSE "e2", at |-> IF wr = "" THEN "start" ELSE wr, close |-> cl]
One    == [bad : {"", "body", "panic"}, f : { Fault(o, wr, cl) : o \in {"", "e1"}, wr \in {"", "start", "half", "end"}, cl \in {"", "e3"} }]
Few    == [bad : {"", "init"}, f : { Fault(o, wr, cl) : o \in {"", "e1"}, wr \in {"", "last"}, cl \in {"", "e3"} }]
IOCase(xs) == [files |-> [k \in DOMAIN xs |-> IOFile(k, xs[k].bad)], order |-> [k \in DOMAIN xs |-> k - 1],
               faults |-> [k \in DOMAIN xs |-> xs[k].f]]
IOCases == { IOCase(xs) : xs \in UNION { [1..n -> One] : n \in 0..2 } }
      \cup (IF Size = "small" THEN {} ELSE { IOCase(xs) : xs \in [1..3 -> Few] })
RenderCases == { IOCase(<<x>>) : x \in One } \cup { IOCase(<<x>>) : x \in [bad : {"init", "name", "pkg"}, f : {Fault("", "", "")}] }
NewFileCases ==
    LET W == {"", "a", ".go", "a.go", "/", "x/", ".", "..", "_test.go", ".GO", "é", " "}
    IN { [name |-> a \o b \o c, p |-> "a/b", n |-> "b"] : a, b, c \in W }

----------------------------------------------------------------------------
Cases == CASE What = "type"    -> Number("type", "type", TypeCases)
           [] What = "gotype"  -> Number("gotype", "gotype", GoTypeCases)
           [] What = "ctor"    -> Number("ctor", "ctor", CtorCases)
           [] What = "imports" -> Number("imports", "imports", ImportHistories)
           [] What = "names"   -> Number("names", "names", NameCases)
           [] What = "io"      -> Number("io", "io", IOCases)
           [] What = "render"  -> Number("render", "render", RenderCases)
           [] What = "newfile" -> Number("newfile", "newfile", NewFileCases)
           [] What = "elements" -> Number("elements", "imports", ElementHistories)
           [] What = "qual"    -> Number("qual", "imports", QualHistories)

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
=============================================================================
