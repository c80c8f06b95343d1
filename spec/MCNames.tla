------------------------------- MODULE MCNames ------------------------------
(* The laws of Export and Unexport, over a Unicode with one character of    *)
(* each relevant sort and all names up to MaxLen of them; a history is any  *)
(* sequence of exporting and unexporting.                                   *)
EXTENDS Names, TLC
CONSTANTS MaxLen, CheckUpper

\* a/A: letter pair; 200: lower-case letter whose upper case is the title-case letter 201; 202: lower
\* case without upper case; 203: upper case without lower case; 49: digit; 204: upper case 205, which
\* is not a letter; 206/207: letter pair whose lower case goes elsewhere (207 -> 97)
Chars == {97, 65, CapX, 120, Underscore, 49, 200, 201, 202, 203, 204, 205, 206, 207}
Up == [c \in Chars |-> CASE c = 97 -> 65 [] c = 120 -> CapX [] c = 200 -> 201 [] c = 204 -> 205 [] c = 206 -> 207 [] OTHER -> c]
Lo == [c \in Chars |-> CASE c = 65 -> 97 [] c = CapX -> 120 [] c = 201 -> 200 [] c = 205 -> 204 [] c = 207 -> 97 [] OTHER -> c]
Cap == [c \in Chars |-> c \in {65, CapX, 203, 207}]

VARIABLES orig, name, last

\* what was done without looking whether the upper-case form is upper case (the mutant)
ExportU(s) == IF CheckUpper \/ s = <<>> \/ Cap[s[1]] \/ Up[s[1]] = s[1] THEN Export(Up, Cap, s) ELSE <<Up[s[1]]>> \o Rest(s)

Init == /\ orig \in UNION { [1..n -> Chars] : n \in 0..MaxLen }
        /\ name = orig /\ last = ""
DoExport == name' = ExportU(name) /\ last' = "export" /\ UNCHANGED orig
DoUnexport == name' = Unexport(Lo, name) /\ last' = "unexport" /\ UNCHANGED orig
Next == DoExport \/ DoUnexport
Spec == Init /\ [][Next]_<<orig, name, last>>

Capital     == last = "export" /\ orig # <<>> => Exported(Cap, name)
NotCapital  == last = "unexport" /\ name # <<>> /\ Lo[name[1]] # name[1] => FALSE
KeepsEmpty  == (orig = <<>>) = (name = <<>>)
SameTail    == Len(name) >= Len(orig) /\ Len(orig) > 0 => SubSeq(name, Len(name) - Len(orig) + 2, Len(name)) = Rest(orig)
Idempotent  == [][ (last = "export" /\ last' = "export") \/ (last = "unexport" /\ last' = "unexport") => name' = name ]_<<orig, name, last>>
=============================================================================
