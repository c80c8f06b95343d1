-------------------------------- MODULE Text --------------------------------
(* Text-level notions the specification needs: characters, identifiers,     *)
(* lexicographic order.  TLC represents strings natively; SubSeq and Len    *)
(* apply to them.                                                           *)
EXTENDS Naturals, Sequences, TLC

Lower  == "abcdefghijklmnopqrstuvwxyz"
Upper  == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"

\* printable ASCII in code point order ('"' and '\' escaped)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Char(s, i)  == SubSeq(s, i, i)
CharsOf(s)  == { Char(s, i) : i \in 1..Len(s) }

AsciiSet == TLCEval(CharsOf(Ascii))
Ord      == TLCEval([c \in AsciiSet |-> CHOOSE i \in 1..Len(Ascii) : Char(Ascii, i) = c])
OrdOf(c) == IF c \in AsciiSet THEN Ord[c] ELSE 1000

\* non-ASCII characters that the generators use in names: letters, digits, and
\* some that are neither (a digit that is no decimal, a letter-like number, a
\* combining mark, a connector, a symbol)
ForeignLetters == {"é", "ß", "λ", "世", "ǅ", "ʰ", "ª"}
ForeignDigits  == {"٣", "９"}
ForeignOther   == {"²", "Ⅷ", "́", "‿", "€"}

Letters    == TLCEval(CharsOf(Lower) \cup CharsOf(Upper) \cup {"_"} \cup ForeignLetters)
DigitSet   == TLCEval(CharsOf(Digits) \cup ForeignDigits)
IdentChars == TLCEval(Letters \cup DigitSet)

Keywords == {"break", "case", "chan", "const", "continue", "default", "defer",
             "else", "fallthrough", "for", "func", "go", "goto", "if", "import",
             "interface", "map", "package", "range", "return", "select",
             "struct", "switch", "type", "var"}

\* An identifier that may be declared and referred to: not a keyword, not blank.
Identifier(s) ==
    /\ Len(s) > 0
    /\ Char(s, 1) \in Letters
    /\ \A i \in 2..Len(s) : Char(s, i) \in IdentChars
    /\ s \notin Keywords
    /\ s # "_"

\* strict lexicographic order
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF Char(a, i) = Char(b, i) THEN LessFrom(a, b, i + 1)
    ELSE OrdOf(Char(a, i)) < OrdOf(Char(b, i))
Less(a, b) == LessFrom(a, b, 1)

\* the last element of an import path
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF Char(s, i) = "/" THEN i ELSE LastSlash(s, i - 1)
BaseName(s) == SubSeq(s, LastSlash(s, Len(s)) + 1, Len(s))

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatAll(Tail(ss))
=============================================================================
