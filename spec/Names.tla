-------------------------------- MODULE Names -------------------------------
(* Exporting and unexporting names.  A name is a sequence of characters;    *)
(* what Unicode says about a character c is given by three functions:       *)
(* UpOf[c] and LoOf[c], its upper and lower case, and Cap[c], whether it is *)
(* an upper-case letter (which makes a name exported in Go).  Bytes that    *)
(* are part of no character are negative: there may be some further on in   *)
(* a name, and are left alone; a name that starts with one is refused.      *)
EXTENDS Integers, Sequences

CapX       == 88
Underscore == 95

Rest(s) == SubSeq(s, 2, Len(s))

Refused(s) == s # <<>> /\ s[1] < 0

Unexport(LoOf, s) == IF s = <<>> THEN s ELSE <<LoOf[s[1]]>> \o Rest(s)

Export(UpOf, Cap, s) ==
    IF s = <<>> THEN s
    ELSE IF Cap[s[1]] THEN s
    ELSE IF s[1] = Underscore THEN <<CapX>> \o Rest(s)
    ELSE IF Cap[UpOf[s[1]]] THEN <<UpOf[s[1]]>> \o Rest(s)
    ELSE <<CapX>> \o s

Exported(Cap, s) == s # <<>> /\ Cap[s[1]]
=============================================================================
