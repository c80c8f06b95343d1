------------------------------- MODULE Output -------------------------------
(* The protocol of writing several files (and, with Single, of rendering    *)
(* one file to a writer that the caller opened).  The environment decides   *)
(* the outcome of every call: an error name, or "" for success.             *)
(*                                                                          *)
(* A file is [path, render, len]: render is "ok", or how rendering fails    *)
(* ("format", "panic"); len is the length of its formatted content.         *)
EXTENDS Naturals, Sequences

VARIABLES files,   \* what is to be written, in order
          i,       \* the current file
          ph,      \* ready (to open), open, ended
          w,       \* how much of the current content the writer has accepted
          err,     \* the first error, or ""
          closed   \* for each file: how often its writer was closed

vars == <<files, i, ph, w, err, closed>>

More == i <= Len(files)
Cur  == files[i]

Start(fs) == /\ files = fs /\ i = 1 /\ ph = "ready" /\ w = 0 /\ err = ""
             /\ closed = [k \in DOMAIN fs |-> 0]

Open(p, e) ==
    /\ ph = "ready" /\ err = "" /\ More
    /\ p = Cur.path
    /\ w' = 0
    /\ ph' = IF e = "" THEN "open" ELSE "ready"
    /\ err' = e
    /\ UNCHANGED <<files, i, closed>>

\* n more bytes are offered, k of them accepted
Write(n, k, e) ==
    /\ ph = "open" /\ err = "" /\ Cur.render = "ok"
    /\ w + n <= Cur.len
    /\ k <= n /\ (e = "" => k = n)
    /\ w' = w + k
    /\ err' = e
    /\ UNCHANGED <<files, i, ph, closed>>

\* rendering fails: nothing is written
Fail ==
    /\ ph \in {"ready", "open"} /\ err = "" /\ More /\ Cur.render # "ok"
    /\ err' = Cur.render
    /\ UNCHANGED <<files, i, ph, w, closed>>

Close(e) ==
    /\ ph = "open"
    /\ err # "" \/ (w = Cur.len /\ Cur.render = "ok")
    /\ ph' = "ready"
    /\ err' = IF err # "" THEN err ELSE e
    /\ closed' = [closed EXCEPT ![i] = @ + 1]
    /\ i' = i + 1
    /\ UNCHANGED <<files, w>>

Return(e) ==
    /\ ph = "ready"
    /\ err # "" \/ ~More
    /\ e = err
    /\ ph' = "ended"
    /\ UNCHANGED <<files, i, w, err, closed>>
=============================================================================
