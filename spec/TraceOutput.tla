----------------------------- MODULE TraceOutput ----------------------------
(* Recorded calls of WriteGoFiles (kind io) and WriteGoFile (kind render):  *)
(* every event must be a step of Output (C14, C15).                         *)
EXTENDS Output, Judge, Text

VARIABLES cas, pos, fin
tvars == <<cas, pos, fin, files, i, ph, w, err, closed>>

O      == Obs[cas]
Single == O.kind = "render"
Evs    == O.obs.events
Ev     == Evs[pos + 1]

PathOf(f) == IF f.p = "" THEN f.n ELSE f.p \o "/" \o f.n
FilesOf(o) == [k \in DOMAIN o.obs.files |->
                 LET f == o.obs.files[k] IN [path |-> PathOf(f), render |-> f.render, len |-> f.len]]

\* the writer of a single rendering is open from the start
TInit ==
    /\ cas \in 1..N /\ pos = 0 /\ fin = FALSE
    /\ IF O.st # "ok" \/ O.kind = "newfile" THEN Start(<<>>)
       ELSE IF Single
       THEN /\ files = FilesOf(O) /\ i = 1 /\ ph = "open" /\ w = 0 /\ err = ""
            /\ closed = <<0>>
       ELSE Start(FilesOf(O))

Prop == IF Single THEN "C15" ELSE "C14"

\* leaving the rendering of a single file open is the same as closing it
Leave == IF Single /\ ph = "open" THEN Close("") ELSE FALSE

MustFail == ph = "open" /\ err = "" /\ Cur.render # "ok" /\ (Ev.ev = "close" \/ Ev.ev = "return")
MayFail  == ph = "ready" /\ err = "" /\ More /\ Cur.render # "ok" /\ Ev.ev = "return"
MustLeave == Single /\ ph = "open" /\ Ev.ev = "return" /\ (err # "" \/ w = Cur.len)

Taken ==
    CASE Ev.ev = "open"   -> Open(Ev.path, Ev.e)
      [] Ev.ev = "write"  -> ph = "open" /\ Ev.f = i /\ Ev.same /\ Write(Ev.n, Ev.k, Ev.e)
      [] Ev.ev = "close"  -> Ev.f = i /\ ~Single /\ Close(Ev.e)
      [] Ev.ev = "return" -> Return(Ev.e)

Why == CASE Ev.ev = "open"   -> {"C14/open"}
         [] Ev.ev = "write"  -> {Prop \o "/write", "C15/write"}
         [] Ev.ev = "close"  -> {"C14/close"} \cup If(ph = "open" => err # "" \/ w = Cur.len, {"C15/incomplete"})
         [] Ev.ev = "return" -> {Prop \o "/return"}

\* what an error says, and what the content looks like
WrongFacts(o) ==
    LET x == o.obs
    IN UNION { If(f.canonical, {"C15/canonical"}) \cup If(f.parses, {"C15/parses"}) : f \in { x.files[k] : k \in { k \in DOMAIN x.files : x.files[k].render = "ok" } } }
       \cup (IF x.events[Len(x.events)].e = "format"
             THEN If(x.ferr.is, {"C15/format-error"}) \cup If(x.ferr.complete, {"C15/unformatted"}) \cup If(x.ferr.cause, {"C15/cause"})
             ELSE {})

ValidName(n) == /\ \A k \in 1..Len(n) : Char(n, k) # "/"
                /\ Len(n) >= 3 /\ SubSeq(n, Len(n) - 2, Len(n)) = ".go"
WrongNewFile(c, x) ==
    If(ValidName(c.name) = (x.st = "ok"), {"C14/file-name"})
    \cup (IF x.st = "ok" THEN If(x.name = c.name /\ x.p = c.p /\ x.n = c.n /\ x.elems = 0, {"C14/new-file"}) ELSE {})

Same == UNCHANGED <<files, i, ph, w, err, closed>>
Give(tags) == IF tags = {} THEN TRUE ELSE Report(O.id, tags)

TNext ==
    /\ ~fin /\ UNCHANGED cas
    /\ IF O.st # "ok"
       THEN fin' = TRUE /\ Same /\ UNCHANGED pos /\ Give({ p \o "/" \o O.st : p \in {"C14", "C15"} })
       ELSE IF O.kind = "newfile"
       THEN fin' = TRUE /\ Same /\ UNCHANGED pos /\ Give(WrongNewFile(O.case, O.obs))
       ELSE IF pos = Len(Evs)
       THEN fin' = TRUE /\ Same /\ UNCHANGED pos /\ Give(WrongFacts(O) \cup If(ph = "ended", {Prop \o "/unfinished"}))
       ELSE IF MustFail \/ MayFail THEN Fail /\ UNCHANGED <<pos, fin>>
       ELSE IF MustLeave THEN Leave /\ UNCHANGED <<pos, fin>>
       ELSE IF ENABLED Taken THEN Taken /\ pos' = pos + 1 /\ fin' = FALSE
       ELSE fin' = TRUE /\ Same /\ UNCHANGED pos /\ Give(Why)

TSpec == TInit /\ [][TNext]_tvars

\* no recorded history ever closes a writer twice, or leaves one open
Closed == ph = "ended" => \A k \in DOMAIN closed : closed[k] <= 1
=============================================================================
