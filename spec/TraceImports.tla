---------------------------- MODULE TraceImports ----------------------------
(* Recorded histories of the real import table, replayed against Imports.   *)
EXTENDS Imports, Judge

VARIABLES cas, pos, fin   \* case, events consumed, finished

Case  == Obs[cas].case
Steps == Obs[cas].obs.steps

tvars == <<own, tab, out, cas, pos, fin>>

SpecList(st) == [i \in DOMAIN st.specs |-> [a |-> st.specs[i].a, p |-> st.specs[i].p]]

SpecToks(s) == (IF s.a = "" THEN <<>> ELSE <<T_id(s.a)>>) \o <<[c |-> "str", s |-> s.p]>>

(* Which clauses does event st, seen for operation op, violate?             *)
Wrong(op, st) ==
    LET specs == SpecList(st)
        tab2  == TableOf(specs, tab, op)
        need  == IF Registers(op) THEN Needed(own, op) ELSE {}
        new   == need \ DOMAIN tab
        fails == Fails(own, tab, op)
        map   == Mapping(own, tab2)
        domok == DOMAIN tab2 = DOMAIN tab \cup new
        list  ==
               If(domok, {"C02/exactly-registered", "C03/registers-exactly"})
          \cup If(\A p \in DOMAIN tab \cap DOMAIN tab2 : tab2[p] = tab[p], {"C01/stable", "C02/binding-kept"})
          \cup If(Len(specs) = Cardinality(DOMAIN tab2), {"C02/once"})
          \cup If(own \notin DOMAIN tab2, {"C01/own-imported", "C02/own-imported"})
          \cup If(Sorted(specs), {"C02/sorted"})
          \cup If(\A p \in DOMAIN tab2 : Identifier(tab2[p].q), {"C01/identifier", "C02/identifier"})
          \cup If(\A p, r \in DOMAIN tab2 : tab2[p].q = tab2[r].q => p = r, {"C01/unique", "C02/unique"})
          \cup If(SeqRange(specs) = SpecSet(tab2), {"C02/alias-iff-needed"})
          \cup If(\A i \in DOMAIN specs : st.specs[i].toks = SpecToks(specs[i]), {"C02/text"})
          \cup If(domok => Successor(own, tab, op, tab2),
                  {"C01/declared-name-used", "C02/declared-name-used"})
        strip  == [op |-> "noqual"]
        wrongq == {"C01/qualifier-handed-out", "C02/binds-qualifier"}
        tagP   == (IF op.op \in {"prefix", "qualSym"} THEN {"C01/lookup-panics"} ELSE {})
                  \cup (IF op.op \in {"qualSym", "qualT", "qualSig"} THEN {"C03/panics-iff-unregistered"} ELSE {})
                  \cup (IF Registers(op) THEN {"C01/panics", "C03/panics"} ELSE {})
        answer ==
          CASE op.op \in {"reg", "regpkg", "prefix"} ->
                 If(st.s = Prefix(own, tab2, op.p), {"C01/prefix", "C02/binds-prefix"})
            [] op.op = "datapkg" ->
                 If(st.q = QualOf(map, Sym(op.p, op.q, "")) /\ st.str = st.q /\ st.p = op.p,
                    {"C01/prefix", "C03/package", "C13/package"})
            [] op.op \in {"ensureSym", "qualSym", "dataSym"} ->
                      If(st.sym = MapRef(map, op.sym), {"C01/symbol", "C02/binds-qualifier", "C03/symbol"})
                 \cup If(st.toks = RenderRef(MapRef(map, op.sym)), {"C03/symbol-text"})
            [] op.op \in {"ensureT", "qualT", "dataT"} ->
                      If(st.t = MapT(map, op.t),
                         {"C03/type"} \cup (IF MapT(strip, st.t) = MapT(strip, op.t) THEN wrongq ELSE {}))
                 \cup If(st.after = op.t, {"C03/input-modified"})
            [] op.op \in {"ensureSig", "qualSig", "dataSig"} ->
                      If(st.sig = MapSig(map, op.sig),
                         {"C03/signature"} \cup (IF MapSig(strip, st.sig) = MapSig(strip, op.sig) THEN wrongq ELSE {}))
                 \cup If(st.after = op.sig, {"C03/input-modified"})
    IN IF (st.st = "panic") # fails
       THEN tagP
       ELSE IF fails
       THEN If(IsSpecsOf(specs, tab), {"C01/failed-lookup-changes-nothing", "C02/exactly-registered",
                                       "C03/registers-nothing"})
       ELSE IF list # {} THEN list
       ELSE answer

TInit == /\ cas \in 1..N
         /\ pos = 0 /\ fin = FALSE
         /\ own = IF "own" \in DOMAIN Obs[cas].case THEN Obs[cas].case.own ELSE ""
         /\ tab = Empty
         /\ out = "none"

TNext ==
    /\ ~fin
    /\ IF Obs[cas].st # "ok"
       THEN /\ Report(Obs[cas].id, {"C01/" \o Obs[cas].st, "C02/" \o Obs[cas].st, "C03/" \o Obs[cas].st})
            /\ fin' = TRUE /\ UNCHANGED <<own, tab, out, cas, pos>>
       ELSE /\ pos < Len(Case.ops)
            /\ LET op  == Case.ops[pos + 1]
                   st  == Steps[pos + 1]
                   bad == Wrong(op, st)
               IN /\ tab' = IF st.st = "panic" \/ bad # {} THEN tab ELSE TableOf(SpecList(st), tab, op)
                  /\ out' = st.st
                  /\ pos' = pos + 1
                  /\ IF bad = {} THEN fin' = (pos + 1 = Len(Case.ops))
                     ELSE fin' = TRUE /\ Report(Obs[cas].id, bad)
                  /\ UNCHANGED <<own, cas>>

TSpec == TInit /\ [][TNext]_tvars

\* the invariants of the design, evaluated in every state of every recorded history
TInv == Unique /\ Valid /\ NotOwn
=============================================================================
