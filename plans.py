"""What each check runs: design models, generated cases, judging modules; and
the canaries (ways of corrupting a genuine observation that the specification
must reject, which shows on every run that the judge is alive)."""
import copy

LEVEL_NOTE_ASSUMPTIONS = [
    "the driver's projections of gopoet values (driver/*.go) report what the public accessors return",
    "go/parser, go/scanner, go/format of the installed toolchain",
    "TLC evaluates the specification correctly",
    "observations are of the cases listed in cases_by_kind (bounded-exhaustive sets generated by TLC plus seeded random ones), not of all inputs",
]


def canary(*props):
    def deco(f):
        f.props = props
        return f
    return deco


def T(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


# ------------------------------------------------------------------- imports
@canary("C01", "C02")
def imp_unstable(o):
    a, b = o["obs"]["steps"][-2:]
    for s in b["specs"]:
        if s["a"] and s in a["specs"] and b["st"] == "ok":
            s["a"] += "_"
            return True


@canary("C01")
def imp_prefix(o):
    for op, st in zip(o["case"]["ops"], o["obs"]["steps"]):
        if op["op"] in ("reg", "prefix") and st.get("s"):
            st["s"] = "zz" + st["s"]
            return True


@canary("C02")
def imp_order(o):
    sp = o["obs"]["steps"][-1]["specs"]
    if len(sp) >= 2:
        sp[0], sp[1] = sp[1], sp[0]
        return True


@canary("C02")
def imp_drop(o):
    sp = o["obs"]["steps"][-1]["specs"]
    if sp:
        del sp[-1]
        return True


@canary("C03")
def imp_type(o):
    for op, st in zip(o["case"]["ops"], o["obs"]["steps"]):
        if op["op"] == "ensureT" and st["st"] == "ok":
            st["t"] = {"k": "ptr", "e": st["t"]}
            return True


@canary("C03")
def imp_after(o):
    for op, st in zip(o["case"]["ops"], o["obs"]["steps"]):
        if op["op"] in ("ensureT", "dataT") and st["st"] == "ok":
            st["after"] = {"k": "slice", "e": st["after"]}
            return True


@canary("C03")
def imp_panic(o):
    for op, st in zip(o["case"]["ops"], o["obs"]["steps"]):
        if op["op"] == "qualT" and st["st"] == "ok":
            st["st"] = "panic"
            return True


# --------------------------------------------------------------------- types
@canary("C04")
def ty_tok(o):
    if o["kind"] == "type" and len(o["obs"]["toks"]) > 1:
        del o["obs"]["toks"][-1]
        return True


@canary("C04")
def ty_name(o):
    if o["kind"] == "type":
        for t in o["obs"]["toks"]:
            if t["c"] == "id" and t["s"] not in ("rune", "byte"):
                t["s"] += "x"
                return True


@canary("C05")
def ty_acc(o):
    if o["kind"] == "type":
        a = o["obs"]["acc"]
        while a["elem"]:
            a = a["elem"][0]
        a["len"] = "7"
        return True


@canary("C05")
def ty_acc2(o):
    if o["kind"] == "type":
        o["obs"]["acc2"]["dir"] = "sideways"
        return True


@canary("C05")
def ty_ctor(o):
    if o["kind"] == "ctor":
        o["obs"] = {"st": "ok", "t": {"k": "nil"}} if o["obs"]["st"] == "panic" else {"st": "panic"}
        return True


def _leaf(t):
    if t["k"] in ("named",):
        t["name"] += "X"
        return True
    if t["k"] in ("ptr", "slice", "array", "chan", "map"):
        return _leaf(t["e"])
    if t["k"] == "struct" and t["fields"]:
        t["fields"][-1]["n"] += "y"
        return True
    if t["k"] == "func":
        t["sig"]["var"] = not t["sig"]["var"]
        return True


@canary("C06")
def ty_go(o):
    return o["kind"] == "gotype" and _leaf(o["obs"]["t"])


@canary("C07")
def ty_reflect(o):
    return o["kind"] == "rtype" and _leaf(o["obs"]["t"])


# ---------------------------------------------------------------------- files
def _docs(o):
    return [w["doc"][0] for w in o["obs"]["writes"] if w["doc"] and w["doc"][0]["st"] == "ok"]


@canary("C08")
def file_qual(o):
    # another package's name in a declared type
    for d in _docs(o):
        if len(d["imports"]) < 2:
            continue
        for x in d["decls"]:
            for s in x.get("specs", ()):
                for t in (s["ty"] if isinstance(s["ty"], list) else [s["ty"]]):
                    if t["k"] == "named" and t["q"]:
                        t["q"] += "0"
                        return True


@canary("C08", "C10")
def file_name(o):
    for d in _docs(o):
        for x in d["decls"]:
            for s in x.get("specs", ()):
                for t in (s["ty"] if isinstance(s["ty"], list) else [s["ty"]]):
                    if t["k"] == "named" and t["q"]:
                        t["name"] += "X"
                        return True


@canary("C08", "C10")
def file_token(o):
    for d in _docs(o):
        for x in d["decls"]:
            for i, t in enumerate(x.get("body", ())):
                if t["c"] == "op" and t["s"] == ".":
                    del x["body"][i]
                    return True


@canary("C09")
def file_extra(o):
    for d in _docs(o):
        d["imports"].append({"a": "zz", "p": "zz/zz"})
        return True


@canary("C09")
def file_missing(o):
    for d in _docs(o):
        if d["imports"]:
            del d["imports"][0]
            return True


@canary("C09")
def file_twice(o):
    for d in _docs(o):
        if d["imports"]:
            d["imports"].append(dict(d["imports"][0], a="again"))
            return True


@canary("C10")
def file_drop(o):
    for d in _docs(o):
        if len(d["decls"]) > 1:
            d["decls"][0], d["decls"][1] = d["decls"][1], d["decls"][0]
            return d["decls"][0] != d["decls"][1]


@canary("C10")
def file_doc(o):
    for d in _docs(o):
        for x in d["decls"]:
            x["doc"] = x["doc"] + ["added"]
            if not x.get("paren", True) or x["k"] == "func" or x["paren"]:
                return True


@canary("C10")
def file_alias(o):
    for d in _docs(o):
        for x in d["decls"]:
            if x["k"] == "type" and x["specs"]:
                x["specs"][0]["alias"] = not x["specs"][0]["alias"]
                return True


@canary("C12")
def file_hash(o):
    o["obs"]["writes"][-1]["h"] += "0"
    return True


@canary("C12")
def file_snap(o):
    o["obs"]["writes"][-1]["snap"] += "0"
    return True


@canary("C12")
def file_table(o):
    w = o["obs"]["writes"]
    for i in range(len(w) - 1, -1, -1):
        for j in range(len(w[i]["tabs"])):
            if j != w[i]["f"]:
                w[i]["tabs"][j].append({"a": "q", "p": "q/q"})
                return True


# ---------------------------------------------------------------------- names
@canary("C18")
def name_ex(o):
    n = o["obs"]["names"][-1]
    if n["st"] != "ok":
        return
    n["ex"] = n["ex"] + [97]
    return True


@canary("C18")
def name_un(o):
    n = o["obs"]["names"][0]
    if n["st"] != "ok":
        return
    n["un"] = [1] + n["un"]
    return True


@canary("C18")
def name_utf8(o):
    for n in o["obs"]["names"]:
        if n["st"] == "panic":
            n["st"] = "ok"
            return True


@canary("C18")
def name_exp(o):
    for n in o["obs"]["names"]:
        if n["ident"]:
            n["isexp"] = False
            return True


# --------------------------------------------------------------------- output
def _evs(o):
    return o["obs"]["events"] if o["kind"] != "newfile" else []


@canary("C14")
def io_noclose(o):
    for i, e in enumerate(_evs(o)):
        if e["ev"] == "close":
            del o["obs"]["events"][i]
            return True


@canary("C14")
def io_lost(o):
    if o["kind"] == "io" and _evs(o)[-1]["e"]:
        _evs(o)[-1]["e"] = ""
        return True


@canary("C14")
def io_path(o):
    for e in _evs(o):
        if e["ev"] == "open":
            e["path"] += "x"
            return True


@canary("C14", "C15")
def io_short(o):
    for i, e in enumerate(_evs(o)):
        if e["ev"] == "write" and not e["e"]:
            e["n"] -= 1
            e["k"] -= 1
            return True


@canary("C15")
def io_garbled(o):
    for i, e in enumerate(_evs(o)):
        if e["ev"] == "write":
            e["same"] = False
            return True


@canary("C15")
def io_ferr(o):
    if _evs(o)[-1]["e"] == "format":
        o["obs"]["ferr"]["complete"] = False
        return True


@canary("C15")
def io_early(o):
    if o["kind"] == "render" and _evs(o)[-1]["e"] == "format":
        o["obs"]["events"].insert(0, {"ev": "write", "f": 1, "n": 10, "k": 10, "same": True, "e": ""})
        return True


@canary("C15")
def file_canon(o):
    o["obs"]["writes"][0]["canon"] = False
    return True


# ------------------------------------------------------------------ attachment
def _answers(o, pred):
    for st in reversed(o["obs"]["steps"]):
        for it in reversed(st["items"]):
            if pred(it["a"]):
                return it["a"]


@canary("C16")
def att_sym(o):
    a = _answers(o, lambda a: a["one"])
    if a:
        a["one"][0]["p"] += "x"
        return True


@canary("C16")
def att_unattached(o):
    # a reference although the element is in no file
    a = _answers(o, lambda a: a["syms"] and a["syms"][0] == [])
    if a:
        a["syms"][0] = [{"p": "", "q": "", "name": a["str"], "m": ""}]
        return True


@canary("C16")
def att_str(o):
    a = _answers(o, lambda a: a["str"] and a["one"])
    if a:
        a["str"] = a["str"].split(".")[-1] + "_"
        return True


@canary("C16")
def att_type(o):
    a = _answers(o, lambda a: a["tn"] and a["mref"])
    if a:
        a["tn"][0]["sig"]["args"] = a["tn"][0]["sig"]["args"][1:]
        return True


@canary("C16")
def att_recv(o):
    a = _answers(o, lambda a: a["recv"])
    if a:
        a["recv"][0]["ptr"] = not a["recv"][0]["ptr"]
        return True


@canary("C16")
def att_file(o):
    for st in reversed(o["obs"]["steps"]):
        for f in st["files"]:
            if f["a"]["elems"]:
                del f["a"]["elems"][-1]
                return True


@canary("C16")
def att_panic(o):
    st = o["obs"]["steps"][-1]
    st["st"] = "panic" if st["st"] == "ok" else "ok"
    return True


# ------------------------------------------------------------------------ code
def _shows(o):
    return [(op, st) for op, st in zip(o["case"]["ops"], o["obs"]["steps"]) if op["op"] == "show" and st["st"] == "ok"]


@canary("C11")
def code_newline(o):
    for op, st in reversed(_shows(o)):
        if st["text"]:
            st["text"] += "\n"
            return True


@canary("C11")
def code_percent(o):
    for op, st in _shows(o):
        if "%" in st["text"]:
            st["text"] = st["text"].replace("%", "%%", 1)
            return True


@canary("C11")
def code_formatted(o):
    for op, st in _shows(o):
        if st["ftext"] and len(st["ftext"][0]) > 1:
            st["ftext"][0] = st["ftext"][0][1:]
            return True


@canary("C11")
def code_alias(o):
    for op, st in _shows(o):
        for i in st["imports"]:
            if i["a"] and i["a"] + "." in st["text"]:
                i["a"] += "0"
                return True


# --------------------------------------------------------------------- objects
def _refs(o, k):
    return [r["ref"][0] for r in o["obs"]["refs"] if r["ref"] and r["ref"][0]["k"] == k]


@canary("C17")
def obj_sym(o):
    for r in _refs(o, "sym"):
        r["q"] += "x"
        return True


@canary("C17")
def obj_meth(o):
    for r in _refs(o, "mref"):
        r["name"] = "Other"
        return True


@canary("C17")
def obj_kind(o):
    for r in _refs(o, "mref"):
        r["k"], r["name"], r["m"] = "sym", r["m"], ""
        return True


@canary("C17")
def obj_pkg(o):
    o["obs"]["pkgs"][0]["n"] += "_"
    return True


# ---------------------------------------------------------------- file system
@canary("C19")
def fs_extra(o):
    o["obs"]["steps"][-1]["tree"].append({"path": ["zz.go"], "t": "file", "c": "x", "to": [], "w": True})
    return True


@canary("C19")
def fs_content(o):
    for n in o["obs"]["steps"][0]["tree"]:
        if n["t"] == "file" and n["c"] in o["obs"]["steps"][0]["hashes"] and o["obs"]["steps"][0]["e"] == "":
            n["c"] += "0"
            return True


@canary("C19")
def fs_gone(o):
    s = o["obs"]["steps"][-1]
    for n in s["tree"]:
        if n["t"] == "file" and n["path"][-1] in ("README", ".hidden", "f.go~", "f.go.tmp", "other.go"):
            s["tree"].remove(n)
            return True


@canary("C19")
def fs_noerr(o):
    s = o["obs"]["steps"][-1]
    if s["e"]:
        s["e"] = ""
        return True


@canary("C19")
def fs_err(o):
    s = o["obs"]["steps"][-1]
    if not s["e"] and not any(n["t"] == "full" or not n["w"] for n in s["tree"]):
        s["e"] = "other"
        return True


# --------------------------------------------------------------- template data
def _walk(v):
    """all values in a value"""
    yield v
    for x in v.get("vs", []) if v["k"] == "list" else v.get("v", []) if v["k"] in ("ptr", "iface") else []:
        yield from _walk(x)
    for e in v.get("es", []) if v["k"] == "map" else []:
        yield from _walk(e["key"])
        yield from _walk(e["e"])
    for f in v.get("fs", []) if v["k"] == "struct" else []:
        yield from _walk(f["v"])


def _td(o, part, f):
    for s in o["obs"]["steps"]:
        if s["st"] == "ok":
            for v in _walk(s[part]):
                if f(v):
                    return True


@canary("C13")
def td_qual(o):
    def f(v):
        if v["k"] == "pkg" and v["q"]:
            v["q"] += "x"
            return True
    return _td(o, "after", f)


@canary("C13")
def td_sym(o):
    def f(v):
        if v["k"] in ("sym", "mref") and v["sym"]["q"]:
            v["sym"]["q"] = ""
            return True
    return _td(o, "after", f)


@canary("C13")
def td_type(o):
    def f(v):
        if v["k"] == "ptr":
            v["ty"] += "2"
            return True
    return _td(o, "after", f)


@canary("C13")
def td_orig(o):
    def f(v):
        if v["k"] in ("sym", "mref"):
            v["sym"]["q"] += "y"
            return True
    return _td(o, "orig", f)


@canary("C13")
def td_drop(o):
    def f(v):
        if v["k"] == "map" and v["es"]:
            v["es"].pop()
            return True
    return _td(o, "after", f)


@canary("C13")
def td_nil(o):
    def f(v):
        if v["k"] == "list" and v["nil"]:
            v["nil"] = False
            return True
    return _td(o, "after", f)


@canary("C13")
def td_elem(o):
    def f(v):
        if v["k"] == "elem" and v["att"]:
            v["rest"] += "!"
            return True
    return _td(o, "after", f)


@canary("C13")
def td_specs(o):
    s = o["obs"]["steps"][-1]
    if s["specs"] and not o["obs"]["specs0"]:
        s["specs"].pop()
        return True


@canary("C13")
def td_extra(o):
    o["obs"]["steps"][-1]["specs"].append({"a": "", "p": "never/seen", "toks": []})
    return True


# ------------------------------------------------------------------- growing
def _grown(o):
    return [r["doc"][0] for r in o["obs"]["steps"] if r.get("doc") and r["doc"][0]["st"] == "ok"]


@canary("C20", "C10")
def grow_late(o):
    # a declaration that is shown only later
    for d in _grown(o):
        if d["decls"]:
            d["decls"].pop()
            return True


@canary("C20", "C10")
def grow_stale(o):
    # a later writing shows what the first one did
    seen = {}
    for st, r in zip(o["case"]["steps"], o["obs"]["steps"]):
        if st["a"] == "write" and r.get("doc") and r["doc"][0]["st"] == "ok":
            f = st["f"]
            if f in seen and seen[f]["decls"] != r["doc"][0]["decls"]:
                r["doc"][0]["decls"] = seen[f]["decls"]
                return True
            seen[f] = copy.deepcopy(r["doc"][0])


@canary("C20", "C09")
def grow_missing(o):
    for d in reversed(_grown(o)):
        if d["imports"]:
            d["imports"].pop()
            return True


@canary("C20", "C09")
def grow_extra(o):
    for d in reversed(_grown(o)):
        d["imports"].append({"a": "zz", "p": "zz/zz"})
        return True


@canary("C20", "C08")
def grow_name(o):
    for d in reversed(_grown(o)):
        for x in d["decls"]:
            for i, t in enumerate(x.get("body", ())):
                if t["c"] == "op" and t["s"] == ".":
                    del x["body"][i]
                    return True


@canary("C20", "C12")
def grow_hash(o):
    ws = [(st["f"], r) for st, r in zip(o["case"]["steps"], o["obs"]["steps"]) if st["a"] == "write"]
    last = [(st["f"], r) if st["a"] == "write" else None for st, r in zip(o["case"]["steps"], o["obs"]["steps"])]
    for i in range(1, len(last)):
        if last[i] and last[i - 1] and last[i][0] == last[i - 1][0]:
            last[i][1]["h"] += "0"
            return True


@canary("C20", "C12")
def grow_same(o):
    for st, r in zip(o["case"]["steps"], o["obs"]["steps"]):
        if st["a"] == "write":
            r["same"] = False
            return True


@canary("C20", "C12")
def grow_table(o):
    for st, r in zip(o["case"]["steps"], o["obs"]["steps"]):
        if st["a"] not in ("write", "reg"):
            r["tabs"][0].append({"a": "q", "p": "q/q"})
            return True


@canary("C05", "C16")
def att_kept(o):
    for st in reversed(o["obs"]["steps"]):
        st["kept"].append(1)
        return True


CANARIES = {
    "TraceGrow": [grow_late, grow_stale, grow_missing, grow_extra, grow_name, grow_hash, grow_same, grow_table],
    "TraceTData": [td_qual, td_sym, td_type, td_orig, td_drop, td_nil, td_elem, td_specs, td_extra],
    "TraceFileSys": [fs_extra, fs_content, fs_gone, fs_noerr, fs_err],
    "CheckObjects": [obj_sym, obj_meth, obj_kind, obj_pkg],
    "TraceCode": [code_newline, code_percent, code_formatted, code_alias],
    "TraceAttach": [att_sym, att_unattached, att_str, att_type, att_recv, att_file, att_panic, att_kept],
    "TraceOutput": [io_noclose, io_lost, io_path, io_short, io_garbled, io_ferr, io_early],
    "CheckNames": [name_ex, name_un, name_exp],
    "TraceFile": [file_qual, file_name, file_token, file_extra, file_missing, file_twice, file_drop, file_doc, file_alias,
                  file_hash, file_snap, file_table, file_canon],
    "TraceImports": [imp_unstable, imp_prefix, imp_order, imp_drop, imp_type, imp_after, imp_panic],
    "CheckTypes": [ty_tok, ty_name, ty_acc, ty_acc2, ty_ctor, ty_go, ty_reflect],
}

PLANS = {}


def plan(prop):
    def deco(f):
        PLANS[prop] = f
        return f
    return deco


MUT_PAREN = {"module": "MCTypes", "subst": [("ParenRecvElem = TRUE", "ParenRecvElem = FALSE")], "expect": "violation"}


def imports_plan(tier):
    return {
        "design": [{"module": "MCImports"}],
        "parts": [{"module": "TraceImports",
                   "tlc": [("imports", T(tier, "small", "medium")), ("elements", "small")],
                   "rand": [("imports", T(tier, 4000, 30000), "")],
                   "chunk": 700}],
        "rule": "histories of up to 45 operations on one import table; distinct by construction (TLC-enumerated) or by seed",
    }


PLANS["C01"] = imports_plan
PLANS["C02"] = imports_plan


@plan("C03")
def _(tier):
    return {
        "design": [{"module": "MCTypes", "subst": [('"medium"', T(tier, '"small"', '"medium"'))]}],
        "parts": [{"module": "TraceImports",
                   "tlc": T(tier, [("qual", "small")], [("qual", "medium")]),
                   "rand": [("imports", T(tier, 3000, 25000), "")],
                   "chunk": 700}],
        "rule": "types and signatures qualified at some point of a history of an import table",
    }


@plan("C04")
def _(tier):
    return {
        "design": [{"module": "MCTypes", "subst": [('"medium"', T(tier, '"medium"', '"large"'))]}, MUT_PAREN],
        "parts": [{"module": "CheckTypes", "tlc": [("type", T(tier, "medium", "large"))],
                   "rand": [("type", T(tier, 12000, 100000), "")],
                   "nocanary": ("ty_ctor",)}],
        "rule": "all types of the bounded universe of SmallTypes, plus random ones up to depth 4",
    }


@plan("C05")
def _(tier):
    return {
        "design": [{"module": "MCTypes", "subst": [('"medium"', '"small"')]}],
        "parts": [{"module": "CheckTypes", "tlc": [("type", T(tier, "medium", "large")), ("ctor", "medium")],
                   "rand": [("type", T(tier, 8000, 80000), ""), ("ctor", T(tier, 5000, 50000), ""), ("vars", 1, "")]},
                  {"module": "TraceAttach", "tlc": [("GenAttach", "attach", "small")], "rand": [("attach", T(tier, 1200, 12000), "")]}],
        "rule": "all types of the bounded universe of SmallTypes and all constructor calls over four argument types, plus random ones",
    }


@plan("C06")
def _(tier):
    return {
        "design": [{"module": "MCTypes", "subst": [('"medium"', '"small"')]}],
        "parts": [{"module": "CheckTypes", "tlc": [("gotype", T(tier, "medium", "large"))],
                   "rand": [("gotype", T(tier, 12000, 120000), "")]}],
        "rule": "go/types types built from all types of the bounded universe of SmallTypes, plus random ones with aliases",
    }


@plan("C07")
def _(tier):
    return {
        "design": [{"module": "MCTypes", "subst": [('"medium"', '"small"')]}],
        "parts": [{"module": "CheckTypes", "rand": [("rtype", T(tier, 15000, 150000), "")]}],
        "rule": "reflect types constructed at random over a pool of static named, struct and interface types",
    }


MUT_INPLACE = {"module": "MCFiles", "subst": [("Order = 2", "Order = 2"), ("InPlace = FALSE", "InPlace = TRUE")], "expect": "violation"}


def file_plan(gen, n):
    def f(tier):
        return {
            "design": [{"module": "MCFiles", "subst": [("Order = 2", T(tier, "Order = 2", "Order = 3"))]}, MUT_INPLACE],
            "parts": [{"module": "TraceFile",
                       "tlc": [("GenFile", gen, T(tier, "small", "medium"))],
                       "rand": [("prog", T(tier, n, n * 10), "")],
                       "nocanary": ("file_name", "file_qual", "file_table")},
                      {"module": "TraceGrow", "rand": [("grow", T(tier, 800, 8000), "")]}],
            "rule": "programs of up to four files with all kinds of declarations, code and arguments, and histories of building and writing them",
        }
    return f


PLANS["C08"] = file_plan("progargs", 4000)
PLANS["C09"] = file_plan("progargs", 4000)
PLANS["C10"] = file_plan("progdecls", 3500)
PLANS["C12"] = file_plan("progargs", 4000)


@plan("C20")
def _(tier):
    return {
        "design": [{"module": "MCGrow", "subst": [("Most = 2", T(tier, "Most = 2", "Most = 3"))]},
                   {"module": "MCGrow", "subst": [("Cached = FALSE", "Cached = TRUE")], "expect": "violation"}],
        "parts": [{"module": "TraceGrow", "tlc": [("GenGrow", "grow", T(tier, "small", "medium"))],
                   "rand": [("grow", T(tier, 4000, 40000), "")]}],
        "rule": "histories of building programs of up to four files step by step, with writes at every point",
    }


@plan("C18")
def _(tier):
    return {
        "design": [{"module": "MCNames"},
                   {"module": "MCNames", "subst": [("CheckUpper = TRUE", "CheckUpper = FALSE")], "expect": "violation"}],
        "parts": [{"module": "CheckNames", "tlc": [("names", T(tier, "small", "medium"))],
                   "rand": [("names", T(tier, 600, 6000), "")], "chunk": 100}],
        "rule": "names: every cased character of the Basic and Supplementary planes (thorough: every code point) first, with several tails; random names",
    }


OUTPUT_DESIGN = [{"module": "MCOutput", "subst": []},
                 {"module": "MCOutput", "subst": [("LoseClose = FALSE", "LoseClose = TRUE")], "expect": "violation"},
                 {"module": "MCOutput", "subst": [("KeepGoing = FALSE", "KeepGoing = TRUE")], "expect": "violation"}]


@plan("C14")
def _(tier):
    return {
        "design": OUTPUT_DESIGN + T(tier, [], [{"module": "MCOutput", "subst": [("MaxFiles = 2", "MaxFiles = 3"), ("MaxLen = 2", "MaxLen = 3")]}]),
        "parts": [{"module": "TraceOutput",
                   "tlc": [("io", T(tier, "small", "medium")), ("newfile", "small")],
                   "rand": [("io", T(tier, 4000, 40000), ""), ("newfile", T(tier, 200, 2000), "")]}],
        "rule": "lists of up to five files (some not renderable) with faults injected at every call; names of new files",
    }


@plan("C15")
def _(tier):
    return {
        "design": OUTPUT_DESIGN,
        "parts": [{"module": "TraceOutput", "tlc": [("render", "small")],
                   "rand": [("render", T(tier, 5000, 50000), ""), ("io", T(tier, 500, 5000), "")]},
                  {"module": "TraceFile", "rand": [("prog", T(tier, 2500, 20000), "")]}],
        "rule": "renderings of random files, valid or not, to writers that fail at every point",
    }


@plan("C16")
def _(tier):
    return {
        "design": [{"module": "MCAttach", "subst": [("Steps = 3", T(tier, "Steps = 3", "Steps = 4"))]},
                   {"module": "MCAttach", "subst": [("FirstWins = FALSE", "FirstWins = TRUE")], "expect": "violation"}],
        "parts": [{"module": "TraceAttach", "tlc": [("GenAttach", "attach", T(tier, "small", "medium"))],
                   "rand": [("attach", T(tier, 6000, 40000), "")]}],
        "rule": "histories of creating elements of every kind, putting them in declarations and files, and asking for their references after every step",
    }


@plan("C11")
def _(tier):
    return {
        "design": [{"module": "MCCode", "subst": [("Steps = 3", T(tier, "Steps = 3", "Steps = 4"))]},
                   {"module": "MCCode", "subst": [("ByReference = FALSE", "ByReference = TRUE")], "expect": "violation"}],
        "parts": [{"module": "TraceCode", "tlc": [("GenCode", "code", T(tier, "small", "medium"))],
                   "rand": [("code", T(tier, 6000, 60000), "")]}],
        "rule": "histories of making blocks from pieces and from other blocks; every piece of one or two parts and every formatting of a reference",
    }


@plan("C17")
def _(tier):
    return {
        "design": [{"module": "MCObjects"},
                   {"module": "MCObjects", "subst": [("AliasOwns = FALSE", "AliasOwns = TRUE")], "expect": "violation"}],
        "parts": [{"module": "CheckObjects", "tlc": [("GenObjects", "obj", T(tier, "small", "medium"))],
                   "rand": [("obj", T(tier, 6000, 60000), "")], "chunk": 500}],
        "rule": "all objects and methods of type-checked programs of up to four packages, found in several ways",
    }


@plan("C19")
def _(tier):
    mut = lambda name: {"module": "MCFileSys", "expect": "violation",
                        "subst": [(name + " = TRUE", name + " = FALSE"), ("MaxFiles = 2", "MaxFiles = 1")]}
    return {
        "design": [{"module": "MCFileSys"}, mut("Truncate"), mut("ReportAll"),
                   {"module": "MCFileSys", "subst": [("StopAtError = TRUE", "StopAtError = FALSE")], "expect": "violation"}],
        "parts": [{"module": "TraceFileSys", "tlc": [("GenFileSys", "fs", T(tier, "small", "medium"))],
                   "rand": [("fs", T(tier, 2500, 25000), "")]}],
        "rule": "histories of writing files below a scratch directory, as an unprivileged user: all small trees, and random ones",
    }


@plan("C13")
def _(tier):
    mut = lambda name: {"module": "MCTData", "expect": "violation", "subst": [(name + " = FALSE", name + " = TRUE"), ('"small"', '"tiny"')]}
    return {
        "design": [{"module": "MCTData", "subst": [('"small"', T(tier, '"tiny"', '"small"'))]},
                   mut("InPlace"), mut("SkipKeys"), mut("ForgetSeen")]
                  + T(tier, [], [{"module": "MCTData", "subst": [("Deep = TRUE", "Deep = FALSE")]}]),
        "parts": [{"module": "TraceTData", "tlc": [("GenTData", "tdata", T(tier, "small", "medium"))],
                   "rand": [("tdata", T(tier, 7000, 70000), "")]},
                  {"module": "TraceTData", "tlc": [("GenTData", "tdata", "small")],
                   "rand": [("tdata", T(tier, 3000, 30000), "")],
                   "tags": "purego", "relabel": "purego-"}],
        "rule": "values of template data: all compositions of containers around every kind of reference to a bounded depth, random types and values; also built with the tag purego",
    }
