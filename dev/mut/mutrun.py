#!/usr/bin/env python3
"""Small changes of gopoet that its tests accept: which does no check notice?

  mutrun.py prepare            cases of all quick checks, and what the unchanged tree does
  mutrun.py run [FILE[:LO-HI]] ...
Results: /tmp/mut/results.jsonl
"""
import re, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, random
sys.path.insert(0, "/verif")
import plans, run
W = "/tmp/mut"
REPO = W + "/repo"  # a copy: /repo may be changed meanwhile
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
FILES = ["code", "imports", "model", "names", "templates", "templates_unsafe", "types"]
CAP = int(os.environ.get("CAP", "1500"))


def parts():
    """(module, tags) -> list of case lines"""
    out = {}
    for prop in sorted(plans.PLANS):
        c = run.Run(prop, "quick", 1)
        for part in plans.PLANS[prop]("quick")["parts"]:
            key = (part["module"], part.get("tags", ""))
            cur = out.setdefault(key, {})
            for spec in part.get("tlc", ()):
                gm, what, size = (("Gen",) + tuple(spec))[-3:]
                k = ("tlc", gm, what, size)
                if k not in cur:
                    ls = c.gen_tlc(gm, what, size)
                    random.Random(1).shuffle(ls)
                    cur[k] = ls[:CAP]
            for kind, n, prof in part.get("rand", ()):
                k = ("rand", kind, prof)
                if k not in cur:
                    cur[k] = c.gen_random(kind, n, prof, 1)[:CAP]
            for name in part.get("corpus", ()):
                cur[("corpus", name)] = [l for l in open("/verif/cases/" + name) if l.strip()]
    return out


def execute(binary, cases, scratch, nobody=False):
    """observations by id; a crash loses the rest of the shard"""
    obs = {}
    rest = cases
    for _ in range(4):
        home = tempfile.mkdtemp(dir=scratch)
        cp, op, pp = home + "/c", home + "/o", home + "/p"
        open(cp, "w").write("\n".join(rest) + "\n")
        open(op, "w").close()
        u = {}
        if nobody:
            for f in (home, op):
                os.chown(f, 65534, 65534)
            u = {"user": 65534, "group": 65534, "extra_groups": []}
        env = {"PATH": os.environ["PATH"], "HOME": home, "TMPDIR": home, "DRIVER_CASE_LIMIT": "10s", "DRIVER_SCRATCH": home, "GOTRACEBACK": "single", "GOMAXPROCS": "2"}
        try:
            p = subprocess.run([binary, "run", cp, op, pp], cwd=home, env=env, capture_output=True, timeout=300, **u)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        got = [json.loads(l) for l in open(op) if l.strip().endswith("}")]
        subprocess.run(["chmod", "-R", "u+rwx", home])
        shutil.rmtree(home, ignore_errors=True)
        for o in got:
            obs[o["id"]] = o
        if rc == 0:
            break
        n = len(got)
        if n < len(rest) and rc != 4:
            c = json.loads(rest[n])
            obs[c["id"]] = {"id": c["id"], "kind": c["kind"], "case": c, "st": "fatal", "msg": "rc %d" % rc}
            n += 1
        rest = rest[n:]
        if not rest:
            break
    return obs


def h(o):
    o = {k: v for k, v in o.items() if k not in ("case", "msg")}
    t = json.dumps(o, sort_keys=True)
    for n, x in enumerate(dict.fromkeys(re.findall(r'"(?:snap0|snap)": "([0-9a-f]{16})"', t))):
        t = t.replace(x, "snap%d" % n)  # (they depend on addresses)
    t = re.sub(r'"#[0-9]+"', '"#"', t)
    return hashlib.md5(t.encode()).hexdigest()


def build(out, tags, overlay=None):
    cmd = ["go", "build", "-ldflags", "-s -w", "-o", out] + (["-overlay", overlay] if overlay else []) + (["-tags", tags] if tags else []) + ["."]
    return subprocess.run(cmd, cwd=W + "/driver", env=ENV, capture_output=True, text=True)


def prepare():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    os.chmod(W, 0o755)
    shutil.copytree("/verif/driver", W + "/driver")
    shutil.copytree("/repo", REPO)
    g = open(W + "/driver/go.mod").read()
    open(W + "/driver/go.mod", "w").write(g.replace("=> /repo", "=> " + REPO))
    ps = parts()
    index = []
    for n, ((module, tags), cur) in enumerate(sorted(ps.items())):
        cases = [l for ls in cur.values() for l in ls]
        b = W + "/base%d" % n
        assert build(b, tags).returncode == 0
        os.chmod(b, 0o755)
        nobody = module == "TraceFileSys"
        base = {i: h(o) for i, o in execute(b, cases, W, nobody).items()}
        unstable = set()
        for _ in range(4):
            unstable |= {i for i, o in execute(b, cases, W, nobody).items() if base.get(i) != h(o)}
        cases = [c for c in cases if json.loads(c)["id"] not in set(unstable)]
        json.dump({"module": module, "tags": tags, "cases": cases, "base": base}, open(W + "/part%d.json" % n, "w"))
        index.append((module, tags, len(cases), len(unstable)))
        print(module, tags, len(cases), "unstable", len(unstable), flush=True)
    os.makedirs(W + "/tmp")
    os.chmod(W + "/tmp", 0o755)


def judge(module, obs, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    o = d + "/o.nd"
    with open(o, "w") as f:
        for x in obs:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    shutil.copy("/verif/spec/%s.cfg" % module, d)
    p = subprocess.run(["java", "-Xss64m", "-Xmx2g", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", run.CP, "tlc2.TLC", "-metadir", d + "/md", "-fp", "0",
                        "-workers", "1", "-config", d + "/%s.cfg" % module, module + ".tla"], cwd="/verif/spec", env=dict(os.environ, OBS=o), capture_output=True, text=True, timeout=600)
    tags = set()
    for l in p.stdout.split("\n"):
        if "@REJECT" in l:
            tags |= set(json.loads(json.loads(l)[8:])["tags"])
    bad = "" if "Finished in" in p.stdout and "Error:" not in p.stdout else p.stdout[-500:]
    shutil.rmtree(d, ignore_errors=True)
    return tags, bad


def one(m, data):
    name, n, line, what = m
    d = tempfile.mkdtemp(dir=W + "/tmp")
    os.chmod(d, 0o755)
    try:
        r = {"file": os.path.basename(name), "n": n, "line": line, "what": what}
        mf = d + "/mutant.go"
        p = subprocess.run([W + "/mutate", "make", name, str(n), mf], capture_output=True, text=True)
        if p.returncode:
            return dict(r, res="invalid")
        ov = d + "/ov.json"
        json.dump({"Replace": {name: mf}}, open(ov, "w"))
        p = subprocess.run(["go", "build", "-overlay", ov, "."], cwd=REPO, env=ENV, capture_output=True, text=True)
        if p.returncode:
            return dict(r, res="build")
        try:
            p = subprocess.run(["go", "test", "-vet=off", "-overlay", ov, "-timeout", "30s", "."], cwd=REPO, env=ENV, capture_output=True, text=True)
        except subprocess.TimeoutExpired:
            return dict(r, res="tests")
        if p.returncode:
            return dict(r, res="tests")
        bins, diffs = {}, 0
        for stage in (0, 1):
            for part in data:
                if part["tags"] not in bins:
                    b = d + "/drv" + part["tags"]
                    q = build(b, part["tags"], ov)
                    if q.returncode:
                        return dict(r, res="driver", msg=q.stderr[-300:])
                    os.chmod(b, 0o755)
                    bins[part["tags"]] = b
                if stage == 0 and part["tags"]:
                    continue
                cases = part["some"] if stage == 0 else part["cases"]
                got = execute(bins[part["tags"]], cases, d, part["module"] == "TraceFileSys")
                diff = [o for i, o in got.items() if part["base"].get(i) != h(o)]
                diffs += len(diff)
                for some in ([diff[:30], diff[:400]] if stage else [diff[:30]]):
                    if some:
                        tags, bad = judge(part["module"], some, d)
                        if tags or bad:
                            return dict(r, res="caught", tags=sorted(tags), bad=bad, module=part["module"], stage=stage)
        return dict(r, res="SURVIVED" if diffs == 0 else "ACCEPTED", diffs=diffs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    subprocess.run(["go", "build", "-o", W + "/mutate", "/verif/dev/mut/mutate.go"], check=True, env=ENV)
    fs = [REPO + "/%s.go" % f for f in FILES]
    ms = [l.split("\t") for l in subprocess.run([W + "/mutate", "list"] + fs, capture_output=True, text=True, check=True).stdout.strip().split("\n")]
    want = sys.argv[2:]
    done = set()
    rp = W + "/results.jsonl"
    if os.path.exists(rp):
        done = {(x["file"], x["n"]) for x in map(json.loads, open(rp))}
    todo = [m for m in ms if (not want or os.path.basename(m[0])[:-3] in want) and (os.path.basename(m[0]), m[1]) not in done]
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(todo)
    todo = todo[:int(os.environ.get("N", "100000"))]
    data = []
    n = 0
    while os.path.exists(W + "/part%d.json" % n):
        data.append(json.load(open(W + "/part%d.json" % n)))
        n += 1
    only = os.environ.get("MODULES")
    if only:
        data = [d for d in data if d["module"] in only.split(",")]
    order = ["TraceFile", "CheckTypes", "TraceImports", "TraceTData", "TraceAttach", "TraceCode", "CheckObjects", "TraceOutput", "TraceGrow", "CheckNames", "TraceFileSys"]
    data.sort(key=lambda d: (d["tags"], order.index(d["module"])))
    for d in data:
        d["some"] = random.Random(3).sample(d["cases"], min(len(d["cases"]), 250))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex, open(rp, "a") as out:
        for r in ex.map(lambda m: one(m, data), todo):
            out.write(json.dumps(r) + "\n")
            out.flush()


if __name__ == "__main__":
    prepare() if sys.argv[1] == "prepare" else main()
