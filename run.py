#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]        check one property
   run.py --replay FILE                    re-execute and re-judge one case

The driver (driver/, Go) executes cases against /repo and logs observations;
TLC judges them against the specification (spec/).  This script only moves
files around: it contains no expectation about gopoet's behaviour.

Exit 0: held on everything explored.  1: violation.  2: the machinery failed.
"""
import concurrent.futures, copy, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plans import PLANS, CANARIES, LEVEL_NOTE_ASSUMPTIONS  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = min(8, os.cpu_count() or 4)


NOBODY = 65534
UNPRIVILEGED = {"fs"}  # kinds of cases whose driver must not be root


class Broken(Exception):
    """the machinery failed"""


def die2(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        os.chmod(self.tmp, 0o755)
        self.nobody = False  # run the driver as an unprivileged user
        self.spec = os.path.join(self.tmp, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.states = self.transitions = 0
        self.design, self.judged, self.case_counts = [], 0, {}
        self.samples, self.rejects = [], []
        self.canaries = 0
        self.seq = 0
        self.lock = threading.Lock()
        self.hangs = 0
        self.binaries = {}

    # ------------------------------------------------------------- driver
    def binary(self, tags=""):
        if tags in self.binaries:
            return self.binaries[tags]
        src = os.path.join(self.tmp, "driver")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "driver"), src)
        out = os.path.join(self.tmp, "driver" + ("-" + tags if tags else ""), ) + ".bin"
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
        cmd = ["go", "build", "-o", out] + (["-tags", tags] if tags else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise Broken("the driver does not build against /repo:\n" + p.stdout + p.stderr)
        os.chmod(out, 0o755)
        self.binaries[tags] = out
        return out

    def path(self, suffix):
        with self.lock:
            self.seq += 1
            return os.path.join(self.tmp, "f%04d-%s" % (self.seq, suffix))

    def gen_random(self, kind, n, prof, seed):
        p = subprocess.run([self.binary(), "gen", kind, str(seed), str(n)] + ([prof] if prof else []),
                           capture_output=True, timeout=300)
        if p.returncode != 0:
            raise Broken("generator %s failed: %s" % (kind, p.stderr.decode()[-2000:]))
        return [l for l in p.stdout.decode().split("\n") if l]

    def execute(self, lines, tags="", solo=False, limit="20s"):
        """run cases (json lines) through the driver; returns observations"""
        if not lines:
            return []
        shards = 1 if solo or len(lines) < 200 else JOBS
        if shards > 1:
            with concurrent.futures.ThreadPoolExecutor(shards) as ex:
                parts = list(ex.map(lambda i: self._execute(lines[i::shards], tags, limit), range(shards)))
            byid = {}
            for p in parts:
                for o in p:
                    byid[o["id"]] = o
            return [byid[json.loads(l)["id"]] for l in lines if json.loads(l)["id"] in byid]
        return self._execute(lines, tags, limit)

    def _execute(self, lines, tags, limit):
        obs, rest, crashes = [], list(lines), 0
        while rest:
            cp, op, pp = self.path("cases"), self.path("obs"), self.path("prog")
            home = self.path("home")
            os.mkdir(home)
            as_user = {}
            if self.nobody:
                # cases that write below a scratch directory: nothing outside of it is theirs
                op, pp = os.path.join(home, "obs"), os.path.join(home, "prog")
                as_user = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
            with open(cp, "w", encoding="utf-8") as f:
                f.write("\n".join(rest) + "\n")
            open(op, "w").close()
            if self.nobody:
                for f in (home, op):
                    os.chown(f, NOBODY, NOBODY)
            env = {"PATH": os.environ.get("PATH", ""), "HOME": home, "TMPDIR": home, "DRIVER_CASE_LIMIT": limit,
                   "DRIVER_SCRATCH": home, "GOTRACEBACK": "single"}
            p = subprocess.run([self.binary(tags), "run", cp, op, pp], cwd=home, env=env, capture_output=True, timeout=800, **as_user)
            with open(op, encoding="utf-8") as f:
                got = [json.loads(l) for l in f.read().split("\n") if l.strip()]
            if p.returncode not in (0, 3, 4):
                with open(pp) as f:
                    cur = f.read().strip()
            shutil.rmtree(home, ignore_errors=True)
            obs += got
            if p.returncode == 0:
                break
            err = p.stderr.decode(errors="replace")
            if p.returncode == 3:
                raise Broken("driver: " + err[-2000:])
            done = len(got)
            if p.returncode != 4:
                # a fatal error, which cannot be recovered: attribute it to the case in progress
                if done >= len(rest) or json.loads(rest[done])["id"] != cur:
                    raise Broken("driver died outside a case (rc %d): %s" % (p.returncode, err[-2000:]))
                c = json.loads(rest[done])
                obs.append({"id": c["id"], "kind": c["kind"], "case": c, "st": "fatal", "msg": err.strip()[:300]})
                done += 1
            elif got and got[-1]["st"] == "hang" and limit != "60s":
                last = got[-1]
                with self.lock:
                    sure = self.hangs >= 3
                if not sure:
                    again = self._execute([json.dumps(last["case"])], tags, "60s")
                    obs[-1] = again[0]
                    if again[0]["st"] == "hang":
                        with self.lock:
                            self.hangs += 1
            crashes += 1
            rest = rest[done:]
            if crashes > 15 or self.hangs >= 3:
                break
        return obs

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, workers=2, timeout=800, heap="3g"):
        cfg = self.path("m.cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        md = self.path("md")
        e = dict(os.environ, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", CP,
               "tlc2.TLC", "-metadir", md, "-fp", "0", "-workers", str(workers), "-config", cfg, module + ".tla"]
        p = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        out = p.stdout.decode(errors="replace")
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            with self.lock:
                self.transitions += int(m.group(1).replace(",", ""))
                self.states += int(m.group(2).replace(",", ""))
        return p.returncode, out, p.stderr.decode(errors="replace")

    def cfg(self, name, subst=()):
        with open(os.path.join(self.spec, name + ".cfg")) as f:
            t = f.read()
        for a, b in subst:
            if a not in t:
                raise Broken("cfg %s has no %r" % (name, a))
            t = t.replace(a, b)
        return t

    def check_design(self, d):
        module, subst, expect = d["module"], d.get("subst", ()), d.get("expect", "ok")
        rc, out, err = self.tlc(module, self.cfg(d.get("cfg", module), subst), workers=d.get("workers", 4), heap=d.get("heap", "6g"))
        bad = "is violated" in out or "Temporal properties were violated" in out
        ok = "No error has been found" in out
        if expect == "ok" and not ok or expect == "violation" and not bad:
            raise Broken("the specification itself: %s %s, expected %s:\n%s" % (module, subst, expect, out[-3000:] + err[-500:]))
        m = re.search(r"(\d[\d,]*) distinct states found", out)
        self.design.append({"module": module, "subst": [list(s) for s in subst], "expected": expect,
                            "distinct_states": int(m.group(1).replace(",", "")) if m else 0})

    def gen_tlc(self, module, what, size):
        out = self.path("gen")
        rc, o, e = self.tlc(module, self.cfg(module), env={"WHAT": what, "SIZE": size, "OUT": out}, workers=1, heap="6g")
        if rc != 0 or not os.path.exists(out):
            raise Broken("generation of %s/%s by TLC failed:\n%s" % (what, size, o[-1200:]))
        with open(out, encoding="utf-8") as f:
            return [l for l in f.read().split("\n") if l]

    def judge(self, module, obs):
        """returns {id: [tags]} of rejected observations"""
        rejects = {}
        items = list(obs)
        while True:
            op = self.path("judge")
            with open(op, "w", encoding="utf-8") as f:
                for o in items:
                    o = {k: v for k, v in o.items() if k != "msg"}
                    f.write(json.dumps(o, ensure_ascii=False) + "\n")
            if not items:
                return rejects
            rc, out, err = self.tlc(module, self.cfg(module), env={"OBS": op}, workers=2)
            os.unlink(op)
            for m in re.finditer(r'^"@REJECT (.*)"$', out, re.M):
                r = json.loads(json.loads('"' + m.group(1) + '"'))
                rejects.setdefault(r["id"], set()).update(r["tags"])
            if "No error has been found" in out:
                return rejects
            m = re.search(r"is violated", out)
            c = re.findall(r"^(?:/\\ )?cas = (\d+)", out, re.M)
            if not c:
                raise Broken("TLC failed on %s:\n%s" % (module, out[-4000:] + err[-1000:]))
            # the specification cannot even make sense of this observation (or an
            # invariant of the design does not hold in the recorded behaviour)
            i = int(c[-1]) - 1
            tag = "invariant" if m else "nonsense"
            rejects.setdefault(items[i]["id"], set()).add("*/" + tag)
            if os.environ.get("VERIF_DEBUG"):
                print(out[-3000:])
            if len(rejects) > 60:
                return rejects
            del items[i]

    # --------------------------------------------------------------- plan
    def part(self, part):
        module = part["module"]
        lines = []
        for spec in part.get("tlc", ()):
            gmod, what, size = (("Gen",) + tuple(spec))[-3:]
            lines += self.gen_tlc(gmod, what, size)
        for kind, n, prof in part.get("rand", ()):
            lines += self.gen_random(kind, n, prof, self.seed)
        for name in part.get("corpus", ()):
            with open(os.path.join(VERIF, "cases", name), encoding="utf-8") as f:
                lines += [l for l in f.read().split("\n") if l.strip()]
        self.nobody = all(json.loads(l)["kind"] in UNPRIVILEGED for l in lines)
        obs = self.execute(lines, part.get("tags", ""))
        if part.get("relabel"):
            for o in obs:
                o["id"] = part["relabel"] + o["id"]
        for o in obs:
            self.case_counts[o["kind"]] = self.case_counts.get(o["kind"], 0) + 1
        rng = random.Random(self.seed)
        if obs:
            for o in rng.sample(obs, min(2, len(obs))):
                s = json.dumps(o, ensure_ascii=False)
                self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        # canaries: corrupted observations that must be rejected
        canaries = []
        for fn in CANARIES.get(module, ()):
            want = getattr(fn, "props", None)
            if want and self.prop not in want:
                continue
            cands = [o for o in obs if o["st"] == "ok"]
            rng.shuffle(cands)
            found = 0
            for o in cands[:4000]:
                c = copy.deepcopy(o)
                try:
                    if fn(c) is not True or c == o:
                        continue
                except (KeyError, IndexError, TypeError, ValueError, StopIteration):
                    continue
                c["id"] = "canary:%s:%d:%s" % (fn.__name__, found, o["id"])
                canaries.append(c)
                found += 1
                if found == 2:
                    break
            if not found and fn.__name__ not in part.get("nocanary", ()):
                if all(o["st"] == "ok" for o in obs) and len(obs) > 100:
                    # (an error, unless what was observed is a violation)
                    self.missed = getattr(self, "missed", []) + [fn.__name__ + " (no observation to make it from)"]
        for c in canaries:
            obs.append(c)
        # judge in chunks, in parallel
        size = part.get("chunk", 1500)
        # (never more than TLC's queue of states holds in memory, 8192: it spoils
        # strings that are not ASCII when it writes states to disk)
        chunk_n = max(1, min(4 * JOBS, -(-len(obs) // size)), -(-len(obs) // 5000))
        if len(obs) > 400:
            chunk_n = max(chunk_n, 4)
        chunks = [obs[i::chunk_n] for i in range(chunk_n)]
        rejects = {}
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for r in ex.map(lambda ch: self.judge(module, ch), chunks):
                rejects.update(r)
        hit = {c["id"].split(":")[1] for c in canaries if self.mine(rejects.get(c["id"], ()))}
        missed = sorted({c["id"].split(":")[1] for c in canaries} - hit)
        self.missed = getattr(self, "missed", []) + missed
        self.canaries += len(canaries)
        self.judged += len(obs) - len(canaries)
        byid = {o["id"]: o for o in obs}
        for i, tags in rejects.items():
            if i.startswith("canary:"):
                continue
            mine = self.mine(tags)
            if mine:
                self.rejects.append((i, sorted(mine), byid[i], module, part.get("tags", "")))

    def mine(self, tags):
        return {t for t in tags if t.split("/")[0] in (self.prop, "*")}


def known_findings():
    ret = []
    p = os.path.join(VERIF, "KNOWN-FINDINGS")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l.strip())
            if m:
                ret.append(m.groups())
    return ret


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in PLANS:
        die2("no plan for " + prop)
    plan = PLANS[prop](tier)
    r = Run(prop, tier, seed)
    try:
        r.binary()
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            designs = [ex.submit(r.check_design, d) for d in plan.get("design", ())]
            for part in plan["parts"]:
                r.part(part)
            for d in designs:
                d.result()
        rc = report(r, plan)
    except Broken as e:
        print("ERROR:", e, flush=True)
        rc = 2
        if r.rejects:
            rc = report(r, plan) or 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    sys.exit(rc)


def report(r, plan):
    known = {(p, c): w for p, c, w in known_findings()}
    violations, seen_known = [], []
    for i, tags, o, module, btags in r.rejects:
        if (r.prop, i) in known:
            seen_known.append(i)
            print("KNOWN-FINDING: property=%s %s" % (r.prop, known[(r.prop, i)]), flush=True)
        else:
            violations.append((i, tags, o, module, btags))
    ev = {
        "property": r.prop, "tier": r.tier, "seed": r.seed, "level": plan.get("level", "model_checking"),
        "coverage": {
            "states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.judged,
            "cases_by_kind": r.case_counts, "design_models": r.design, "canaries_rejected": r.canaries - len(r.missed),
            "samples": r.samples[:6],
            "rule": plan.get("rule", ""),
        },
        "assumptions": LEVEL_NOTE_ASSUMPTIONS,
        "wall_s": round(time.time() - r.t0, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1, ensure_ascii=False)
    while len(s.encode()) > 60000 and ev["coverage"]["samples"]:
        ev["coverage"]["samples"].pop()
        s = json.dumps(ev, indent=1, ensure_ascii=False)
    with open(os.path.join(VERIF, "evidence", r.prop + ".json"), "w", encoding="utf-8") as f:
        f.write(s + "\n")
    print("%s %s: %d states, %d observations judged, %d canaries, %d rejected, %.1f s"
          % (r.prop, r.tier, r.states, r.judged, r.canaries, len(violations), time.time() - r.t0), flush=True)
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        violations.sort(key=lambda v: len(json.dumps(v[2])))
        for i, tags, o, module, btags in violations[:5]:
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (r.prop, re.sub(r"[^\w.-]", "_", i)))
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": r.prop, "tags": tags, "module": module, "build_tags": btags, "observation": o}, f,
                          indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s clauses=%s" % (r.prop, path, ",".join(tags)), flush=True)
        return 1
    if r.missed:
        print("ERROR: canaries not rejected: %s" % r.missed[:5])
        return 2
    return 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    r = Run(d["property"], "replay", 1)
    try:
        r.nobody = d["observation"]["kind"] in UNPRIVILEGED
        obs = r.execute([json.dumps(d["observation"]["case"])], d.get("build_tags", ""))
        print(json.dumps(obs[0], indent=1, ensure_ascii=False))
        rej = r.judge(d["module"], obs)
        tags = r.mine(rej.get(obs[0]["id"], ()))
        if tags:
            print("VIOLATION property=%s replay=%s clauses=%s" % (d["property"], path, ",".join(sorted(tags))))
            sys.exit(1)
        print("accepted")
        sys.exit(0)
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
