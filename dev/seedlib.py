"""seed(id, prop, file, old, new, test, needs, breaks): make a change to a copy of
/repo, confirm it (builds, stable tests pass, the demonstration fails with it
and passes without), and keep it in /verif/seeded/<id>.  Development only: no
check uses this."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
DEMO = '''#!/bin/bash
# cwd: the repository.  Runs demo_test.go, which lies beside this script, as one of its tests.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/zz_planted_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
TMPDIR="$t" go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestPlanted$' .
'''
HEAD = "package gopoet_test\n\nimport (\n%s)\n\n"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def seed(id, prop, edits, imports, body, needs, breaks, only=None):
    if only and id not in only:
        return
    d = os.path.join(VERIF, "seeded", id)
    wt = tempfile.mkdtemp(prefix="seedwt-")
    try:
        shutil.rmtree(wt); shutil.copytree("/repo", wt, symlinks=True)
        tmp = wt + "-s"; os.makedirs(tmp, exist_ok=True)
        imps = "".join('\t%s\n' % (i if " " in i else '"%s"' % i) for i in ["testing"] + imports) + '\n\t"github.com/jhump/gopoet"\n'
        body = HEAD % imps + body.strip().replace("    ", "\t") + "\n"
        open(tmp + "/demo_test.go", "w").write(body)
        open(tmp + "/demo.sh", "w").write(DEMO); os.chmod(tmp + "/demo.sh", 0o755)
        base = sh(["bash", tmp + "/demo.sh"], wt)
        if base.returncode != 0:
            print(id, "DEMO FAILS ON BASE\n", (base.stdout + base.stderr)[-1500:]); return
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                print(id, "edit matches", s.count(old), "times:", old[:60]); return
            open(p, "w").write(s.replace(old, new))
        for c in (["go", "build", "./..."], ["go", "build", "-tags", "purego", "./..."]):
            r = sh(c, wt)
            if r.returncode: print(id, "NO BUILD", r.stderr[-800:]); return
        r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], wt)
        fails = [json.loads(l)["Test"] for l in r.stdout.split("\n") if '"Action":"fail"' in l and '"Test"' in l]
        if fails or r.returncode: print(id, "TESTS FAIL", fails, r.stdout[-300:] if not fails else ""); return
        r = sh(["bash", tmp + "/demo.sh"], wt)
        if r.returncode == 0: print(id, "DEMO PASSES WITH THE CHANGE"); return
        if "demo_test.go" not in r.stdout and "panic" not in r.stdout: print(id, "odd demo failure", r.stdout[-600:], r.stderr[-500:]); return
        diff = sh(["git", "diff"], wt).stdout
        if sh(["git", "status", "--short"], wt).stdout.count("\n") != len({e[0] for e in edits}): print(id, "odd status")
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo_test.go"): shutil.copy(tmp + "/" + f, d)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1); open(d + "/meta.json", "a").write("\n")
        print(id, "kept")
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(wt + "-s", ignore_errors=True)
