#!/usr/bin/env python3
"""Planted bugs.

  seed.py make [ID...]          writes seeded/ID/ from tools/seeds/*.py after confirming each in a
                                scratch copy of /repo: it applies, builds, the tests pass, the demo
                                succeeds without the change and fails with it
  seed.py check [ID...] [--checks C01,C02|all]  runs checks (default: the bug's own property)
                                against a scratch copy of /repo with the bug
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
SEEDS = {}


def seed(id, prop, file, edits, what, needs, demo, imports="", **kw):
    """edits: list of (old, new) in file, or of (file, old, new)"""
    if kw.get("skip"):
        return
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, file=file, edits=edits, what=what, needs=needs, demo=demo, imports=imports, **kw)


def load():
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})


DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for this input; otherwise it is broken
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
command -v go >/dev/null || PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t="$(mktemp -d /tmp/demo-XXXXXX)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/m" "$t/w"
cp "$d/main.go.txt" "$t/m/main.go"
printf 'module demo\\n\\ngo 1.12\\n\\nrequire github.com/qiniu/text v0.0.0\\n\\nreplace github.com/qiniu/text => %s\\n' "$repo" > "$t/m/go.mod"
cd "$t/m" && go build -o "$t/demo" . || exit 2
cd "$t/w" && DEMO_REPO="$repo" DEMO_DIR="$t/w" timeout 60 "$t/demo"
'''


def gomain(s):
    body = s["demo"]
    if "func main()" not in body:
        body = "func main() {\n" + body + "\n}\n"
    std = {"fmt": "fmt", "os": "os", "strings": "strings", "reflect": "reflect", "math": "math", "sync": "sync",
           "token": "go/token", "exec": "os/exec", "filepath": "path/filepath", "big": "math/big", "errors": "errors", "time": "time", "runtime": "runtime"}
    t = "github.com/qiniu/text/tpl"
    own = {"tpl": t, "interpreter": t + "/interpreter", "iutil": t + "/interpreter.util", "number": t + "/number",
           "cmplx": t + "/cmplx", "rat": t + "/rat", "extractor": t + "/extractor", "generator": t + "/generator",
           "qlang": t + "/qlang", "qcl": t + "/qlang/cl", "qspec": t + "/qlang/spec", "builtin": t + "/qlang/lib/builtin", "qip": t + "/qlang/cl/interpreter"}
    helpers = '''
func must(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(append([]interface{}{"BROKEN:"}, a...)...)
		os.Exit(1)
	}
}
'''
    if "try(" in body:
        helpers += '''
func try(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}
'''
    allsrc = body + helpers
    imps = []
    for k, v in list(std.items()) + list(own.items()):
        if re.search(r"(?<![\w.\"])%s\." % k, allsrc):
            imps.append("\t%s%s" % (k + " " if k in ("iutil", "qcl", "qspec", "qip") else "", json.dumps(v)))
    if "qlang." in body and "builtin." not in body:
        imps.append('\t_ "%s/qlang/lib/builtin"' % t)
    src = "package main\n\nimport (\n" + "\n".join(imps) + "\n)\n" + s["imports"] + "\n" + helpers + "\n" + body
    return src


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), env=ENV, text=True, capture_output=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call("git -C %s archive HEAD | tar -x -C %s" % (REPO, d), shell=True)
    return d


def apply(s, d):
    for e in s["edits"]:
        f, old, new = e if len(e) == 3 else (s["file"],) + e
        p = os.path.join(d, f)
        src = open(p).read()
        assert src.count(old) == 1, "%s: %d times in %s: %r" % (s["id"], src.count(old), f, old)
        open(p, "w").write(src.replace(old, new))


def patch(d):
    subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=d)


def make(ids):
    bad = 0
    for id in ids:
        s = SEEDS[id]
        d = scratch()
        out = os.path.join(ROOT, "seeded", id)
        try:
            patch(d)
            tmp = tempfile.mkdtemp(prefix="seedout-", dir="/tmp")
            open(tmp + "/main.go.txt", "w").write(gomain(s))
            open(tmp + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(tmp + "/demo.sh", 0o755)
            r0 = sh(["bash", tmp + "/demo.sh"], cwd=d)
            apply(s, d)
            b = sh("go build ./...", cwd=d)
            r1 = sh(["bash", tmp + "/demo.sh"], cwd=d)
            t = sh("go test -vet=off ./... 2>&1 | grep -v 'no test files'", cwd=d)
            diff = sh("git diff", cwd=d).stdout
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(tmp + "/meta.json", "w"), indent=1)
            open(tmp + "/patch.diff", "w").write(diff)
            msg = []
            if r0.returncode != 0:
                msg.append("demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-600:])
            if b.returncode != 0:
                msg.append("doesn't build: " + b.stderr[-600:])
            if r1.returncode == 0 or r1.returncode == 2 and "panic" not in r1.stderr:
                msg.append("demo passes with the change (or doesn't build): %d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-600:]))
            if re.search(r"^(FAIL|---)", t.stdout, re.M):
                msg.append("tests fail: " + t.stdout[-600:])
            if msg:
                bad += 1
                print("REJECTED", id, "\n  ".join(msg), flush=True)
            else:
                if os.path.isdir(out):
                    shutil.rmtree(out)
                shutil.copytree(tmp, out)
                print("ok", id, s["prop"], "|", (r1.stdout + r1.stderr).strip().replace("\n", " ")[:150], flush=True)
            shutil.rmtree(tmp)
        finally:
            shutil.rmtree(d)
    return bad


RES = os.path.join(ROOT, "tools/seed_results.json")


def save(id, caught):
    r = json.load(open(RES)) if os.path.exists(RES) else {}
    r[id] = sorted(set(caught))
    json.dump(r, open(RES, "w"), indent=1, sort_keys=True)


def table():
    """rewrites the table of planted bugs in DESIGN.md"""
    r = json.load(open(RES))
    missed = json.load(open(os.path.join(ROOT, "tools/seed_missed.json")))
    out = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for id in sorted(SEEDS, key=lambda i: (SEEDS[i]["prop"], i)):
        s = SEEDS[id]
        by = ", ".join(r.get(id, [])) or "none"
        if id in missed:
            by += " (missed at first: " + missed[id] + ")"
        out.append("| %s | %s | %s | %s |" % (id, s["prop"], s["what"].replace("|", "\\|"), by))
    p = os.path.join(ROOT, "DESIGN.md")
    t = open(p).read()
    a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
    i, j = t.index(a) + len(a), t.index(b)
    open(p, "w").write(t[:i] + "\n".join(out) + "\n" + t[j:])


def check(ids, checks, tier):
    for id in ids:
        s = SEEDS[id]
        d = scratch()
        v = tempfile.mkdtemp(prefix="seedv-", dir="/tmp")
        try:
            for e in ("mc", "env.sh", "run.sh", "known_findings.json"):
                src = os.path.join(ROOT, e)
                (shutil.copytree if os.path.isdir(src) else shutil.copy2)(src, os.path.join(v, e))
            m = open(v + "/mc/go.mod").read()
            open(v + "/mc/go.mod", "w").write(m.replace("=> /repo", "=> " + d))
            assert d in open(v + "/mc/go.mod").read()
            sh("git init -q . && git apply " + os.path.join(ROOT, "seeded", id, "patch.diff"), cwd=d)
            res = []
            for c in checks or [s["prop"]]:
                ENV["MC_REPO"] = d
                r = sh(["bash", v + "/run.sh", c], cwd=v)
                hit = "VIOLATION property=%s " % c in r.stdout
                if r.returncode == 1 and hit:
                    res.append(c)
                elif r.returncode != 0:
                    res.append(c + "?%d" % r.returncode + r.stdout[-300:] + r.stderr[-300:])
            save(id, [r for r in res if "?" not in r])
            print(("caught" if s["prop"] in res else "MISSED"), id, s["prop"], "by", ",".join(res) or "-", flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(v)


if __name__ == "__main__":
    load()
    args = sys.argv[2:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1]
        del args[i:i + 2]
        checks = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")] if checks == "all" else checks.split(",")
    ids = args or sorted(SEEDS)
    if sys.argv[1] == "make":
        sys.exit(1 if make(ids) else 0)
    elif sys.argv[1] == "table":
        table()
    elif sys.argv[1] == "check":
        check(ids, checks, "quick")
