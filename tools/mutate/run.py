#!/usr/bin/env python3
"""Runs the checks of each file against all small changes (see main.go) of the file.

  run.py OUT.jsonl WORKERS [--every N[:R,...]] FILE...

Works in scratch copies of /repo and mc. Each change ends up as invalid (doesn't compile), caught (by
a check), tests (the repository's own tests fail, no check says a thing), or survived."""
import json, os, shutil, subprocess, sys, tempfile, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
Q = ["C37", "C35", "C31", "C30", "C34", "C33", "C32", "C29", "C36"]
CHECKS = {
    "tpl/scanner.go": ["C01", "C03", "C05", "C04", "C02"], "tpl/token.go": ["C06", "C01", "C12"],
    "tpl/grammar.go": ["C05", "C10", "C09", "C11", "C14", "C08", "C07", "C15"], "tpl/compiler.go": ["C14", "C15", "C12", "C13"],
    "tpl/match.go": ["C15", "C11", "C05", "C07", "C01"], "tpl/interpreter/interpreter.go": ["C15", "C19", "C17", "C26", "C18", "C20"],
    "tpl/interpreter.util/call.go": ["C19", "C17", "C37", "C20"], "tpl/number/number.go": ["C23", "C20", "C19"],
    "tpl/cmplx/cmplx.go": ["C23", "C21", "C19"], "tpl/rat/big.go": ["C23", "C22", "C19"], "tpl/extractor/document.go": ["C26", "C25", "C24"],
    "tpl/extractor/extractor.go": ["C26", "C25", "C24"], "tpl/generator/static_parser_gen.go": ["C27"],
    "tpl/cmd/tplgen/main.go": ["C28"], "tpl/cmd/tplconv/tplconv.go": ["C39"], "tpl/qlang/cl/interpreter/interpret.go": ["C38"],
    "tpl/qlang/cl/class.go": ["C35", "C33", "C37", "C31"], "tpl/qlang/cl/ctrl.go": ["C30", "C31", "C33", "C32", "C29"],
    "tpl/qlang/cl/function.go": ["C31", "C33", "C37", "C35", "C32", "C30", "C36"], "tpl/qlang/cl/qlang.go": Q,
    "tpl/qlang/engine.go": ["C37", "C36"], "tpl/qlang/spec/spec.go": ["C37", "C36", "C29"],
}
PRE = {}


def checks(f):
    if f in CHECKS:
        return CHECKS[f]
    if f.startswith("tpl/qlang/lib"):
        return ["C34", "C37", "C29"]
    return None


def main():
    out, workers = sys.argv[1], int(sys.argv[2])
    files = sys.argv[3:]
    every, rests = 1, {0}
    if files[0] == "--every": # N or N:R1,R2,...: the changes with these remainders
        n, _, r = files[1].partition(":")
        every = int(n)
        rests = {int(x) for x in r.split(",")} if r else rests
        files = files[2:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l)
            done.add((j["File"], j["From"], j["To"], j["New"]))
    r = subprocess.run(["/tmp/mutate"] + files, cwd="/repo", text=True, capture_output=True, check=True)
    by = {}
    for l in r.stdout.splitlines():
        j = json.loads(l)
        by.setdefault(j["File"], []).append(j)
    todo = []
    for f, l in by.items():
        for i, j in enumerate(l):
            if i % every in rests and (f, j["From"], j["To"], j["New"]) not in done:
                todo.append(((i + 0.0) / len(l), j))
    todo.sort(key=lambda t: t[0])
    q = queue.Queue()
    for _, j in todo:
        q.put(j)
    print(len(todo), "changes", flush=True)
    lock = threading.Lock()
    o = open(out, "a")

    def work(w):
        d = tempfile.mkdtemp(prefix="mutr-", dir="/tmp")
        v = tempfile.mkdtemp(prefix="mutv-", dir="/tmp")
        try:
            subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True)
            for e in ("mc", "env.sh", "run.sh", "known_findings.json"):
                src = os.path.join(ROOT, e)
                (shutil.copytree if os.path.isdir(src) else shutil.copy2)(src, os.path.join(v, e))
            m = open(v + "/mc/go.mod").read()
            open(v + "/mc/go.mod", "w").write(m.replace("=> /repo", "=> " + d))
            m = open(v + "/mc/main.go").read()
            assert "hangCPU    = 60.0" in m
            open(v + "/mc/main.go", "w").write(m.replace("hangCPU    = 60.0", "hangCPU    = 15.0").replace("n := int64(8)", "n := int64(2)"))
            env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOMAXPROCS=os.environ.get("MUT_PROCS", "2"),
                       PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], MC_REPO=d, VERIF_TIER="quick", VERIF_SEED="1")
            while True:
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    return
                p = os.path.join(d, j["File"])
                src = open("/repo/" + j["File"], "rb").read()
                open(p, "wb").write(src[:j["From"]] + j["New"].encode() + src[j["To"]:])
                t0 = time.time()
                pkg = "./" + os.path.dirname(j["File"])
                res, by, note = "survived", "", ""
                b = subprocess.run(["go", "vet", "-printf=false", pkg] if False else ["go", "build", "-o", "/dev/null", pkg], cwd=d, env=env, capture_output=True, text=True)
                if b.returncode != 0:
                    res = "invalid"
                else:
                    try:
                        t = subprocess.run("go test -vet=off ./tpl/... 2>&1 | grep -v 'no test files'", shell=True, cwd=d, env=env, capture_output=True, text=True, timeout=60)
                        if "FAIL" in t.stdout:
                            res = "tests"
                    except subprocess.TimeoutExpired:
                        res = "tests"
                    for c in checks(j["File"]) if res != "tests" else []:
                        try:
                            r = subprocess.run(["timeout", "-k", "2", "300", "bash", v + "/run.sh", c], cwd=v, env=env, capture_output=True, text=True, errors="replace")
                        except Exception as e:
                            note = str(e)
                            continue
                        if r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout:
                            res, by = "caught", c
                            break
                        if r.returncode != 0:
                            note += "%s?%d %s " % (c, r.returncode, (r.stdout + r.stderr)[-200:])
                open(p, "wb").write(src)
                with lock:
                    j.update(Res=res, By=by, Note=note, S=round(time.time() - t0, 1))
                    o.write(json.dumps(j) + "\n")
                    o.flush()
                    if res in ("survived",) or note:
                        print(res, by, j["File"], j["Line"], j["Func"], "|", j["What"].replace("\n", " ")[:120], "|", note[:200].replace("\n", " "), flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(v)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    n = {}
    for l in open(out):
        j = json.loads(l)
        n[j["Res"]] = n.get(j["Res"], 0) + 1
    print(n)


main()
