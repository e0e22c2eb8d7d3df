"""Writes /verif/seeded from the definitions in defs*.py and confirms every entry.

usage: seeds.py write|confirm [-c] [NAME...]
confirm: in a scratch copy: the patch applies, builds, the stable tests pass, the demo
passes without and fails with it; -c: also that the property's check reports it.
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
SEEDED = os.path.join(VERIF, "seeded")
DEFS = {}

DEMO = r'''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp go.mod "$t/demo.mod" && cp go.sum "$t/demo.sum" || exit 2
go mod edit -exclude=docker.io/go-docker@v1.0.0 "$t/demo.mod" || exit 2
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
export TMPDIR="$t"
GOFLAGS="-modfile=$t/demo.mod -mod=readonly" go test -count=1 %(flags)s -overlay "$t/overlay.json" -run 'TestDemo' ./%(pkg)s
'''


def S(id, prop, needs, breaks, edits, pkg, test, flags=""):
    assert id not in DEFS, id
    DEFS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, flags=flags)


def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e)


def write(name, d):
    t = tempfile.mkdtemp(prefix="seedw")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", t)
        for f, old, new in d["edits"]:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) < 1:
                return f"{name}: text not found in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new, 1))
        g = sh("/opt/veriftools/go1.27.3/bin/gofmt -l yaml main.go", t).stdout
        diff = sh("git diff", t).stdout
    finally:
        shutil.rmtree(t)
    out = os.path.join(SEEDED, name)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % d)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo_test.go"), "w").write(d["test"].strip() + "\n")
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return None


BASE = json.load(open("/opt/vp/BASELINE.json"))


def confirm(name, check):
    d = DEFS[name]
    t = tempfile.mkdtemp(prefix="seedc")
    res = []
    try:
        r = os.path.join(t, "repo")
        sh(f"cp -a /repo {r}", t)
        sh("git checkout -q .", r)
        demo = os.path.join(t, "d")
        shutil.copytree(os.path.join(SEEDED, name), demo)
        for x in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, x))
        c = sh(f"bash {demo}/demo.sh", r)
        if c.returncode:
            res.append("demo fails on the unchanged tree: " + c.stdout[-800:])
        a = sh(f"git apply {SEEDED}/{name}/patch.diff", r)
        if a.returncode:
            return [name + ": does not apply: " + a.stdout]
        # lines removed must be original ones
        root = sh("git rev-list --max-parents=0 HEAD", r).stdout.strip()
        orig = set()
        for f in sh("git diff --name-only", r).stdout.split():
            orig |= set(sh(f"git show {root}:{f}", r).stdout.split("\n"))
        removed = [l[1:] for l in open(f"{SEEDED}/{name}/patch.diff") if l.startswith("-") and not l.startswith("---")]
        if not any(l.rstrip("\n") in orig and l.strip() for l in removed):
            res.append("no original line is changed")
        bad = [l for l in removed if l.rstrip("\n") not in orig]
        if bad:
            res.append("changes added lines: " + repr(bad[:2]))
        env = {"GOFLAGS": f"-modfile={t}/x.mod -mod=readonly", "GOTOOLCHAIN": "local", "GOPROXY": "off",
               "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]}
        sh(f"cp go.mod {t}/x.mod; cp go.sum {t}/x.sum; go mod edit -exclude=docker.io/go-docker@v1.0.0 {t}/x.mod", r, env=env)
        v = sh("go build ./... && go vet ./yaml/... 2>&1 | tail -3", r, env=env)
        if sh("go build ./...", r, env=env).returncode:
            res.append("does not build: " + v.stdout[-500:])
        o = sh("go test -json -count=1 ./...", r, env=env)
        passed = set()
        for line in o.stdout.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("Action") == "pass" and j.get("Test"):
                passed.add(j["Package"] + "/" + j["Test"])
        names = BASE if isinstance(BASE, list) else BASE.get("stable") or BASE.get("passing") or BASE.get("tests") or []
        miss = [n for n in names if n not in passed]
        if miss or not names:
            res.append("tests fail: " + ", ".join(miss[:4]) + ("" if names else "no baseline names"))
        c = sh(f"bash {demo}/demo.sh", r)
        if c.returncode == 0:
            res.append("demo passes with the patch")
        elif "build failed" in c.stdout or "setup failed" in c.stdout:
            res.append("demo does not build with the patch: " + c.stdout[-500:])
        if check:
            ev = dict(VERIF_REPO=r, VERIF_DIR=os.path.join(t, "v"))
            os.makedirs(os.path.join(t, "v", "checker"))
            shutil.copytree(os.path.join(VERIF, "checker", "spec"), os.path.join(t, "v", "checker", "spec"))
            for f in ("known_findings.txt",):
                if os.path.exists(os.path.join(VERIF, f)):
                    shutil.copy(os.path.join(VERIF, f), os.path.join(t, "v", f))
            props = re.findall(r'"property_id": "([^"]+)"|"id": "([^"]+)"', open(os.path.join(VERIF, "MANIFEST.json")).read())
            k = sh(f"{VERIF}/bin/vchk {d['prop']} quick", r, env=ev)
            if f"VIOLATION property={d['prop']}" not in k.stdout:
                res.append("MISSED by its check: " + k.stdout[-200:])
    finally:
        shutil.rmtree(t)
    return [f"{name}: {x}" for x in res] or [f"{name}: ok"]


def main():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "defs*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"S": S})
    args = sys.argv[1:]
    cmd = args.pop(0)
    check = "-c" in args
    names = [a for a in args if a != "-c"] or list(DEFS)
    if cmd == "write":
        for n in names:
            e = write(n, DEFS[n])
            if e:
                print(e)
        return
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda n: confirm(n, check), names):
            for l in r:
                print(l)


main()
