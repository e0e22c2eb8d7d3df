#!/usr/bin/env python3
"""Applies textual edits to scratch copies of /repo and runs the checks on them.

usage: run.py mutants|refactors [-t] [-a] [-c IDS] [NAME...]
-a tries every check on a mutant, not only that of its property; -t also runs the repository's tests on the edited copy.
A mutant must be reported by the check of its property, a refactoring by none.
"""
import os, subprocess, sys, shutil, concurrent.futures, importlib, tempfile, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)

def sh(cmd, cwd=None, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return 99, "TIMEOUT"
    return p.returncode, p.stdout

def ids():
    return [l.split()[0] for l in sh([os.environ.get("VCHK", root + "/bin/vchk"), "list"])[1].splitlines() if l.strip()]

def goenv(d, mod):
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e["PATH"]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="-modfile=%s -mod=readonly" % mod)
    return e

def one(case, checks, tests):
    name, prop, edits = case
    d = tempfile.mkdtemp(prefix="corpus-")
    repo = d + "/repo"
    out = []
    try:
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read() if os.path.exists(p) else ""
            if old == "":
                s = s + new
            else:
                if s.count(old) != 1:
                    return name, prop, None, ["EDIT DOES NOT APPLY (%d): %s: %r" % (s.count(old), f, old[:60])]
                s = s.replace(old, new)
            open(p, "w").write(s)
        mod = d + "/m.mod"
        shutil.copy(repo + "/go.mod", mod); shutil.copy(repo + "/go.sum", d + "/m.sum")
        e = goenv(repo, mod)
        sh(["go", "mod", "edit", "-exclude=docker.io/go-docker@v1.0.0", mod], env=e)
        rc, o = sh(["go", "build", "./..."], cwd=repo, env=e)
        rc2, o2 = sh(["go", "build", "-tags", "oss", "./..."], cwd=repo, env=e)
        if rc or rc2:
            return name, prop, None, ["DOES NOT BUILD: " + (o + o2)[:600]]
        if tests:
            rc, o = sh(["go", "test", "-vet=off", "./..."], cwd=repo, env=e)
            bad = [l for l in o.splitlines() if l.strip().startswith("--- FAIL")]
            base = ("TestConvert", )
            bad = [l for l in bad if l.split()[2] not in BASE]
            if bad:
                out.append("TESTS FAIL: " + "; ".join(bad)[:300])
        env = dict(os.environ, VERIF_REPO=repo, VERIF_DIR=d + "/v")
        os.makedirs(d + "/v/checker")
        os.symlink(root + "/checker/spec", d + "/v/checker/spec")
        if os.path.exists(root + "/known_findings.txt"): shutil.copy(root + "/known_findings.txt", d + "/v/")
        hit = []
        if kind == "mutants" and not ALL:
            checks = [prop]
        if kind == "refactors":
            # the slow checks only where the code they look at is edited
            fs = [e[0] for e in edits]
            if not any(f.startswith("yaml/pretty/") or f.count("/") == 1 for f in fs):
                checks = [c for c in checks if c not in ("Y02", "Y03", "Y04", "R04")]
            if not any("compiler" in f or f.count("/") == 1 for f in fs):
                checks = [c for c in checks if c != "R03"]
        env["GOMAXPROCS"] = "2"
        runs = [checks] if len(checks) < 3 else [x for x in [[c for c in checks if c not in SLOW][i::4] for i in range(4)] if x] + [[c] for c in checks if c in SLOW]
        for cs in runs:
            _, o = sh([os.environ.get("VCHK", root + "/bin/vchk"), "many"] + cs, cwd=root, env=env)
            part = []
            seen = set()
            for l in o.splitlines():
                if not l.startswith("## "):
                    part.append(l)
                    continue
                _, c, rc = l.split()
                seen.add(c)
                if rc != "0":
                    hit.append(c)
                    ls = [l for l in part if l.strip() and not l.startswith(("VIOLATION", "KNOWN-FINDING"))]
                    out.append("  %s(%s): %s" % (c, rc, (ls or part or ["?"])[0][:260]))
                part = []
            for c in cs:
                if c not in seen:
                    hit.append(c)
                    out.append("  %s(-): no answer: %s" % (c, " ".join(part)[-260:]))
        return name, prop, hit, out
    finally:
        shutil.rmtree(d, ignore_errors=True)

BASE = set()
SLOW = ("Y02", "R04", "R03", "Y04")
ALL = False
kind = ""
def main():
    a = sys.argv[1:]
    global kind, ALL
    kind = a.pop(0)
    ALL = "-a" in a
    a = [x for x in a if x != "-a"]
    tests = "-t" in a
    a = [x for x in a if x != "-t"]
    checks = ids()
    if "-c" in a:
        i = a.index("-c"); checks = a[i+1].split(","); del a[i:i+2]
    v = "-v" in a
    a = [x for x in a if x != "-v"]
    cases = importlib.import_module(kind).CASES
    if a:
        cases = [c for c in cases if any(re.search(x, c[0]) for x in a)]
    if tests:
        # tests that fail without any edit
        r = one(("base", "", []), [], True)
        for l in r[3]:
            for m in re.finditer(r"--- FAIL: (\S+)", l):
                BASE.add(m.group(1))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, prop, hit, out in ex.map(lambda c: one(c, checks, tests), cases):
            if hit is None:
                st = "BROKEN"; bad += 1
            elif kind == "mutants":
                st = "ok" if prop in hit else "MISSED"
            else:
                st = "ALARM" if hit else "ok"
            if any("TESTS FAIL" in l for l in out): st += "+TESTS"
            if st != "ok": bad += 1
            print("%-12s %-34s %-5s %s" % (st, name, prop, ",".join(hit or [])))
            if st != "ok" or v:
                for l in out[:6]: print("     " + l)
            sys.stdout.flush()
    print(len(cases), "cases,", bad, "to look at")
main()
