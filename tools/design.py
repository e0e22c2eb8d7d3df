#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design, the tables, the rules and the planted bugs."""
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from table import PROPS, NA
src = "".join(open(f).read() for f in sorted(glob.glob(root + "/checker/props_*.go")))
corpus = lambda n, c: sum(1 for l in open(f"{root}/tools/corpus/{n}.py") if l.startswith(c + "("))
out = open(here + "/design/head.md").read() % dict(mutants=corpus("mutants", "M"), refactors=corpus("refactors", "R"))
out += "\n## The properties\n\nFor each: what is decided, and the files it is anchored in. \"Bound\" is given only where there is one.\n"
muts = {}
for l in open(f"{root}/tools/corpus/mutants.py"):
    m = re.match(r'M\("([^"]+)", "([A-Z]\d+)"', l)
    if m:
        muts.setdefault(m[2], []).append(m[1])
bounds = json.load(open(here + "/design/bounds.json"))
for p in PROPS:
    ev = {}
    f = f"{root}/tools/design/rules.json"
    rule = json.load(open(f)).get(p["id"], {})
    out += f"\n### {p['id']} — {p['title']}\n\n{p['statement']}\n\n"
    out += f"*Quantifies over* {p['forall']}. *Tests:* {p['why']}\n\n"
    out += f"*Decided by* {p['technique']}. Rule: {rule.get('rule', '')}. "
    out += f"At least {rule.get('min', '?')} obligations ({rule.get('obs', '?')} on the current tree, {rule.get('fns', '?')} functions, {rule.get('wall', '?')} s). "
    if p["id"] in bounds:
        out += f"Bound: {bounds[p['id']]}. "
    out += f"Anchored in {', '.join(p['files'][:6])}.\n"
    if muts.get(p["id"]):
        out += f"\nBreaking edits it reports: {', '.join(muts[p['id']])}.\n"
na = "\n".join(f"* **{p['id']} {p['title']}** — {p['reason']}" for p in NA) or "None."
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(here + "/design/caught.json"))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {res.get(n, 'not run')} |")
out += "\n" + open(here + "/design/tail.md").read() % dict(na=na, seeds="\n".join(rows))
open(root + "/DESIGN.md", "w").write(out)
print(len(out), "characters")
