#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its fixed parts (design/*.md), properties.jsonl, the rules in
evidence/*.json, known-findings.txt and seeded/*/meta.json plus seeded/catches.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda p: open(os.path.join(here, p)).read()
props = [json.loads(l) for l in r("properties.jsonl").splitlines() if l.strip()]
rules, assume = {}, {}
for p in props: # as last written by the checks
    e = json.load(open(os.path.join(here, "evidence", p["id"] + ".json")))
    rules[p["id"]], assume[p["id"]] = e["coverage"]["rule"], e["assumptions"]
meth = {}
cur = None
for l in r("tools/design/properties.md").splitlines():
    m = re.match(r'## (C\d+)', l)
    if m: cur = m.group(1); meth[cur] = []
    elif cur: meth[cur].append(l)
out = [r("tools/design/head.md").rstrip(), "", "## The properties, one by one", ""]
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", f"*Explored and compared.* {rules[i]}", ""]
    if assume[i]:
        out += ["*Assumed.* " + " ".join(a.rstrip(".") + "." for a in assume[i]), ""]
    out += ["\n".join(meth[i]).strip(), ""]
out += [r("tools/design/tail.md").rstrip(), ""]
out += ["## Known findings (not repaired)", ""]
fixed = []
for l in r("known-findings.txt").splitlines():
    if l.startswith("{"):
        k = json.loads(l)
        if not k.get("fixed"): out.append(f"* {k['property']}: {k['what']}.")
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.append(m.groups())
out += ["", "## Defects found and repaired", "", "Each is one `fix:` commit in /repo (the first column is the property whose check reports it again if it returns).", ""]
by = {}
for p, h, w in fixed: by.setdefault((h, w), []).append(p)
for (h, w), ps in by.items(): out.append(f"* {', '.join(ps)} `{h[:9]}`: {w}")
out += ["", "## Planted bugs", "", "Each was validated in a scratch copy: it compiles, the stable tests pass, its demonstration fails with it and passes without it. \"Caught by\" names the quick checks that report it.", "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
catch = json.load(open(os.path.join(here, "seeded/catches.json"))) if os.path.exists(os.path.join(here, "seeded/catches.json")) else {}
for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append(f"| {n} | {m['property']} | {m['needs']}: {m['what_it_breaks']} | {catch.get(n, '')} |")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
