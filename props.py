#!/usr/bin/env python3
# Single source of properties.jsonl and MANIFEST.json:  python3 props.py
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
P = []; NA = {}
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
def na(id, reason): NA[id] = reason
exec(open(V + "/props_data.py").read())
ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
P.sort(key=lambda x: x["id"])
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
def bounds(pid):
    b = []
    for f in sorted(os.listdir(V + "/harness")):
        if re.fullmatch(pid + r"[a-z_0-9]*\.cpp", f):
            for l in open(f"{V}/harness/{f}"):
                g = re.match(r"//\s*(BOUNDS|OUTSIDE|STUBS):\s*(.*)", l)
                if g: b.append({"BOUNDS": "Bounds: ", "OUTSIDE": "Outside: ", "STUBS": "Stubs: "}[g.group(1)] + g.group(2).strip())
    return " ".join(b)
checks = []
for x in P:
    i = x["id"]
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}", "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the compiled LLVM IR of the real headers; assertions decided by Z3 over exact reals / bit-vectors; counterexamples replayed natively", "level": "model_checking",
        "level_note": "Every path within the bounds is explored and every assertion on it is decided for all values of the symbolic inputs (doubles treated as exact reals unless the harness states FP mode). Trusts clang's IR, the instrumentation pass and runtime, and Z3; paths, cases or obligations that time out are reported as undecided in the evidence, never as held. " + bounds(i)})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
     "notes": "No hooks: the headers in /repo/mml are compiled unmodified by an LLVM pass in /verif/engine. See DESIGN.md."}
assert all(k in ids for k in NA)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for x in P: jsonschema.validate(x, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError: pass
# DESIGN.md: per-property table and planted changes
def hdr(pid, k):
    return " ".join(g.group(1).strip() for f in sorted(os.listdir(V + "/harness")) if re.fullmatch(pid + r"[a-z_0-9]*\.cpp", f) for l in open(f"{V}/harness/{f}") for g in [re.match(r"//\s*" + k + r":\s*(.*)", l)] if g)
D = open(V + "/DESIGN.md").read().split("<!-- generated by props.py -->")[0] + "<!-- generated by props.py -->\n\n## Properties, bounds, and what lies outside\n\n"
for x in P:
    D += f"### {x['id']} {x['title']}\n\n"
    if x["id"] in NA: D += f"Not applicable: {NA[x['id']]}\n\n"; continue
    D += "Code: " + "; ".join(f"{m['name']} ({m['where']})" for m in x["anchors"]["mechanism"]) + ".\n"
    for k, n in (("BOUNDS", "Bounds"), ("STUBS", "Stand-ins"), ("OUTSIDE", "Outside")):
        if hdr(x["id"], k): D += f"{n}: {hdr(x['id'], k)}.\n"
    D += "\n"
S = []
if os.path.isdir(V + "/seeded"):
    for i in sorted(os.listdir(V + "/seeded")):
        j = json.load(open(f"{V}/seeded/{i}/meta.json")); S.append((j["property"], i, j["needs"], j["what_it_breaks"]))
    D += "## Planted changes\n\nEach builds, passes the stable tests, fails its own demonstration, and is caught by the check of the property named (exit 1 and that property's VIOLATION line).\n\n| property | change | what it breaks | needs |\n|---|---|---|---|\n" + "".join(f"| {a} | {b} | {d} | {c} |\n" for a, b, c, d in sorted(S))
    open(V + "/DESIGN.md", "w").write(D)
print(len(P), "properties", len(checks), "checks")
