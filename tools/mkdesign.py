"""Writes DESIGN.md: the hand-written parts, and one section per property from properties.jsonl, props.py and the evidence."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(R, f)).read()
L = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
out = [rd("tools/design_head.md").rstrip(), "", "# The properties", ""]
tot = [0, 0]
for q in L:
    i = q["id"]
    if i in props.NA: continue
    c = props.PROPS[i]
    e = json.loads(rd("evidence/%s.json" % i))
    cov = e["coverage"]
    fns = cov["functions_under_contract"]
    tot[0] += cov["discharged"]; tot[1] += len(fns)
    out += ["## %s. %s" % (i, q["title"]), "", "*Specified and proved.* " + c["note"][0].upper() + c["note"][1:] + ".", ""]
    byf = {}
    for f in fns:
        k = (f["file"], f["context"]); nm = f["fn"] + (" [%s]" % f["instance"] if f.get("instance") else "")
        l = byf.setdefault(k, [])
        if nm not in l: l.append(nm)
    out += ["*Under contract* (units %s; %d extracted functions, %d obligations discharged):" % (", ".join("`%s`" % u for u in c["units"]), len(fns), cov["discharged"]), ""]
    grouped = {}
    for (f, x), l in byf.items(): grouped.setdefault(f, []).append((x, l))
    for f, xs in grouped.items():
        if sum(len(l) for _, l in xs) > 60:
            out += ["- `%s`: %d functions and instances in %d impls, for %s" % (f, sum(len(l) for _, l in xs), len(xs), ", ".join("`%s`" % x for x in sorted({n.split(" [")[0] for _, l in xs for n in l})))]
        else:
            out += ["- `%s`: %s" % (f, "; ".join(("`%s`: " % x.strip() if x.strip() else "") + ", ".join(l) for x, l in xs))]
    out += [""]
    if c.get("assume"): out += ["*Assumed.* " + "; ".join(c["assume"]) + ".", ""]
    if c.get("trust"): out += ["*Trusted contracts.* " + "; ".join(c["trust"]) + ".", ""]
    if c.get("bounded"): out += ["*Bounded stand-in* (`replay/src/bin/%s.rs`, not counted as proved): %s. Bound: %s." % (i.lower(), "; ".join(c["bounded"]), c.get("bound", "random inputs")), ""]
    else: out += ["*Falsifier* `replay/src/bin/%s.rs` replays failed obligations; no function of the property rests on it." % i.lower(), ""]
tail = rd("tools/design_tail.md")
fx = []
for l in rd("known_findings.txt").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append("| %s | `%s` | %s |" % m.groups())
sd = []
how = json.loads(rd("tools/seed_results.json"))
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    sd.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], how.get(d, "not caught")))
tail = tail.replace("@FIXES@", "\n".join(fx)).replace("@SEEDS@", "\n".join(sd))
out += ["In all: %d function entries under contract (a function instantiated at several types counts once per instance; units shared by properties count in each), %d obligations discharged on the last run." % (tot[1], tot[0]), "", tail.rstrip(), ""]
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines", tot)
