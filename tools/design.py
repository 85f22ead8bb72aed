"""Writes DESIGN.md (see its first section)."""
import importlib, json, os, re, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, x) for x in ("tools", "props", "dv")]
import meta

fill = lambda s: "\n".join(textwrap.wrap(s, 130, break_long_words=False))
out = [open(os.path.join(V, "tools/design_head.md")).read()]
seeds = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((d, m))
for p in meta.PROPS:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in meta.CLAIM:
        out.append(fill("Not claimed: " + meta.NA.get(i, meta.NOT_YET)) + "\n")
        continue
    m = importlib.import_module(i.lower())
    out.append(fill("*Statement.* " + p["statement"]) + "\n")
    out.append(fill("*Decided by.* " + meta.CLAIM[i].replace(meta.REAL, "")) + "\n")
    jobs = m.jobs(False)
    names = sorted({j.name for j in jobs})
    out.append(fill("*Contracts.* `props/%s.py` over `cxx/{%s}`; %d proof jobs in quick (%s)." % (i.lower(), ", ".join(sorted({u["cpp"] for u in m.UNITS.values()})), len(jobs), ", ".join(names[:14]) + (", ..." if len(names) > 14 else ""))) + "\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Assumed.*\n" + "\n".join("* " + a for a in m.ASSUMPTIONS) + "\n")
    if getattr(m, "BOUNDED", None):
        out.append(fill("*Bounded only (replay harness `replay/%s.cpp`).* %s" % (i.lower(), m.BOUNDED)) + "\n")
    if i in seeds:
        out.append(fill("*Planted bugs, caught by `%s`:* " % i + "; ".join(d for d, _ in seeds[i])) + "\n")
out.append("## 5. Genuine defects found\n")
out.append("Repaired ones are `fix:` commits in /repo (the check reports the violation again if it returns); recorded ones are printed\nas KNOWN-FINDING.\n")
for l in open(os.path.join(V, "known_findings.txt")):
    g = re.match(r"(fixed|known): property=(\S+) (\S+) (.*)", l)
    if g:
        out.append("* %s, %s (%s): %s" % (g.group(2), "repaired" if g.group(1) == "fixed" else "recorded", g.group(3), g.group(4)))
out.append("\nC15's recorded finding is not repaired because `CascadedForm` has no state for a section that holds a gain only; C02's is in the\ninstalled xsimd, not in /repo.\n")
out.append("## 6. Planted bugs\n\nEach was written from the property, compiles, passes the 589 tests, and its demonstration fails with it. All are caught by the check of\ntheir property.\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|")
for i in sorted(seeds):
    for d, m in seeds[i]:
        out.append("| %s | %s | %s | %s |" % (d, i, m.get("what_it_breaks", "").replace("|", "/"), m.get("needs", "").replace("|", "/")))
out.append("\n" + open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
