#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, checks.py, the harnesses and seeded/*/meta.json."""
import glob, json, os, re
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))


def props(src):
    t = open(V + "/harness/" + src).read()
    out = []
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^PROP\((\w+), (\d+), (\d+)\)', t, re.M):
        c = " ".join(l.lstrip("/ ").strip() for l in m[1].splitlines())
        out.append((m[2], m[3], m[4], c))
    return out


def main():
    o = open(V + "/design_head.md").read()
    for pid, k in CHECKS.items():
        o += "\n### %s %s\n\n%s\n\n" % (pid, k["title"], k["statement"])
        o += "* **Generated** (%s): %s.\n" % (", ".join(k["over"]), k["text"].rstrip("."))
        o += "* **Oracle**: %s\n" % k["note"]
        for h in k["harness"]:
            san = {"asan": "ASan+UBSan", "tsan": "ThreadSanitizer", "none": "no sanitizer"}[h.get("san", "asan")]
            o += "* **`harness/%s`** (%s): " % (h["src"], san)
            o += "; ".join("`%s` %s / %s cases%s" % (n, q, t, " (%s)" % c if c else "") for n, q, t, c in props(h["src"])) + ".\n"
        o += "* **Counts as non-trivial**: %s\n" % k["rule"]
        o += "* **Beyond the tests**: %s\n" % k["why"]
        a = [x for x in k.get("assumptions", []) if not x.startswith("the generators reach only")]
        o += "* **Limits**: %s\n" % " ".join([x if x.endswith(".") else x + "." for x in a] + ["Random search over the stated ranges, not exhaustive."])
        if k.get("design"):
            o += "\n%s\n" % k["design"]
    o += open(V + "/design_tail.md").read()
    o += "\n## Planted bugs\n\nRun with the quick tier and VERIF_SEED=1 of the named property's check.\n\n| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        o += "| %s | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught", "yes"))
    open(V + "/DESIGN.md", "w").write(o)


main()
