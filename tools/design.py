"""Writes DESIGN.md: python3 tools/design.py (run in /verif).  Hand-written prose lives here; the
per-property lists of rules come from the rule modules, the tables from KNOWN_FINDINGS.txt and seeded/."""
import importlib
import inspect
import json
import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from sa.run import registry  # noqa
from tools.manifest import NA, PENDING, TECH  # noqa

HEAD = open("tools/design_head.md").read()
TAIL = open("tools/design_tail.md").read()
ORACLE = {}
for block in open("tools/design_oracles.md").read().split("\n## ")[1:]:
    k, _, v = block.partition("\n")
    ORACLE[k.strip()] = " ".join(v.split())


def oneline(s):
    return " ".join((s or "").split())


def main():
    reg = registry()
    out = [HEAD.rstrip(), "", "## 3. Properties, one by one", ""]
    for l in open("properties.jsonl"):
        p = json.loads(l)
        i = p["id"]
        out += [f"### {i} — {p['title']}", ""]
        if i in NA:
            out += [f"Not applicable: {NA[i]}.", ""]
            continue
        if i not in reg:
            out += [f"Not claimed: {PENDING}.", ""]
            continue
        fn = reg[i]
        doc = oneline(fn.__doc__)
        if doc.startswith(i + ":"):
            doc = doc[len(i) + 1:].strip()
        if doc and doc != "Rules over paths.":
            out += [f"*Decided by.* {doc[0].upper() + doc[1:]}", ""]
        m = inspect.getmodule(fn)
        try:
            src = inspect.getsource(fn)
        except OSError:
            src = ""
        import re
        subs = re.findall(r"\b(check_\w+)\b", src.split(":", 1)[-1])
        lst = []
        for s in dict.fromkeys(subs):
            g = getattr(m, s, None)
            if callable(g) and g is not fn and g.__doc__:
                lst.append(f"- {oneline(g.__doc__)}")
        if lst:
            out += lst + [""]
        if i in ORACLE:
            out += [f"*Oracle and bounds.* {ORACLE[i]}", ""]
        why = oneline(p["why_tests_cant"])
        out += [f"*Beyond the tests.* {why}", ""]
    out += [TAIL.split("<!-- FIXED -->")[0].rstrip(), ""]
    for l in open("KNOWN_FINDINGS.txt"):
        if l.startswith(("fixed:", "finding:")):
            kind, prop, rest = l.strip().split(None, 2)
            out.append(f"- `{prop.split('=')[1]}` {rest}" if kind == "fixed:" else f"- OPEN `{prop.split('=')[1]}` {rest}")
    mid = TAIL.split("<!-- FIXED -->")[1]
    out += [mid.split("<!-- SEEDS -->")[0].rstrip(), "", "| planted change | property | caught by | what it needs |", "|---|---|---|---|"]
    for d in sorted(os.listdir("seeded")):
        f = f"seeded/{d}/meta.json"
        if os.path.exists(f) and os.system(f"git ls-files --error-unmatch {f} >/dev/null 2>&1") == 0:
            j = json.load(open(f))
            out.append(f"| {d} | {j['property']} | {j['property']} | {oneline(j['needs'])} |")
    out += ["", mid.split("<!-- SEEDS -->")[1].strip(), ""]
    with open("DESIGN.md", "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
