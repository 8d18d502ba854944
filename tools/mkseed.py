"""Development aid: write seeded/<id>/{patch.diff,meta.json,demo.sh,demo.py}.
usage: mkseed.py SPEC.py, where SPEC defines id, property, needs, breaks, demo and edits = [(file, old, new)]."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
REPO = "/repo"
d = f"/verif/seeded/{ns['id']}"
os.makedirs(d, exist_ok=True)
out = ""
for f in dict.fromkeys(e[0] for e in ns["edits"]):
    rel = f if "/" in f and f.startswith("hypothesis-python") else "hypothesis-python/src/hypothesis/" + f
    s = t = open(f"{REPO}/{rel}").read()
    for g, old, new in ns["edits"]:
        if g == f:
            assert t.count(old) == 1, (f, t.count(old), old)
            t = t.replace(old, new)
    tmp = tempfile.mkdtemp()
    for n, x in (("a", s), ("b", t)):
        p = f"{tmp}/{n}/{rel}"
        os.makedirs(os.path.dirname(p)); open(p, "w").write(x)
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{rel}", f"b/{rel}"], cwd=tmp, capture_output=True, text=True)
    out += r.stdout.replace("diff --git a/", "diff --git a/").replace("--- a/", "--- a/")
    shutil.rmtree(tmp)
open(d + "/patch.diff", "w").write(out)
json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.py", "w").write(ns["demo"].lstrip())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero with the patch
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/hypothesis-python/src" PYTHONDONTWRITEBYTECODE=1
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" && exec_py=/opt/venv/bin/python && timeout 200 "$exec_py" "$here/demo.py"
''')
os.chmod(d + "/demo.sh", 0o755)
r = subprocess.run(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
print(ns["id"], "ok" if r.returncode == 0 else r.stderr)
