"""Development aid: revert each repair commit listed in KNOWN_FINDINGS.txt in a scratch copy and check
that the property's check reports it again.  python3 tools/reverts.py [PROPERTY...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = []
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed:\s+property=(\S+)\s+(\w+)", l)
    if m and (len(sys.argv) < 2 or m[1] in sys.argv[1:]):
        todo.append(m.groups())


def one(x):
    pid, c = x
    d = tempfile.mkdtemp(prefix="rv")
    try:
        os.makedirs(d + "/hypothesis-python")
        shutil.copytree("/repo/hypothesis-python/src", d + "/hypothesis-python/src", ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        diff = subprocess.run(["git", "-C", "/repo", "diff", c, c + "~1", "--", "hypothesis-python/src"], capture_output=True).stdout
        r = subprocess.run(["patch", "-p1", "-d", d], input=diff, capture_output=True)
        if r.returncode:
            return pid, c, "PATCH " + r.stdout.decode()[-200:]
        r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=V, capture_output=True, text=True, env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": d + "/ev"})
        return pid, c, f"rc={r.returncode} " + r.stdout[:240].replace("\n", " | ")
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, todo):
        print(*r)
