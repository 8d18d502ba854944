"""python3 -m sa.run <PROPERTY> : decide one property on the current source."""
from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import absint
from .lib import VERIF, AnalysisError, Report
from .project import Project

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                if len(parts) >= 3 and parts[1] == f"property={pid}" and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def baseline():
    p = os.path.join(VERIF, "sa", "baseline_functions.txt")
    if os.path.exists(p):
        absint.set_baseline(x.strip() for x in open(p) if x.strip())


REG = None


def registry():
    global REG
    if REG is None:
        REG = {}
        d = os.path.join(os.path.dirname(__file__), "rules")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and not f.startswith("_"):
                m = importlib.import_module(f"sa.rules.{f[:-3]}")
                for pid, fn in getattr(m, "CHECKS", {}).items():
                    REG[pid] = fn
    return REG


class OutOfTime(BaseException):
    pass


def evaluate(pid, project, tier, rep=None):
    rep = rep or Report(pid, project, tier)
    rep.part(registry()[pid], reraise=True)
    for rule, n in rep.minima:
        have = rep.count(rule)
        if have < n:
            raise AnalysisError(f"rule {rule}: {have} instances analysed, {n} confirmed by hand on the pinned tree")
    if not rep.obl:
        raise AnalysisError("no obligations generated")
    return rep


def alarm(*_):
    raise OutOfTime


def main(argv):
    """exit 1 when an obligation fails, 0 when all that were explored hold. When a part of the source
    has been restructured so far that a rule cannot find what it analyses, that rule is reported as
    INCOMPLETE (and in the evidence) and the others still decide; SA_STRICT=1 (used while developing,
    and on the pinned tree) turns that into exit 2."""
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    t0 = time.time()
    baseline()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(780)
    rep = None
    try:
        project = Project()
        rep = Report(pid, project, tier)
        evaluate(pid, project, tier, rep)
    except OutOfTime:
        rep.incomplete.append("time limit reached")
    except AnalysisError as e:
        if rep is None:
            print(f"ANALYSIS-BROKEN property={pid}: {e}")
            return 2
        rep.incomplete.append(str(e))
    except Exception as e:
        traceback.print_exc()
        if rep is None:
            print(f"ANALYSIS-BROKEN property={pid}: internal error")
            return 2
        rep.incomplete.append(f"internal error: {e!r}")
    signal.alarm(0)
    for e in rep.incomplete:
        print(f"INCOMPLETE property={pid}: {e}")
    if rep.incomplete and os.environ.get("SA_STRICT"):
        return 2
    kn = known(pid)
    viol, kf = [], []
    for (rule, construct), (loc, msg) in rep.violations.items():
        key = f"{rule}:{construct}".replace(" ", "_")
        (kf if key in kn else viol).append((key, rule, construct, loc, msg))
    evdir = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    byrule = {}
    for rule, construct, loc, ok, msg in rep.obl:
        d = byrule.setdefault(rule, {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += bool(ok)
    samples = {}
    for rule, construct, loc, ok, msg in rep.obl:
        samples.setdefault(rule, [])
        if len(samples[rule]) < 40:
            samples[rule].append(f"{construct} @ {loc}" if loc else construct)
    doc = (sys.modules[registry()[pid].__module__].__doc__ or "").strip()
    cov = {
        "explanation": (registry()[pid].__doc__ or doc or "static rules over the current source").strip(),
        "functions_analysed": len(rep.analysed),
        "functions": sorted(rep.analysed)[:200],
        "modules_parsed": len(project.modules),
        "functions_parsed": len(project.functions),
        "abstract_paths": rep.paths,
        "state_joins": rep.joins,
        "obligations": len(rep.obl),
        "discharged": sum(1 for o in rep.obl if o[3]),
        "rules": byrule,
        "incomplete": rep.incomplete,
        "instances": samples,
    }
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3),
        "violations": [{"key": k, "loc": l, "msg": m} for k, _, _, l, m in viol],
    }
    if kf:
        ev["coverage"]["known_findings"] = [k for k, *_ in kf]
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for key, rule, construct, loc, msg in kf:
        print(f"KNOWN-FINDING: property={pid} {key} {kn[key]}")
    if viol:
        rp = os.path.join(evdir, f"{pid}.violation.txt")
        with open(rp, "w") as fh:
            for key, rule, construct, loc, msg in viol:
                fh.write(f"rule {rule}\nconstruct {construct}\nat {loc}\n{msg}\nkey {key}\n\n")
        for key, rule, construct, loc, msg in viol:
            print(f"  {loc}: [{rule}] {construct}: {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} obligations={len(rep.obl)} functions={len(rep.analysed)} paths={rep.paths} {time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    if not os.environ.get("PYTHONHASHSEED", "").isdigit():  # the order in which sets are walked must not matter, and does not vary
        os.execve(sys.executable, [sys.executable, "-m", "sa.run", *sys.argv[1:]], {**os.environ, "PYTHONHASHSEED": "0"})
    sys.exit(main(sys.argv[1:]))
