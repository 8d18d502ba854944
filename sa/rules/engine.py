"""Rules over the test runner's engine: phases, budgets, health checks, database discipline,
best-example bookkeeping."""
from __future__ import annotations

from ..lib import *

R = "hypothesis.internal.conjecture.engine.ConjectureRunner"
STATUS = "hypothesis.internal.conjecture.data.Status."
SELF = ("p", "self")


def phase_atom(a, name=None):
    """Phase.X in <...>.phases"""
    if a[0] == "cmp" and a[1] == "in" and a[2][0] == "g" and ".Phase." in a[2][1] and any_sub(a[3], lambda y: y[0] == "a" and y[2] == "phases"):
        return name is None or a[2][1].endswith("." + name)
    return False


def is_phase(name):
    return lambda a: phase_atom(a, name)


def status_is(a, name):
    return a[0] == "cmp" and a[1] == "==" and a[3] == ("g", STATUS + name)


TESTERS = ("test_function", "cached_test_function")


# -------------------------------------------------------------------- E02 phases
def check_phases(rep):
    """E02: guard analysis.  Starting from the runner's top-level routine with its own methods
    inlined, every database read, every test execution for generation, every optimiser or shrinker
    construction is enumerated together with the phase tests that dominate it on that path."""
    c = rep.cls(R)
    run = rep.method(c, "_run")
    stop = TESTERS + ("new_conjecture_data", "exit_with", "debug", "save_choices", "generate_novel_prefix")

    def kindof(t):
        n = last(t[1])
        if n in ("fetch",) and any_sub(t[1], lambda y: y[0] == "a" and y[2] == "database"):
            return "fetch"
        if n in ("Optimiser", "ParetoOptimiser"):
            return "target"
        if n == "Shrinker":
            return "shrinker"
        if n in TESTERS and t[1][0] == "a":
            return "exec"
        return None

    def match(kind, t, x):
        return kindof(t) if kind == "call" else None

    def ev(kind, t, x):
        # which top-level stage are we in: tracked through the statistics context manager
        if kind == "with-enter" and is_call(t, "_log_phase_statistics") and t[2] and t[2][0][0] == "c":
            return "in:" + t[2][0][2]
        if kind.startswith("with-exit") and is_call(t, "_log_phase_statistics"):
            return "out"
        return None

    # explore each stage separately through its entry method so that path counts stay small
    entries = {}
    for n, m in c.methods.items():
        entries[n] = m
    stages = {
        "reuse_existing_examples": None, "generate_new_examples": None, "optimise_targets": None,
        "shrink_interesting_examples": None, "pareto_optimise": None, "clear_secondary_key": None,
    }
    inl = lambda f, call, root: f.module is root.module and f.cls is c and f.name not in stop  # noqa
    sites, _ = rep.sites(run, match, phase_atom, inl, ev=ev, seq=True, prune=phase_atom, rounds=4)
    seen = {}
    for s in sites:
        stage = next((x for x in reversed(s.auto) if x.startswith("in:") or x == "out"), "out")
        seen.setdefault((s.label, stage, s.func.name, s.loc), []).append(s)
    need = {"reuse": "reuse", "generate": "generate", "target": "target", "shrink": "shrink"}
    for (label, stage, fn, l), ss in sorted(seen.items(), key=str):
        for s in ss:
            g = lambda n: s.has(is_phase(n))  # noqa
            cons = f"{fn}:{label}"
            if label == "fetch":
                rep.check(g("reuse"), "fetch-needs-reuse", cons, l, f"saved examples are read on a path without Phase.reuse enabled (guards {s.shown()})")
            elif label == "target":
                rep.check(g("target"), "optimise-needs-target", cons, l, f"targeted optimisation starts without Phase.target (guards {s.shown()})")
            elif label == "shrinker":
                rep.check(g("shrink") or g("target"), "shrink-needs-shrink", cons, l, f"shrinking starts without Phase.shrink (guards {s.shown()})")
            elif label == "exec":
                if stage == "in:generate":
                    rep.check(g("generate") or g("target"), "generate-needs-generate", cons, l, f"a test case is generated without Phase.generate (guards {s.shown()})")
                elif stage == "in:reuse":
                    rep.check(g("reuse"), "replay-needs-reuse", cons, l, f"a saved example is run without Phase.reuse (guards {s.shown()})")
                elif stage == "in:shrink":
                    rep.check(g("shrink"), "shrinkrun-needs-shrink", cons, l, f"a shrink attempt runs without Phase.shrink (guards {s.shown()})")
                else:
                    rep.bad("unphased-run", cons, l, "a test case is executed outside every phase")
    for r, n in (("fetch-needs-reuse", 4), ("optimise-needs-target", 2), ("shrink-needs-shrink", 1), ("generate-needs-generate", 3), ("replay-needs-reuse", 2), ("shrinkrun-needs-shrink", 2)):
        rep.minimum(r, n)
    # with every phase enabled each stage is reached (the guard is not inverted or dropped)
    reach = {(s.label, next((x for x in reversed(s.auto) if x.startswith("in:") or x == "out"), "out")) for s in sites}
    for want in (("fetch", "in:reuse"), ("exec", "in:reuse"), ("exec", "in:generate"), ("target", "in:generate"), ("shrinker", "in:shrink")):
        rep.check(want in reach, "phase-reachable", f"{want[1][3:]}:{want[0]}", run.loc, "stage is never reached")
    # no phase test is made with the wrong polarity at method level: when the phase is ON the work happens
    # explain flag
    sh = []
    def m2(kind, t, x):
        if kind == "call" and last(t[1]) == "Shrinker":
            return "S"
    for f in list(rep.p.functions.values()):
        if any(isinstance(n, ast.Call) and last_name(n.func) == "Shrinker" for n in own_nodes(f.node)):
            ss, _ = rep.sites(f, m2)
            sh += ss
    for s in sh:
        e = arg(s.term, None, "explain")
        ok = e is not None and (phase_atom(e, "explain") or s.has(is_phase("explain")) and e == TRUE or e == FALSE)
        rep.check(ok, "explain-needs-explain", s.func.qualname, s.loc, f"shrinker's explain flag is {show(e) if e else 'defaulted'}, not whether Phase.explain is enabled")
    rep.minimum("explain-needs-explain", 1)
    S = rep.cls("hypothesis.internal.conjecture.shrinker.Shrinker")
    ex = rep.method(S, "explain")
    ss, _ = rep.sites(ex, lambda k, t, x: "run" if k == "call" and last(t[1]) in TESTERS else None, lambda a: any_sub(a, lambda y: y[0] == "a" and y[2] in ("should_explain",)),
                      lambda f, call, root: f.parent is not None)
    shrink = rep.method(S, "shrink")
    calls, _ = rep.sites(shrink, lambda k, t, x: "call" if k == "call" and last(t[1]) == "explain" else None, lambda a: a == ("a", SELF, "should_explain"))
    inner = all(s.has(lambda a: a == ("a", SELF, "should_explain")) for s in ss) and ss
    outer = calls and all(s.has(lambda a: a == ("a", SELF, "should_explain")) for s in calls)
    rep.check(inner or outer, "explain-guarded", "Shrinker.explain", ex.loc, "the explain phase runs test cases without its flag being set")
    init = rep.method(S, "__init__")
    vals, _ = rep.sites(init, lambda k, t, x: "w" if k == "setattr" and t == ("a", SELF, "should_explain") else None)
    rep.check(bool(vals) and all(s.value == ("p", "explain") for s in vals), "explain-flag-stored", "Shrinker.__init__", init.loc, "the explain flag given by the runner is not what is stored")
    # explicit examples
    ee = rep.func("hypothesis.core.execute_explicit_examples")
    st, _ = rep.sites(ee, lambda k, t, x: "run" if k == "call" and (last(t[1]) == "execute_once") else None, phase_atom,
                      lambda f, call, root: f.parent is not None, prune=phase_atom)
    for s in st:
        rep.check(s.has(is_phase("explicit")), "explicit-needs-explicit", f"{s.func.name}", s.loc, "an explicit example runs without Phase.explicit")
    rep.minimum("explicit-needs-explicit", 1)
    # engine entered only if some example source phase is on
    wt = [f for f in rep.p.functions.values() if f.qualname == "given.<locals>.run_test_as_given.<locals>.wrapped_test" and f.module.name == "hypothesis.core"]
    if not wt:
        raise AnalysisError("anchor vanished: wrapped_test")
    st, _ = rep.sites(wt[0], lambda k, t, x: "eng" if k == "call" and last(t[1]) == "run_engine" else None, phase_atom,
                      lambda f, call, root: f.module is root.module and f.qualname.startswith("given") , prune=phase_atom)
    for s in st:
        rep.check(s.has(is_phase("reuse")) or s.has(is_phase("generate")), "engine-needs-phase", s.func.name, s.loc, "the engine runs although neither reuse nor generate is enabled")
    rep.minimum("engine-needs-phase", 1)
    # every phase member is consulted somewhere
    P = rep.cls("hypothesis._settings.Phase")
    used = set()
    for m in rep.p.modules.values():
        if m.name == "hypothesis._settings":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and rep.p.resolve_global(m, n.value.id) == P.fq:
                used.add(n.attr)
    for k in P.attrs:
        if not k.startswith("_"):
            rep.check(k in used, "phase-consulted", f"Phase.{k}", P.loc, "no code consults this phase")
    rep.minimum("phase-consulted", 6)


def last_name(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None


# -------------------------------------------------------------------- E03 limits
def check_limits(rep):
    """E03: counter and exit analysis of one test execution: on every path that lets the run go on,
    the path condition must include that the budgets are not used up (orderings of the counters
    against the limits; no arithmetic is evaluated)."""
    c = rep.cls(R)
    tf = rep.method(c, "test_function")
    VE, CC = ("a", SELF, "valid_examples"), ("a", SELF, "call_count")
    one = ("c", "int", 1)

    def plus1(t, base):
        return t == ("bin", "+", base, one) or t == ("bin", "+", one, base)

    def rel(a):
        if a[0] == "cmp" and a[1] == "<":
            return bool(fields(a) & {"max_examples", "MAX_SHRINKS", "valid_examples", "call_count", "shrinks", "finish_shrinking_deadline", "VALID"})
        if a[0] == "cmp" and a[1] == "==" and a[3][0] == "g" and a[3][1].startswith(STATUS):
            return True
        return a in (("a", SELF, "ignore_limits"), ("a", SELF, "interesting_examples")) or is_call(a, "__tree_is_exhausted", "_ConjectureRunner__tree_is_exhausted") or bool(fields(a) & {"is_exhausted", "using_hypothesis_backend", "_switch_to_hypothesis_provider", "finish_shrinking_deadline"})

    def ev(kind, t, x):
        if kind == "setattr" and t in (VE, CC) or (kind == "setattr" and t[1] == SELF and t[2] in ("invalid_examples", "overrun_examples", "shrinks")):
            return f"{t[2]}{'+1' if plus1(x['value'], t) else '=?'}"
        if kind == "call" and last(t[1]) in ("__stoppable_test_function", "_ConjectureRunner__stoppable_test_function") :
            return "execute"
        if kind == "call" and last(t[1]) == "record_for_health_check":
            return "hc"
        if kind == "raise" and x["type"].endswith("RunIsComplete"):
            return "EXIT"
        if kind == "catch":
            return "catch:" + ",".join(str(last(z)) for z in t[1])
        return None

    stop = ("__stoppable_test_function", "debug", "debug_data", "save_choices", "downgrade_choices", "record_for_health_check", "_cache", "cached_test_function", "_cache_key", "sub_key", "secondary_key", "pareto_key", "run", "shrink", "report_debug_info")
    interesting_prune = lambda a: rel(a) or (a[0] == "cmp" and a[1] == "is" and mentions(a, "finish_shrinking_deadline"))  # noqa
    raises = lambda call: ("hypothesis.errors.BackendCannotProceed",) if last(call[1]).endswith("stoppable_test_function") else ()  # noqa
    def ev1(kind, t, x):
        return ev(kind, t, x)
    rule = Trace(ev1, rel, lambda f, call, root: f.cls is c and f.name not in stop, False, True, prune=interesting_prune, max_states=1500, cap=20)
    out = rep.run(tf, rule)
    norm = [o for o in out if o.kind == "return"]
    rep.check(bool(norm), "paths", "test_function", tf.loc, "no normal path")
    for o in out:
        a = o.state.auto
        rep.check(a.count("call_count+1") == 1 and not any(x.startswith("call_count=") for x in a), "count-every-call", "test_function", loc(o), f"each execution must count exactly once: {a}")
        if "call_count+1" in a and "execute" in a:
            rep.check(a.index("call_count+1") < a.index("execute"), "count-before-run", "test_function", loc(o), "the call is counted only after it ran: an aborted call escapes the budget")
        valid = [v for k, v in o.state.guards if status_is(k, "VALID")]
        vals = set(valid)
        if o.kind == "return" and "execute" in a and not any(x.startswith("catch:BackendCannotProceed") for x in a):
            if vals == {True}:
                rep.check(a.count("valid_examples+1") == 1, "valid-counted", "test_function", loc(o), f"a valid test case is not counted towards max_examples: {a}")
            elif vals == {False}:
                rep.check(not any(x.startswith("valid_examples") for x in a), "only-valid-counted", "test_function", loc(o), "a test case that was not valid is counted towards max_examples")
            else:
                rep.bad("valid-counted", "test_function", loc(o), "path does not distinguish valid test cases")
    # exits
    def lt(a, left, right_names):
        """a is (left < something mentioning right_names)"""
        return a[0] == "cmp" and a[1] == "<" and any_sub(a[2], lambda y: y == left) and mentions(a[3], *right_names)

    for o in norm:
        g = guards(o)
        if "catch:BackendCannotProceed" in "".join(o.state.auto):
            continue
        ign = g.get(("a", SELF, "ignore_limits")) is True
        inter = any(v is True and k == ("a", SELF, "interesting_examples") for k, v in g.items()) or any(v and status_is(k, "INTERESTING") for k, v in g.items())
        vb = any(v and lt(k, VE, ("max_examples",)) for k, v in g.items())
        cb = any(v and lt(k, CC, ("max_examples",)) for k, v in g.items())
        ex = any((is_call(k, "_ConjectureRunner__tree_is_exhausted") or fields(k) & {"is_exhausted", "using_hypothesis_backend", "_switch_to_hypothesis_provider"}) and v is False for k, v in g.items())
        # the off-by-one-free comparison: counted value against the limit itself
        exact = all(not lt(k, VE, ("max_examples",)) or (k[2] in (VE, ("bin", "+", VE, one)) and k[3] == ("a", ("a", SELF, "settings"), "max_examples")) for k in g)
        if not ign:
            rep.check(inter or vb, "stop-at-max-examples", "test_function", loc(o), f"the run continues without valid_examples < max_examples being established ({sorted(G(o).items())[:6]})")
            rep.check(inter or cb, "stop-at-max-calls", "test_function", loc(o), "the run continues without the total-call bound being established")
            rep.check(ex or inter and not ex and any(mentions(k, "is_exhausted") or is_call(k, "_ConjectureRunner__tree_is_exhausted") for k in g), "stop-when-exhausted", "test_function", loc(o), "the run continues after every possible test case was tried")
        rep.check(exact, "max-examples-exact", "test_function", loc(o), "valid_examples is compared with something other than max_examples")
        if any(v and status_is(k, "INTERESTING") for k, v in g.items()) and not ign:
            rep.check(any(a[0] == "cmp" and a[1] == "<" and any_sub(a[2], lambda y: y[0] == "a" and y[2] == "shrinks") and mentions(a[3], "MAX_SHRINKS") and v for a, v in g.items()), "stop-at-max-shrinks", "test_function", loc(o), f"the run continues after MAX_SHRINKS improvements ({sorted(G(o).items())})")
        dl = [(k, v) for k, v in g.items() if mentions(k, "finish_shrinking_deadline")]
        if not ign:
            rep.check(any((k[0] == "cmp" and k[1] == "is" and v) or (k[0] == "cmp" and k[1] == "<" and k[2] == ("a", SELF, "finish_shrinking_deadline") and not v) or (k == ("a", SELF, "finish_shrinking_deadline") and not v) for k, v in dl), "stop-at-shrink-deadline", "test_function", loc(o), "the run continues past the shrinking deadline")
    rep.minimum("stop-at-max-examples", 3)
    # early exits must be justified: not under-running the budget
    for o in out:
        if o.kind == "raise" and o.state.auto and "EXIT" in o.state.auto:
            g = guards(o)
            ok = any((not v and (lt(k, VE, ("max_examples",)) or lt(k, CC, ("max_examples",)) or mentions(k, "MAX_SHRINKS"))) or (v and mentions(k, "finish_shrinking_deadline")) or (v and (mentions(k, "is_exhausted") or is_call(k, "_ConjectureRunner__tree_is_exhausted"))) for k, v in g.items())
            rep.check(ok, "exit-justified", "test_function", loc(o), f"the run is stopped although no limit was reached ({o.state.auto})")
            rep.check(g.get(("a", SELF, "ignore_limits")) is False, "exit-respects-ignore", "test_function", loc(o), "limits are enforced although they were asked to be ignored")
            # stopping for max_examples only while no failure is known
            lim = [k for k, v in g.items() if not v and (lt(k, VE, ("max_examples",)) or lt(k, CC, ("max_examples",)))]
            others = any((v and (mentions(k, "finish_shrinking_deadline") and k[1] == "<" or mentions(k, "is_exhausted") or is_call(k, "_ConjectureRunner__tree_is_exhausted"))) or (not v and mentions(k, "MAX_SHRINKS")) for k, v in g.items())
            if lim and not others:
                rep.check(any(k == ("a", SELF, "interesting_examples") and not v for k, v in g.items()), "no-budget-stop-while-shrinking", "test_function", loc(o), "the example budget aborts the run although a failure is being shrunk")
    rep.minimum("exit-justified", 2)
    # generation loop
    sg = rep.method(c, "should_generate_more")
    rel2 = lambda a: a[0] == "cmp" and a[1] in ("<", "in") or a == ("a", SELF, "interesting_examples") or mentions(a, "report_multiple_bugs")  # noqa
    out = rep.trace(sg, None, rel2, lambda f, call, root: f.cls is c)
    t_paths = 0
    for o in out:
        if o.kind != "return" or o.value == FALSE:
            continue
        t_paths += 1
        g = guards(o)
        rep.check(any(v and k[0] == "cmp" and k[1] == "<" and k[2] == VE and k[3] == ("a", ("a", SELF, "settings"), "max_examples") for k, v in g.items()), "more-needs-valid-budget", "should_generate_more", loc(o), "asks for more test cases without valid_examples < max_examples")
        rep.check(any(v and lt(k, CC, ("max_examples",)) for k, v in g.items()), "more-needs-call-budget", "should_generate_more", loc(o), "asks for more test cases without the call bound")
        if g.get(("a", SELF, "interesting_examples")) is not False:
            rep.check(any(v and phase_atom(k, "shrink") for k, v in g.items()) and any(v and mentions(k, "report_multiple_bugs") for k, v in g.items()), "more-after-bug", "should_generate_more", loc(o), "keeps generating after a failure although multiple bugs are not wanted or will not be shrunk")
    rep.check(t_paths >= 1, "more-possible", "should_generate_more", sg.loc, "never asks for more test cases")
    gn = rep.method(c, "generate_new_examples")
    BIGSTOP = TESTERS + ("should_generate_more", "new_conjecture_data", "optimise_targets", "exit_with", "generate_novel_prefix", "debug")
    evg = lambda k, t, x: ("more" if x["val"] else "nomore") if k == "branch" and is_call(t, "should_generate_more") else ("run" if k == "call" and last(t[1]) == "test_function" else ("crun" if k == "call" and last(t[1]) == "cached_test_function" else None))  # noqa
    segs, _ = rep.segments(gn, evg, ("more",), lambda a: False, lambda f, call, root: f.cls is c and f.name not in BIGSTOP, prune=lambda a: is_call(a, "should_generate_more"))
    bad = [s for s in segs if ("run" in s[1] and s[0] != "more") or ("nomore" in s[1] and "run" in s[1][s[1].index("nomore"):]) or (s[1].count("run") > 1) or (s[1].count("run") == 1 and "crun" in s[1] and s[1].index("crun") < s[1].index("run"))]
    rep.check(not bad and any("run" in s[1] for s in segs), "generate-under-budget", "generate_new_examples", gn.loc, f"a test case is generated without a preceding budget test: {bad[:2]}")
    ew = rep.method(c, "exit_with")
    out = rep.trace(ew, lambda k, t, x: "EXIT" if k == "raise" and x["type"].endswith("RunIsComplete") else ("why" if k == "setattr" and t == ("a", SELF, "exit_reason") and x["value"] == ("p", "reason") else None), lambda a: True)
    for o in out:
        ig = guards(o).get(("a", SELF, "ignore_limits"))
        rep.check((o.kind == "raise" and "EXIT" in o.state.auto and "why" in o.state.auto) == (ig is False), "exit-with", f"exit_with:{o.kind}", loc(o), "exit_with must record the reason and stop unless limits are ignored")
    # who sets ignore_limits: only tests/internal callers via the constructor default
    f = rep.method(c, "__init__")
    a = f.node.args
    d = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
    rep.check("ignore_limits" in d and isinstance(d["ignore_limits"], ast.Constant) and d["ignore_limits"].value is False, "limits-on-by-default", "ConjectureRunner.__init__", f.loc, "limits are ignored by default")
    for g in rep.p.functions.values():
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call) and last_name(n.func) == "ConjectureRunner":
                k = [x for x in n.keywords if x.arg == "ignore_limits"]
                rep.check(not k or (isinstance(k[0].value, ast.Constant) and k[0].value.value is False), "limits-on", g.qualname, nloc(g, n), "the public entry point ignores the limits")
                s = [x for x in n.keywords if x.arg == "settings"]
                rep.check(bool(s), "runner-gets-settings", g.qualname, nloc(g, n), "the runner is built without the test's settings")
    rep.minimum("limits-on", 1)


# -------------------------------------------------------------------- E04 health checks
def check_health(rep):
    """E04: who-may-raise audit plus guard analysis of every health check."""
    fh = rep.func("hypothesis.internal.healthcheck.fail_health_check")
    out = rep.trace(fh, None, lambda a: True)
    for o in out:
        g = guards(o)
        sup = [v for k, v in g.items() if k[0] == "cmp" and k[1] == "in" and k[2] == ("p", "label") and k[3] == ("a", ("p", "settings"), "suppress_health_check")]
        if o.kind == "raise":
            rep.check(sup == [False] and (o.type or "").endswith("FailedHealthCheck"), "gate-raise", "fail_health_check", loc(o), "raises although the label is (or may be) suppressed")
        else:
            rep.check(sup == [True], "gate-return", "fail_health_check", loc(o), "does not raise although the check is not suppressed")
    # who may raise
    n = 0
    for f in rep.p.functions.values():
        for node in own_nodes(f.node):
            if isinstance(node, ast.Call) and last_name(node.func) == "FailedHealthCheck":
                fq = rep.p.resolve_expr_fq(f.module, node.func)
                if fq == "hypothesis.errors.FailedHealthCheck" or fq is None:
                    n += 1
                    new = f.fq not in absint.BASELINE
                    rep.check(f is fh or (new and f.module is fh.module), "only-gate-raises", f.qualname, nloc(f, node), "a failed health check is raised without going through the suppressible gate")
    rep.check(n >= 1, "gate-exists", "fail_health_check", fh.loc, "nothing raises FailedHealthCheck")
    # every member has a site; every site's label is a member
    HC = rep.cls("hypothesis._settings.HealthCheck")
    members = {k for k, v in HC.attrs.items() if not k.startswith("_")}
    used = {}
    for f in rep.p.functions.values():
        for node in own_nodes(f.node):
            if isinstance(node, ast.Call) and last_name(node.func) == "fail_health_check":
                lab = node.args[2] if len(node.args) > 2 else next((k.value for k in node.keywords if k.arg == "label"), None)
                nm = lab.attr if isinstance(lab, ast.Attribute) else None
                if nm is None and isinstance(lab, ast.Name):
                    nm = None
                    used.setdefault("?", []).append((f, node))
                    continue
                rep.check(nm in members, "label-member", f"{f.qualname}:{nm}", nloc(f, node), "health check label is not a HealthCheck member")
                used.setdefault(nm, []).append((f, node))
    deprecated = {"return_value", "not_a_test_method"}  # now always errors for states, still raised through the gate
    for k in sorted(members):
        rep.check(k in used or "?" in used, "member-used", f"HealthCheck.{k}", HC.loc, "this health check is documented but nothing raises it")
    rep.minimum("member-used", 8)
    rep.minimum("label-member", 8)
    # runner: the metric that triggers each check
    c = rep.cls(R)
    rh = rep.method(c, "record_for_health_check")
    ST = None

    def m(kind, t, x):
        if kind == "call" and last(t[1]) == "fail_health_check":
            l = arg(t, 2, "label")
            return "fail:" + str(last(l))
        return None

    def ev(kind, t, x):
        if kind == "setattr" and t[2] in ("valid_examples", "invalid_examples", "overrun_examples"):
            v = x["value"]
            return t[2] + ("+1" if v == ("bin", "+", t, ("c", "int", 1)) else "=?")
        if kind == "setattr" and t == ("a", SELF, "health_check_state"):
            return "off" if x["value"] == NONE else "state=?"
        if kind == "call" and last(t[1]) == "fail_health_check":
            return "FAIL:" + str(last(arg(t, 2, "label")))
        return None

    sites, out = rep.sites(rh, m, None, lambda f, call, root: f.cls is c or f.cls is not None and f.cls.name == "HealthCheckState", ev=ev, noreturn=lambda call, f: False if is_call(call, "fail_health_check") else None)
    metric = {"data_too_large": "overrun_examples", "filter_too_much": "invalid_examples", "too_slow": "draw_time"}
    found = set()
    lim = []
    for s in sites:
        lab = s.label[5:]
        found.add(lab)
        rep.check(not s.has(lambda a: status_is(a, "INTERESTING")), "no-check-on-failure", f"record_for_health_check:{lab}", s.loc, "a health check fires on a failing test case, hiding the failure")
        rep.check(s.has(lambda a: status_is(a, "INTERESTING"), False), "no-check-on-failure", f"record_for_health_check:{lab}", s.loc, "a health check can fire on a failing test case, hiding the failure")
        want = metric.get(lab)
        if want:
            others = [v for v in metric.values() if v != want]
            trig = [k for k, v in s.guards.items() if (v and k[0] == "cmp" and k[1] in ("==", "<")) or (not v and k[0] == "cmp" and k[1] == "<")]
            ok = any(_mentions_metric(k, want) for k in trig)
            rep.check(ok, "metric-label", f"record_for_health_check:{lab}", s.loc, f"{lab} is not triggered by {want}: {s.shown()}")
        if lab == "too_slow":
            trig = [k for k, v in s.guards.items() if v and k[0] == "cmp" and k[1] == "<" and _mentions_metric(k[3], "draw_time") and not _mentions_metric(k[2], "draw_time")]
            lim += [y for k in trig for y in subterms(k[2]) if y[0] == "a" and y[2] == "deadline"]
            rep.check(bool(trig) and all(is_call(k[2], "max") and any(y[0] == "c" and isinstance(y[2], (int, float)) and y[2] >= 1 for y in k[2][2]) for k in trig), "slow-threshold", "record_for_health_check:too_slow", s.loc,
                      "the time allowed for generating data is not the greater of one second and a multiple of the deadline: " + "; ".join(show(k) for k in trig)[:200])
        rep.check(arg(s.term, 0, "settings") == ("a", SELF, "settings"), "health-settings", f"record_for_health_check:{lab}", s.loc, "the check is not made against the test's own settings")
        rep.check("off" not in s.auto, "no-check-after-off", f"record_for_health_check:{lab}", s.loc, "a check fires after health checking was switched off")
    rep.check(bool(lim), "slow-threshold", "record_for_health_check:deadline", rh.loc, "the time allowed for generating data does not depend on the deadline")
    rep.check(set(metric) <= found, "runner-checks", "record_for_health_check", rh.loc, f"missing {sorted(set(metric) - found)}")
    stmap = {"VALID": "valid_examples", "INVALID": "invalid_examples"}
    for o in out:
        g = guards(o)
        st = [k[3][1].rsplit(".", 1)[-1] for k, v in g.items() if v and k[0] == "cmp" and k[1] == "==" and k[3][0] == "g" and k[3][1].startswith(STATUS)]
        inc = [x for x in o.state.auto if x.endswith("+1")]
        if any(x.endswith("=?") for x in o.state.auto):
            rep.bad("health-counters", "record_for_health_check", loc(o), f"a counter is not incremented by exactly one: {o.state.auto}")
        if "INTERESTING" in st:
            rep.check("off" in o.state.auto and not inc, "off-on-failure", "record_for_health_check", loc(o), "health checks stay on after a failing test case")
        elif inc:
            w = stmap.get(st[0] if st else "", "overrun_examples")
            rep.check(inc == [w + "+1"], "health-counters", "record_for_health_check", loc(o), f"status {st} counted as {inc}")
    rep.minimum("health-counters", 3)
    vm = [o for o in out if o.kind == "return" and any(v and k[0] == "cmp" and k[1] == "==" and _mentions_metric(k, "valid_examples") for k, v in guards(o).items())]
    rep.check(bool(vm) and all("off" in o.state.auto and not any(x.startswith("FAIL") for x in o.state.auto) for o in vm), "off-after-enough-valid", "record_for_health_check", rh.loc, "health checks do not end after enough valid examples")
    # base example
    gn = rep.method(c, "generate_new_examples")
    sites, _ = rep.sites(gn, m, lambda a: mentions(a, "status") or mentions(a, "length") or a == ("a", SELF, "interesting_examples") or phase_atom(a), lambda f, call, root: f.fq not in absint.BASELINE)
    ss = [s for s in sites if s.label == "fail:large_base_example"]
    rep.check(bool(ss), "base-example-check", "generate_new_examples", gn.loc, "large_base_example is never checked")
    for s in ss:
        ok = s.has(lambda a: status_is(a, "OVERRUN")) or (s.has(lambda a: status_is(a, "VALID")) and s.has(lambda a: mentions(a, "BUFFER_SIZE"), True))
        rep.check(ok and s.has(lambda a: a == ("a", SELF, "interesting_examples"), False), "base-example-guard", "generate_new_examples", s.loc, f"large_base_example fires on {s.shown()}")
    # @given-level checks
    eo = rep.func("hypothesis.core.StateForActualGivenExecution._execute_once_for_engine")
    sites, _ = rep.sites(eo, m, lambda a: a[0] == "cmp" and a[1] == "is", None)
    ss = [s for s in sites if s.label == "fail:return_value"]
    rep.check(bool(ss) and all(any((not v) and k[0] == "cmp" and k[3] == NONE and any_sub(k[2], lambda y: is_call(y, "execute_once")) for k, v in s.guards.items()) for s in ss), "return-value", "_execute_once_for_engine", eo.loc, "a test returning a value is not reported exactly when the result is not None")
    gv = rep.func("hypothesis.core.given")
    sites, _ = rep.sites(gv, m, None, None)
    ss = [s for s in sites if s.label == "fail:nested_given"]
    rep.check(bool(ss) and all(s.has(lambda a: is_call(a, "currently_in_test_context")) for s in ss), "nested-given", "given", gv.loc, "nested @given is not reported exactly when a test is running")
    wt = next((f for f in rep.p.functions.values() if f.qualname.endswith("run_test_as_given.<locals>.wrapped_test")), None)
    if wt is None:
        raise AnalysisError("anchor vanished: wrapped_test")
    sites, _ = rep.sites(wt, m, lambda a: True, lambda f, call, root: f.fq not in absint.BASELINE, prune=lambda a: True)
    ss = [s for s in sites if s.label == "fail:differing_executors"]
    rep.check(bool(ss) and all(any(not v and k[0] == "cmp" and k[1] in ("is", "==") for k, v in s.guards.items()) for s in ss), "differing-executors", "wrapped_test", wt.loc, "differing executors are not reported when self changes")
    # pytest plugin: function-scoped fixtures
    pl = rep.p.modules.get("_hypothesis_pytestplugin")
    if pl is not None:
        hits = [(f, n) for f in rep.p.functions.values() if f.module is pl for n in own_nodes(f.node) if isinstance(n, ast.Call) and last_name(n.func) == "fail_health_check"]
        rep.check(bool(hits), "fixture-check", "pytest plugin", pl.rel, "function-scoped fixtures are not reported")


def _mentions_metric(k, want):
    if any_sub(k, lambda y: y[0] == "a" and y[2] in (want, "total_" + want)):
        return True
    return want == "draw_time" and any_sub(k, lambda y: y[0] == "a" and y[2].startswith("draw_time") or y[0] == "a" and y[2] == "total_draw_time")


CHECKS = {"E02": check_phases, "E03": check_limits, "E04": check_health}
