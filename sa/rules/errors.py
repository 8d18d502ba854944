"""E01: exception routing.  An audit of every handler of the library that can swallow an
exception, plus exception matrices: for each routing function and each kind of exception raised by
the call it wraps, every abstract path out of the function is enumerated and compared with the
documented outcome."""
from __future__ import annotations

import json
import os

from ..lib import *

ERR = "hypothesis.errors."
UNSAT, STOP, BCP, FHC = ERR + "UnsatisfiedAssumption", ERR + "StopTest", ERR + "BackendCannotProceed", ERR + "FailedHealthCheck"
FLAKYREPLAY = ERR + "FlakyReplay"
KBI, SYSX = "builtins.KeyboardInterrupt", "builtins.SystemExit"
ALLT = [UNSAT, STOP, BCP, FHC, "pseudo.Skip", KBI, SYSX, "pseudo.User", "pseudo.Failed"]
CORE = "hypothesis.core."
WIDE = {"Exception", "BaseException", "BARE", "StopTest", "UnsatisfiedAssumption", "RunIsComplete", "KeyboardInterrupt",
        "SystemExit", "GeneratorExit", "Frozen", "BackendCannotProceed", "FlakyReplay", "Flaky", "FlakyFailure", "HypothesisException",
        "FailedHealthCheck", "DeadlineExceeded", "BaseExceptionGroup", "ExceptionGroup", "AssertionError", "_Trimmable",
        "failure_exceptions_to_catch", "skip_exceptions_to_reraise", "?dynamic", "StopShrinking", "ContainsDiscard", "DeadBranch",
        "PreviouslyUnseenBehaviour", "LimitReached", "RewindRecursive", "Found", "ChoiceTooLarge", "SkipTest", "InvalidArgument"}
USERCALLS = {"draw", "do_draw", "do_filtered_draw", "do_validate", "execute_once", "test_function", "cached_test_function", "pack",
             "condition", "expand", "predicate", "mapper", "function", "check_set_value", "run_engine", "validate", "execute_example",
             "test_runner", "_test_function", "task", "definition", "target", "save", "fetch", "delete", "move"}


def handler_types(p, m, node):
    if node is None:
        return ["BARE"]
    if isinstance(node, ast.Tuple):
        return [x for e in node.elts for x in handler_types(p, m, e)]
    if isinstance(node, ast.Starred):
        return handler_types(p, m, node.value)
    if isinstance(node, ast.Call):
        return [last_name(node.func) or "?dynamic"]
    fq = p.resolve_expr_fq(m, node)
    if fq:
        r = p.lookup(fq)
        mod, _, nm = fq.rpartition(".")
        if mod in p.modules and not isinstance(r, Class):
            b = p.modules[mod].bind.get(nm)
            if isinstance(b, tuple) and b[0] == "var" and isinstance(getattr(b[1], "value", None), ast.Tuple):
                return [x for e in b[1].value.elts for x in handler_types(p, p.modules[mod], e)]
        return [fq.rsplit(".", 1)[-1]]
    return ["?dynamic"]


def last_name(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


def completes(body, caught):
    """can this handler body finish without raising (converting to a control exception counts as finishing)"""
    for i, st in enumerate(body):
        if isinstance(st, ast.Raise):
            if st.exc is None:
                return False
            n = last_name(st.exc.func) if isinstance(st.exc, ast.Call) else last_name(st.exc)
            return n in ("StopTest", "UnsatisfiedAssumption", "RunIsComplete")
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return True
        if isinstance(st, ast.If):
            a, b = completes(st.body, caught), completes(st.orelse, caught) if st.orelse else None
            if a is False and b is False:
                return False
            if a is True and leaves(st.body) or b is True and leaves(st.orelse):
                return True
            continue
        if isinstance(st, (ast.With,)):
            if not completes(st.body, caught):
                return False
        if isinstance(st, ast.Try):
            if leaves(st.body):
                return True
            if not completes(st.body, caught) and all(not completes(h.body, caught) for h in st.handlers):
                return False
    return True


def leaves(body):
    """contains a way out of the handler other than raise"""
    return any(isinstance(n, (ast.Return, ast.Continue, ast.Break)) for s in body for n in ast.walk(s))


def user_call(p, body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and last_name(n.func) in USERCALLS:
                return True
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def scan_handlers(p):
    """{module: {type: [(func, node)]}} of handlers that can swallow"""
    out = {}
    for f in p.functions.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Try):
                uc = user_call(p, n.body)
                for h in n.handlers:
                    ts = handler_types(p, f.module, h.type)
                    if completes(h.body, ts):
                        for t in set(ts):
                            if t in WIDE or uc:
                                k = t + ("@user" if uc and t not in WIDE else "")
                                out.setdefault(f.module.name, {}).setdefault(k, []).append((f, h))
            elif isinstance(n, ast.With):
                for i in n.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and last_name(c.func) == "suppress":
                        uc = user_call(p, n.body)
                        for t in {t for a in c.args for t in handler_types(p, f.module, a)}:
                            if t in WIDE or uc:
                                k = t + ("@user" if uc and t not in WIDE else "")
                                out.setdefault(f.module.name, {}).setdefault(k, []).append((f, n))
    return out


TABLE = os.path.join(VERIF, "sa", "baseline_handlers.json")


def audit(rep):
    base = json.load(open(TABLE))
    now = scan_handlers(rep.p)
    for m in sorted(set(now) | set(base)):
        for t, sites in sorted(now.get(m, {}).items()):
            allowed = base.get(m, {}).get(t, 0)
            msg = (f"{len(sites)} handlers for {t} in {m} can swallow the exception, {allowed} are confirmed legitimate; sites: "
                   + ", ".join(f"{f.qualname}:{n.lineno}" for f, n in sites))
            rep.check(len(sites) <= allowed, "swallowing-handlers", f"{m}:{t}", nloc(sites[-1][0], sites[-1][1]), msg)
    rep.minimum("swallowing-handlers", 30)
    for f in rep.p.functions.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Try) and n.finalbody:
                bad = [x for s in n.finalbody for x in jumps(s)]
                rep.check(not bad, "no-jump-in-finally", f.qualname, nloc(f, n), "return/break/continue in a finally block discards the exception in flight")
        if f.cls is not None and f.name in ("__exit__", "__aexit__"):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    falsy = isinstance(v, ast.Constant) and not v.value
                    deleg = isinstance(v, ast.Call) and last_name(v.func) in ("__exit__", "__aexit__")
                    rep.check(falsy or deleg, "exit-not-truthy", f.qualname, nloc(f, n), "__exit__ may return a true value, which swallows the exception")
    rep.minimum("no-jump-in-finally", 10)


def jumps(s, loop=False):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    if isinstance(s, ast.Return):
        yield s
    if isinstance(s, (ast.Break, ast.Continue)) and not loop:
        yield s
    inner = loop or isinstance(s, (ast.For, ast.While))
    for c in ast.iter_child_nodes(s):
        yield from jumps(c, inner)


def hierarchy(rep):
    ai = AbsInt(rep.p, Rule())
    anc = lambda n: ai.exc_anc(ERR + n)  # noqa
    rep.cls(ERR + "StopTest")
    c = "builtins.Exception"
    rep.check(c not in anc("StopTest") and "builtins.BaseException" in anc("StopTest"), "hierarchy", "StopTest", rep.cls(ERR + "StopTest").loc, "the internal stop signal is an Exception, so user code can swallow it")
    for n, b in (("UnsatisfiedAssumption", "HypothesisException"), ("FailedHealthCheck", "HypothesisException"), ("DeadlineExceeded", "HypothesisException"),
                 ("FlakyFailure", "Flaky"), ("FlakyReplay", "Flaky"), ("Flaky", "HypothesisException"), ("InvalidArgument", "HypothesisException"), ("Unsatisfiable", "HypothesisException"),
                 ("BackendCannotProceed", "HypothesisException"), ("Frozen", "HypothesisException"), ("DidNotReproduce", "HypothesisException")):
        k = rep.cls(ERR + n, required=False)
        rep.check(k is not None and ERR + b in anc(n) and c in anc(n), "hierarchy", n, k.loc if k else "", f"{n} is not a {b}")
    for n in ("DeadlineExceeded", "FailedHealthCheck", "InvalidArgument", "Flaky", "FlakyFailure", "FlakyReplay", "Unsatisfiable"):
        rep.check(not ({ERR + "UnsatisfiedAssumption", ERR + "StopTest"} & anc(n)), "hierarchy", n + " is not a rejection", "", f"{n} would be treated as a rejection")
    us = ai.exc_anc(UNSAT)
    rep.check(not any(x in us for x in ("builtins.AssertionError", "builtins.ValueError", "builtins.TypeError", "builtins.LookupError")), "hierarchy", "UnsatisfiedAssumption is separate", "", "a rejection would be caught by handlers of ordinary errors")


def strings_of(f):
    out = set()
    for n in (x for s in f.node.body for x in ast.walk(s)):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.add(n.value)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Name):
            out.add(n.id)
    return out


def reach_strings(rep, f, depth=3):
    """identifiers and string constants of f and of helpers that are not on the pinned tree"""
    out, work, seen = set(), [f], set()
    while work:
        g = work.pop()
        if g.fq in seen:
            continue
        seen.add(g.fq)
        out |= strings_of(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = rep.p.lookup(rep.p.resolve_global(g.module, n.id))
                if isinstance(r, Func) and r.fq not in absint.BASELINE:
                    work.append(r)
                b = g.module.bind.get(n.id)
                if isinstance(b, tuple) and b[0] == "var":
                    for x in ast.walk(b[1]):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            out.add(x.value)
                        elif isinstance(x, ast.Attribute):
                            out.add(x.attr)
                        elif isinstance(x, ast.Name):
                            out.add(x.id)
    return out


def catch_lists(rep):
    f = rep.func(CORE + "skip_exceptions_to_reraise")
    s = reach_strings(rep, f)
    for w in ("unittest", "SkipTest", "_pytest", "Skipped"):
        rep.check(w in s, "skip-list", w, f.loc, f"skip exceptions no longer include {w}")
    f = rep.func(CORE + "failure_exceptions_to_catch")
    s = reach_strings(rep, f)
    for w in ("Exception", "SystemExit", "GeneratorExit", "_pytest", "Failed"):
        rep.check(w in s, "failure-list", w, f.loc, f"{w} raised by a test is no longer treated as a failure")
    for w in ("KeyboardInterrupt", "BaseException", "StopTest"):
        rep.check(w not in s, "failure-list", "not " + w, f.loc, f"{w} is treated as an ordinary test failure")


def same(o, t):
    return o.kind == "raise" and o.type == t


def nested(rep, fq_prefix, name, calls):
    """functions called `name` nested in fq_prefix whose own body makes one of `calls`"""
    out = []
    for f in rep.p.functions.values():
        if f.fq.startswith(fq_prefix + ".<locals>."):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and last_name(n.func) in calls:
                    out.append(f)
                    break
    return out


def transparent(rep, f, pred, label, types=ALLT, must=None):
    for t, outs in rep.matrix(f, pred, types, must).items():
        seen = False
        for o in outs:
            seen = True
            ok = same(o, t)
            rep.check(ok, "propagates", f"{label}:{t.rsplit('.', 1)[-1]}", loc(o), f"{t} raised inside {label} {'turns into ' + str(o.type) if o.kind == 'raise' else 'is swallowed'}")
        rep.check(seen, "matrix-live", f"{label}:{t.rsplit('.', 1)[-1]}", f.loc, "the wrapped call is never reached")


def check(rep):
    """Every exception handler of the package that can catch a user exception or a control signal is
    enumerated; each path through it must end by raising, by marking the test case, or be one of the
    handlers listed with the operation they protect (and protect nothing else).  The classification of
    outcomes in the runner is decided per exception class, exception groups included."""
    audit(rep)
    hierarchy(rep)
    catch_lists(rep)
    # --- the engine-facing wrapper
    f = rep.func(CORE + "StateForActualGivenExecution._execute_once_for_engine")

    def ev(k, t, x):
        if k == "call" and last(t[1]) in ("mark_invalid", "mark_interesting", "mark_overrun", "conclude_test", "_flaky_replay_to_failure"):
            return last(t[1])
        if k == "setattr" and t[2] in ("expected_exception", "expected_traceback") and t[1][0] == "p":
            return t[2] + ("=" if x["value"][0] == "exc" else "=" + (callee(x["value"]) or "?"))

    rel = lambda a: mentions(a, "frozen") or mentions(a, "is_hypothesis_file") or is_call(a, "isinstance")  # noqa
    once = lambda c: is_call(c, "execute_once")  # noqa
    MARKS = ("mark_invalid", "mark_interesting", "conclude_test")
    for t, outs in rep.matrix(f, once, ALLT, ev, relevant=rel, returns=MARKS).items():
        n = t.rsplit(".", 1)[-1]
        rep.check(bool(outs), "matrix-live", f"_execute_once_for_engine:{n}", f.loc, "the test is never executed")
        got = False
        for o in outs:
            a, cons = [x for x in o.state.auto if not x.startswith("expected")], f"_execute_once_for_engine:{n}"
            if o.kind == "raise" and o.type == "builtins.AssertionError" and t != "builtins.AssertionError":
                continue
            if t == UNSAT:
                rep.check(o.kind == "return" and a == ["mark_invalid"], "rejection-is-invalid", cons, loc(o), f"a rejected test case ends as {o.kind} {o.type or ''} {a}")
            elif t in (STOP, BCP, FHC, "pseudo.Skip", KBI):
                rep.check(same(o, t) and not a, "control-propagates", cons, loc(o), f"{n} ends as {o.kind} {o.type or ''} {a}")
            else:
                g = guards(o)
                frozen = [v for k, v in g.items() if mentions(k, "frozen")]
                lib = [v for k, v in g.items() if mentions(k, "is_hypothesis_file")]
                if o.kind == "raise" and o.type == STOP:
                    rep.check(frozen == [True], "failure-after-end", cons, loc(o), "a failure is dropped although the test case is still open")
                elif o.kind == "raise":
                    rep.check(same(o, t) and lib == [True] and not a, "internal-error-propagates", cons, loc(o), f"failure leaves as {o.type} (is library file: {lib})")
                    notlib = [v for k, v in g.items() if is_call(k, "isinstance") and mentions(k, "HypothesisException")]
                    rep.check(notlib == [False] or t == "builtins.SystemExit" or t.startswith("pseudo"), "internal-error-guard", cons, loc(o), "a library exception is not treated as a test failure")
                else:
                    got = True
                    rep.check(a[-1:] == ["mark_interesting"] and set(a) == {"mark_interesting"}, "failure-is-interesting", cons, loc(o), f"a failing test case ends as {a}")
                    rep.check("expected_exception=" in o.state.auto and "expected_traceback=format_exception" in o.state.auto, "failure-recorded", cons, loc(o), f"the failing exception is not recorded on the test case: {o.state.auto}")
        if t not in (UNSAT, STOP, BCP, FHC, "pseudo.Skip", KBI):
            rep.check(got, "failure-is-interesting", f"_execute_once_for_engine:{n}:some", f.loc, f"{n} never marks the test case as failing")
    # origin passed to mark_interesting is derived from the caught exception
    sites, _ = rep.sites(f, lambda k, t, x: "mark" if k == "call" and last(t[1]) == "mark_interesting" else None, None, None, exc=True, raises=lambda c: ("pseudo.User",) if once(c) else ())
    for s in sites:
        o = arg(s.term, 0, "interesting_origin")
        rep.check(o is not None and is_call(o, "from_exception") and o[2] and any_sub(o[2][0], lambda y: y[0] == "exc" or y == ("p", "e")), "origin-of-failure", "_execute_once_for_engine", s.loc, f"the failure is filed under {show(o) if o else None} instead of its own origin")
    # FlakyReplay while concluding becomes a flaky failure
    for who in ("mark_invalid", "mark_interesting"):
        outs = rep.trace(f, ev, None, None, True, raises=lambda c: (UNSAT, "pseudo.User") if once(c) else ((FLAKYREPLAY,) if is_call(c, who) else ()), noreturn=lambda c, g: True if once(c) or is_call(c, who) else (False if last(c[1]) in MARKS else None), hmatch=lambda r, term: dyn_match(r, term, AbsInt(rep.p, Rule()).exc_anc(r)))
        bad = [o for o in outs if o.kind == "raise" and o.type == FLAKYREPLAY]
        rep.check(not bad and any("_flaky_replay_to_failure" in o.state.auto for o in outs), "flaky-replay-converted", who, f.loc, "a flaky replay noticed while concluding escapes unconverted")
    # --- engine
    R = "hypothesis.internal.conjecture.engine.ConjectureRunner."
    f = rep.p.func(R + "_ConjectureRunner__stoppable_test_function") or rep.p.func(R + "__stoppable_test_function")
    tf = rep.func(R + "test_function")
    user = lambda c: is_call(c, "_test_function")  # noqa
    if f is None:
        f = tf
    rel = lambda a: mentions(a, "testcounter")  # noqa
    for t, outs in rep.matrix(f, user, ALLT, None, relevant=rel).items():
        n = t.rsplit(".", 1)[-1]
        for o in outs:
            if t == STOP and o.kind == "return":
                g = [v for k, v in guards(o).items() if k[0] == "cmp" and mentions(k, "testcounter") and k[1] == "=="]
                rep.check(g == [True], "own-stop-only", f"stoppable:{n}", loc(o), "a stop signal of another test case is swallowed")
            else:
                rep.check(same(o, t), "propagates", f"stoppable:{n}", loc(o), f"{n} from the test ends as {o.kind} {o.type or ''}")
        if t == STOP:
            rep.check(any(o.kind == "return" for o in outs), "own-stop-ends", "stoppable", f.loc, "the test case's own stop signal is not handled")

    def ev2(k, t, x):
        if k == "call" and last(t[1]) in ("save_choices", "_cache", "freeze", "record_for_health_check"):
            return last(t[1])
        if k == "setattr" and t[2] in ("valid_examples", "invalid_examples"):
            return t[2]

    stop = lambda c: last(c[1]) in ("_ConjectureRunner__stoppable_test_function", "__stoppable_test_function") or user(c)  # noqa
    for t, outs in rep.matrix(tf, stop, ALLT, ev2, inline=lambda g, call, root: False, relevant=lambda a: False, prune=lambda a: False).items():
        n = t.rsplit(".", 1)[-1]
        rep.check(bool(outs), "matrix-live", f"test_function:{n}", tf.loc, "the test is never executed")
        for o in outs:
            if t == BCP:
                rep.check(o.kind == "return" and "valid_examples" not in o.state.auto or same(o, t), "backend-discard", "test_function", loc(o), f"a test case discarded by the backend ends as {o.kind} {o.type or ''} {o.state.auto}")
            else:
                if o.kind == "raise" and o.type == "builtins.AssertionError":
                    continue
                rep.check(same(o, t), "propagates", f"test_function:{n}", loc(o), f"{n} from the test ends as {o.kind} {o.type or ''}")
                if t != KBI:
                    a = o.state.auto
                    rep.check("save_choices" in a, "save-before-abort", f"test_function:{n}", loc(o), "an error that aborts the run is raised before its test case was saved")
    run = rep.func(R + "run")
    for t, outs in rep.matrix(run, lambda c: is_call(c, "_run"), ["hypothesis.internal.conjecture.engine.RunIsComplete", STOP, KBI, "pseudo.User", FHC, FLAKYREPLAY, ERR + "FlakyFailure"]).items():
        for o in outs:
            n = t.rsplit(".", 1)[-1]
            rep.check((o.kind == "return") if n == "RunIsComplete" else same(o, t), "propagates", f"run:{n}", loc(o), f"{n} from the run ends as {o.kind} {o.type or ''}")
    # --- plumbing in core that must be transparent
    eo = rep.func(CORE + "StateForActualGivenExecution.execute_once")
    transparent(rep, eo, lambda c: is_call(c, "test_runner"), "execute_once")
    inner = nested(rep, eo.fq, None, {"test"})
    rep.check(len(inner) >= 2, "nested-found", "execute_once", eo.loc, "the functions wrapping the user's test were not found")
    for g in inner:
        transparent(rep, g, lambda c: is_call(c, "test"), g.qualname.split("StateForActualGivenExecution.")[-1])
    ge = rep.func(CORE + "get_executor")
    for g in nested(rep, ge.fq, None, {"execute_example", "function"}):
        if any(isinstance(n, ast.Try) for n in own_nodes(g.node)):
            transparent(rep, g, lambda c: last(c[1]) in ("execute_example", "function", "execute"), g.qualname)
    f = rep.func(CORE + "default_executor")
    for o in rep.trace(f):
        rep.check(o.kind == "return" and o.value is not None and is_call(o.value, "function"), "executor-runs-test", "default_executor", loc(o), "the default executor does not return the result of running the test")
    wt = next((x for x in rep.p.functions.values() if x.qualname.endswith("run_test_as_given.<locals>.wrapped_test")), None)
    if wt is None:
        raise AnalysisError("anchor vanished: wrapped_test")
    for t, outs in rep.matrix(wt, lambda c: is_call(c, "run_engine"), [STOP, KBI, "pseudo.User", "pseudo.Skip", FHC, ERR + "FlakyFailure", ERR + "Unsatisfiable"], relevant=lambda a: False, prune=lambda a: False).items():
        n = t.rsplit(".", 1)[-1]
        outs = [o for o in outs if any_sub(o.value, lambda y: y[0] == "exc" and y[1] == t) or o.kind == "return" or same(o, t)] if outs else []
        rep.check(bool(outs), "matrix-live", f"wrapped_test:{n}", wt.loc, "run_engine is never reached")
        for o in outs:
            ok = same(o, t) or o.kind == "raise" and is_call(o.value, "with_traceback") and any_sub(o.value, lambda y: y[0] == "exc" and y[1] == t)
            rep.check(ok or o.kind == "return", "propagates", f"wrapped_test:{n}", loc(o), f"{n} from the engine ends as {o.kind} {o.type or ''}")
    # --- assume / reject / cleanup
    f = rep.func("hypothesis.control.assume")
    n = 0
    for o in rep.trace(f, None, lambda a: True):
        c = guards(o).get(("p", "condition"))
        if o.kind == "raise":
            n += 1
            rep.check(o.type == UNSAT and c is False, "assume", "assume:raise", loc(o), "assume() raises although the condition holds")
        else:
            rep.check(c is True or c is None and False, "assume", "assume:return", loc(o), "assume() returns although the condition may be false")
            rep.check(o.value == TRUE, "assume", "assume:value", loc(o), "assume() does not return True")
    rep.check(n >= 1, "assume", "assume:rejects", f.loc, "assume() never rejects")
    f = rep.func("hypothesis.control.reject")
    outs = rep.trace(f, None, lambda a: True)
    rep.check(bool(outs) and all(o.kind == "raise" and o.type == UNSAT for o in outs), "reject", "reject", f.loc, "reject() does not always reject")
    bx = rep.func("hypothesis.control.BuildContext.__exit__")
    outs = rep.trace(bx, lambda k, t, x: "task" if k == "call" and t[1][0] in ("elem",) or k == "call" and last(t[1]) == "task" else None, lambda a: True, exc=True, raises=lambda c: ("pseudo.Base",) if c[1][0] == "elem" or last(c[1]) == "task" else (), noreturn=lambda c, g: True if c[1][0] == "elem" or last(c[1]) == "task" else None)
    looped = [o for o in outs if o.kind == "raise"]
    rep.check(bool(looped), "cleanup-errors-raised", "BuildContext.__exit__", bx.loc, "an error of a cleanup task is swallowed")
    # with one failing task there must be no normal return on a path that entered the handler
    outs = rep.trace(bx, lambda k, t, x: "caught" if k == "catch" else None, lambda a: True, exc=True, raises=lambda c: ("pseudo.Base",) if c[1][0] == "elem" or last(c[1]) == "task" else ())
    for o in outs:
        if "caught" in o.state.auto:
            rep.check(o.kind == "raise", "cleanup-errors-raised", "BuildContext.__exit__", loc(o), "an error of a cleanup task is swallowed")
    # --- fuzz target
    fz = next((x for x in rep.p.functions.values() if x.qualname.endswith("_get_fuzz_target.<locals>.fuzz_one_input")), None)
    if fz is None:
        raise AnalysisError("anchor vanished: fuzz_one_input")
    for t, outs in rep.matrix(fz, once, ALLT, lambda k, tt, x: "save" if k == "call" and last(tt[1]) == "save" else None, relevant=lambda a: True).items():
        n = t.rsplit(".", 1)[-1]
        for o in outs:
            if o.kind == "raise" and o.type == "builtins.AssertionError":
                continue
            if t in (UNSAT, STOP):
                rep.check(o.kind == "return" and o.value == NONE, "fuzz-rejects", f"fuzz_one_input:{n}", loc(o), f"a rejected input ends as {o.kind} {o.type or ''}")
            else:
                rep.check(same(o, t), "propagates", f"fuzz_one_input:{n}", loc(o), f"{n} ends as {o.kind} {o.type or ''}")
                known_better = any(k[0] == "cmp" and k[1] == "<" and mentions(k, "nodes") and v for k, v in guards(o).items())
                nodb = any(k[0] == "cmp" and k[1] == "is" and mentions(k, "database") and v for k, v in guards(o).items())
                rep.check("save" in o.state.auto or known_better or nodb, "fuzz-saves", f"fuzz_one_input:{n}", loc(o), "a failing input found by a fuzzer is not saved")
    fd = rep.func(CORE + "find")
    for t, outs in rep.matrix(fd, lambda c: not c[2] and not c[3] and any_sub(c[1], lambda y: y[0] == "fn" and ".find.<locals>." in "." + y[1]), [ERR + "Found", STOP, "pseudo.User", KBI, ERR + "Unsatisfiable"], inline=lambda g, call, root: False, relevant=lambda a: False).items():
        n = t.rsplit(".", 1)[-1]
        for o in outs:
            if o.kind == "raise" and o.type.endswith("InvalidArgument"):
                continue
            if n == "Found":
                rep.check(o.kind == "return" and o.value != NONE, "find-returns", "find", loc(o), "find() does not return the example it found")
            else:
                rep.check(same(o, t), "propagates", f"find:{n}", loc(o), f"{n} ends as {o.kind} {o.type or ''}")
    # --- exception groups from user task groups
    ug = rep.func(CORE + "unwrap_markers_from_group")
    groups(rep, ug)


def groups(rep, f):
    """a group is replaced by one of its members only when it holds no user exception"""
    fq = "builtins.BaseExceptionGroup"

    class Y(Trace):  # the exception arrives at the yield
        def on_yield(self, auto, value, node, st, ai):
            ai.raise_(fq, ("exc", fq, ("yield", 0)), node, st)
            return None

    outs = rep.run(f, Y(None, lambda a: True, None, True, raises=lambda c: ()))
    rep.check(bool(outs) and all(o.kind == "raise" for o in outs), "group-never-swallowed", "unwrap_markers_from_group", f.loc, "an exception group raised by the test can be swallowed")
    n = 0
    for o in outs:
        if o.type == "builtins.AssertionError" or o.value is None or o.value[0] == "exc":
            continue
        n += 1
        # replaced by a member only when the part of the split holding user exceptions is empty
        user = [v for k, v in guards(o).items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and k[2][0] == "sub" and k[2][2] == const(1)
                and is_call(k[2][1], "split") and k[2][1][2] and (k[2][1][2][0][0] in ("lambda", "fn", "tuple") and not mentions(k[2][1][2][0], "Frozen"))]
        rep.check(user == [True], "group-unwrap-guard", "unwrap_markers_from_group", loc(o), "a group holding a user exception is replaced by a control exception")
    rep.check(n >= 1, "group-unwrapped", "unwrap_markers_from_group", f.loc, "control exceptions in a group are never unwrapped")


check.technique = "handler audit plus exception-matrix path enumeration (abstract interpretation of exceptional edges)"
CHECKS = {"E01": check}
