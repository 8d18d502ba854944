"""T01-T03: stateful tests."""
from __future__ import annotations

import ast

from ..lib import *
from .choices import NOTHING, P, SELF, extracted, lt
from .strat import closure, const_bool, drawn, fz, kw, returns
from .tree import at, dm, eq, gd, inst, less, ln, sa, val

SF = "hypothesis.stateful."
RUN = SF + "get_state_machine_test.<locals>.run_state_machine"
RBM = SF + "RuleBasedStateMachine."
MACHINE = nosite(("call", P("factory"), (), (), 0))
INIT = at(MACHINE, "_initialize_rules_to_run")
RAISE = "builtins.ValueError"


def steps_vs_budget(g):
    """(term of the step counter, steps < budget) from the path conditions"""
    for k, v in g.items():
        if k[0] == "cmp" and k[1] in ("<", "=="):
            for i, j in ((2, 3), (3, 2)):
                if k[j][0] == "a" and k[j][2] == "stateful_step_count":
                    s = k[i]
                    return s, less(g, s, k[j]) if k[1] == "<" else (None if not v else False)
    return None, None


def run_events(rep):
    def ev(k, t, x):
        if k == "call":
            c = dm(t)
            n = last(c[1])
            if n == "draw_boolean":
                s, within = steps_vs_budget({dm(a): b for a, b in x["st"].guards})
                forced = kw(c, "forced", 1)
                return ("coin", forced if forced in (TRUE, FALSE, NONE, None) else "?", within)
            if n == "check_invariants":
                return ("invariants", c[1] == at(MACHINE, "check_invariants"))
            if n == "teardown":
                return ("teardown", c == nosite(("call", at(MACHINE, "teardown"), (), (), 0)))
            if n == "function":
                return ("exec", c)
            if n == "draw":
                return ("draw", c)
            if n == "remove":
                return ("remove", c)
            if n == "_add_result_to_targets":
                return ("add", c)
            if n == "_repr_step":
                return ("repr", c)
            if n == "_pretty_print":
                return ("pretty", c)
            if c[1][0] == "fn" and c[1][1].endswith(".output"):
                return ("out", c[2][0])
            if n == "fail_health_check":
                return ("health",)
            if c == MACHINE:
                return ("create",)
        if k == "branch":
            a = dm(t)
            if is_call(a, "draw_boolean"):
                return ("stop", x["val"])
            if a == INIT:
                return ("pending", x["val"])
            if a[0] == "a" and a[2] == "targets":
                return ("targets", x["val"])
            if is_call(a, "isinstance") and last(a[2][1]) == "MultipleResults":
                return ("multiple", x["val"])
            if a[0] == "p" and a[1] == "print_steps" or is_call(a, "is_final") or a[0] == "a" and a[2] == "is_final":
                return ("final", x["val"])
        if k == "loop" and dm(t)[0] == "a" and dm(t)[2] == "values":
            return ("results", dm(t))
        if k in ("enter", "back"):
            return None
    return ev


HEADS = [("coin", f, w) for f in (TRUE, FALSE, NONE, None, "?") for w in (True, False, None)]


def segs_of(rep, exc=False, which=()):
    f = rep.func(RUN)
    r = (lambda c: (RAISE,) if last(c[1]) in which else ()) if exc else NOTHING
    segs, outs = rep.segments(f, run_events(rep), HEADS, lambda a: True, lambda g, c, r: extracted(g, c, r), exc, raises=r, max_states=300, rounds=2, cap=60)
    return f, segs, outs


def feasible(head, labs):
    """a forced draw returns the forced value (C02)"""
    for l in labs:
        if l[0] == "stop":
            if head[1] == TRUE and l[1] is False or head[1] == FALSE and l[1] is True:
                return False
    return True


def rule_of(labs):
    """(drawn term, rule term, arguments term) of the step in this iteration"""
    d = [l[1] for l in labs if l[0] == "draw"]
    return (d[-1], ("sub", d[-1], const(0)), ("sub", d[-1], const(1))) if d else (None, None, None)


def check_steps(rep):
    """the step loop: budget, initialize rules first, one rule per step, invariants after it"""
    f, segs, outs = segs_of(rep)
    n = {"init": 0, "rule": 0, "prefix": 0}
    for head, labs, how in segs:
        if head not in HEADS:
            # everything before the first step
            labs = ((head,) if head != "^" else ()) + labs
            if how == "next":
                n["prefix"] += 1
                inv = [l for l in labs if l[0] == "invariants"]
                rep.check(inv == [("invariants", True)], "invariants-start", "before the first step", f.loc, f"the invariants are checked {len(inv)} times before the first step")
                i = labs.index(("create",)) if ("create",) in labs else None
                rep.check(i is not None and not any(l[0] == "exec" for l in labs), "machine", "created", f.loc, "the machine is not created before the loop")
            continue
        if not feasible(head, labs):
            continue
        ex = [l[1] for l in labs if l[0] == "exec"]
        stopped = ("stop", True) in labs
        if stopped:
            rep.check(not ex, "step-stop", "after stop", f.loc, "a rule runs although the test case decided to stop")
            continue
        if how == "next" or ex:
            rep.check(head[2] is True, "step-budget", "exec", f.loc, "a step runs although the step budget is used up")
            rep.check(("stop", False) in labs, "step-stop", "asked", f.loc, "a step runs without asking whether to continue")
            rep.check(len(ex) == 1 or not ex and how == "end", "step-one", "exec", f.loc, f"{len(ex)} rules run in one step")
        if not ex:
            continue
        i = next(j for j, l in enumerate(labs) if l[0] == "exec")
        d, r, a = rule_of(labs[:i])
        rep.check(sum(l[0] == "draw" for l in labs) == 1, "step-one", "draw", f.loc, "one step draws more than one rule")
        call = ex[0]
        rep.check(d is not None and call[1] == at(r, "function"), "step-rule", "exec", f.loc, f"the rule that runs, {show(call[1])[:80]}, is not the one drawn")
        rep.check(call[2][:1] == (MACHINE,) and len(call[2]) == 1, "step-rule", "self", f.loc, "the rule does not run on the machine")
        pend = next((l[1] for l in labs[:i] if l[0] == "pending"), None)
        rep.check(pend is not None, "init-first", "asked", f.loc, "a rule is chosen without looking at the pending initialize rules")
        if d is None:
            continue
        src = d[2][0]
        rm = [l[1] for l in labs[:i] if l[0] == "remove"]
        if pend:
            n["init"] += 1
            ok = is_call(src, "one_of") and any_sub(src, lambda y: y[0] == "comp" and y[3] == (INIT,) and not y[4])
            rep.check(ok, "init-first", "drawn", f.loc, f"while initialize rules are pending the step is drawn from {show(src)[:100]}")
            c = next((y for y in subterms(src) if y[0] == "comp"), None)
            if c is not None:
                e = ("elem", INIT)
                j = [y for y in subterms(c[2]) if is_call(y, "just")]
                fd = [y for y in subterms(c[2]) if is_call(y, "fixed_dictionaries")]
                rep.check(is_call(c[2], "tuples") and [y[2] for y in j] == [(e,)] and [y[2] for y in fd] == [(at(e, "arguments"),)], "init-args", "pair", f.loc, "an initialize rule is not drawn with its own arguments")
            rep.check([y[1] for y in rm] == [at(INIT, "remove")] and [y[2] for y in rm] == [(r,)], "init-once", "removed", f.loc, "the initialize rule that runs is not removed from the pending ones before it runs")
        else:
            n["rule"] += 1
            rep.check(src == at(MACHINE, "_rules_strategy"), "init-first", "ordinary", f.loc, f"an ordinary step is drawn from {show(src)[:80]}")
            rep.check(not rm, "init-once", "ordinary", f.loc, "an ordinary step removes an initialize rule")
        # results and invariants
        rest = labs[i + 1:]
        inv = [j for j, l in enumerate(rest) if l[0] == "invariants"]
        rep.check(len(inv) == 1 and rest[inv[0]][1], "invariants-after", "step", f.loc, f"the invariants are checked {len(inv)} times after a step")
        adds = [(j, l[1]) for j, l in enumerate(rest) if l[0] == "add"]
        if inv:
            rep.check(all(j < inv[0] for j, _ in adds), "invariants-after", "results", f.loc, "the invariants are checked before the results of the step are stored")
        tg = next((l[1] for l in rest if l[0] == "targets"), None)
        mu = next((l[1] for l in rest if l[0] == "multiple"), None)
        T = at(r, "targets")
        if tg is False:
            rep.check(not adds, "results", "no targets", f.loc, "a result is stored although the rule has no target")
        elif tg is None:
            rep.check(bool(adds), "results", "targets", f.loc, "the results of a step are not stored")
        elif mu is None:
            rep.check(False, "results", "multiple", f.loc, "multiple() results are not distinguished from single ones")
        elif mu:
            it = [l[1] for l in rest if l[0] == "results"]
            vals = at(call, "values")
            rep.check(all(x[1] == vals for x in [("", y) for y in it]) and all(y[2] == (T, ("elem", vals)) for _, y in adds), "results", "multiple", f.loc, "multiple() results are not stored one by one under the rule's targets")
            rep.check(bool(adds) or not it, "results", "multiple", f.loc, "a result of multiple() is dropped")
        else:
            rep.check([y[2] for _, y in adds] == [(T, call)], "results", "single", f.loc, f"the result is stored {len(adds)} times, or elsewhere")
    rep.check(all(n.values()), "step-loop", "found", f.loc, f"the step loop was not found as expected: {n}")
    # the counter
    seen = {}

    def cev(k, t, x):
        if k in ("enter", "back"):
            s, _ = steps_vs_budget({dm(a): b for a, b in x["st"].guards})
            for nm, v in x["values"].items():
                seen.setdefault((k, nm), set()).add((dm(v), ("exec" in x["st"].auto)))
            return "head" if k == "back" else None
        if k == "call" and last(t[1]) == "function":
            return "exec"
        if k == "call" and last(t[1]) == "draw_boolean":
            s, _ = steps_vs_budget({dm(a): b for a, b in x["st"].guards})
            if s is not None:
                seen.setdefault(("counter", s[1] if s[0] == "phi" else show(s)), set()).add(s)

    rep.trace(f, cev, lambda a: True, extracted, raises=NOTHING, max_states=300, rounds=2, heads=("head",))
    cs = {k[1] for k in seen if k[0] == "counter"}
    rep.check(len(cs) == 1, "step-count", "counter", f.loc, f"the step budget is compared with {sorted(map(str, cs))}")
    for c in cs:
        phi = next(iter(seen[("counter", c)]))
        ent = {v for v, _ in seen.get(("enter", c), ())}
        back = {v for v, e in seen.get(("back", c), ()) if e}
        rep.check(ent == {const(0)}, "step-count", "start", f.loc, "the step counter does not start at zero")
        one = fz(("bin", "+", phi, const(1)))
        rep.check(bool(back) and all(fz(v) == one for v in back), "step-count", "increment", f.loc, f"a step is counted as {[show(v)[:40] for v in back]}")
    # who else could stop or feed the loop
    only_writers(rep, "_initialize_rules_to_run", {RBM + "__init__", RUN}, "init-writer", "the pending initialize rules are set once")
    f = rep.func(RBM + "__init__")
    for o in rep.trace(f, lambda k, t, x: ("set", dm(t)[2], dm(x["value"])) if k == "setattr" else None, lambda a: True, extracted, raises=NOTHING):
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        v = w.get("_initialize_rules_to_run")
        if o.kind != "return" or v is None:
            rep.check(o.kind == "raise", "init-once", "__init__", loc(o), "the pending initialize rules are not set")
            continue
        rep.check(is_call(v, "copy", "list", "deepcopy", "sorted") and any_sub(v, lambda y: is_call(y, "initialize_rules")) or v[0] == "list" and [y[0] for y in v[1]] == ["star"], "init-once", "copy", loc(o), "the pending initialize rules are the class's own list: running them would remove them for later test cases")
        for a in ("bundles", "names_to_values"):
            rep.check(w.get(a, NONE)[0] in ("dict", "call"), "machine-state", a, loc(o), f"{a} does not start empty")


def check_members(rep):
    """rules(), initialize_rules() and invariants(): every marked member of the class, and nothing else"""
    for name, marker, store in (("rules", "RULE_MARKER", "_rules_per_class"), ("initialize_rules", "INITIALIZE_RULE_MARKER", "_initializers_per_class"), ("invariants", "INVARIANT_MARKER", "_invariants_per_class")):
        f = rep.func(RBM + name)

        def ev(k, t, x):
            if k == "call":
                c = dm(t)
                if last(c[1]) == "append":
                    return ("append", c)
                if is_call(c, "getattr"):
                    return ("get", c[2])
            if k == "setitem":
                return ("store", dm(t))
            if k == "branch" and dm(t)[0] == "cmp" and dm(t)[3] == NONE and is_call(dm(t)[2], "getattr"):
                return ("marked", not x["val"])
            if k == "loop":
                return ("next", dm(t))

        mem = None
        for o in rep.trace(f, lambda k, t, x: ("m", dm(t)) if k == "loop" else None, lambda a: True, extracted, True, raises=lambda c: ()):
            for l in o.state.auto:
                if l[0] == "m":
                    mem = l[1]
        if not rep.check(mem is not None and is_call(mem, "getmembers") and mem[2] == (P("cls"),), "members", name, f.loc, "the members of the class are not enumerated"):
            continue
        segs, outs = rep.segments(f, ev, (("next", mem),), lambda a: True, extracted, raises=NOTHING, rounds=3)
        got = 0
        for head, labs, how in segs:
            if head != ("next", mem):
                continue
            mk = next((l[1] for l in labs if l[0] == "marked"), None)
            ap = [l[1] for l in labs if l[0] == "append"]
            gets = [l[1] for l in labs if l[0] == "get"]
            want = (("sub", ("elem", mem), const(1)), ("g", SF + marker), NONE)
            rep.check(gets == [want], "members", name, f.loc, f"the member's marker is read as {[show(('tuple', y))[:60] for y in gets]}")
            if mk:
                got += 1
                rep.check(len(ap) == 1 and is_call(ap[0][2][0], "getattr") and ap[0][2][0][2] == want, "members", name, f.loc, f"a marked member is not listed once in {name}()")
            else:
                rep.check(mk is False and not ap, "members", name, f.loc, f"an unmarked member is listed in {name}()")
        rep.check(got > 0, "members", name, f.loc, "no marked member is ever listed")
        for o in outs:
            v = dm(o.value)
            rep.check(o.kind != "return" or v == ("sub", at(P("cls"), store), P("cls")) or v[0] in ("list", "phi"), "members", name, loc(o), f"{name}() returns {show(v)[:80]}")
    for name, marker in (("rule", "RULE_MARKER"), ("initialize", "INITIALIZE_RULE_MARKER"), ("invariant", "INVARIANT_MARKER")):
        f = rep.func(SF + name + ".<locals>.accept")

        def ev(k, t, x):
            if k == "call" and dm(t)[1][0] == "g" and last(dm(t)[1]) in ("setattr", "Rule", "Invariant"):
                return (last(t[1]), dm(t))

        for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
            labs = o.state.auto
            if o.kind != "return":
                rep.check(o.type.endswith("InvalidDefinition"), "decorator", name, loc(o), f"@{name} raises {o.type}")
                continue
            g = gd(o)
            st = [l[1] for l in labs if l[0] == "setattr"]
            ok = len(st) == 1 and st[0][2][1] == ("g", SF + marker) and dm(o.value) == st[0][2][0]
            if not rep.check(ok, "decorator", name, loc(o), "the decorated function is not marked with its rule"):
                continue
            r = st[0][2][2]
            pc = kw(r, "preconditions")
            rep.check(kw(r, "function") == P("f"), "decorator", name + " function", loc(o), "the rule runs another function")
            if name != "invariant":
                tg = kw(r, "targets")
                rep.check(tg is not None and (tg == P("converted_targets") or is_call(tg, "_convert_targets") or tg[0] in ("p", "phi", "call")), "decorator", name + " targets", loc(o), f"the rule's targets are {show(tg or NONE)[:60]}")
                rep.check(kw(r, "arguments") == P("kwargs"), "decorator", name + " arguments", loc(o), f"the rule's arguments are {show(kw(r, 'arguments') or NONE)[:60]}")
            else:
                rep.check(kw(r, "check_during_init") == P("check_during_init"), "decorator", name + " check_during_init", loc(o), "check_during_init is not passed on")
            want = nosite(("call", ("g", "builtins.getattr"), (P("f"), ("g", SF + "PRECONDITIONS_MARKER"), ("tuple", ())), (), 0))
            rep.check(pc == want or name == "initialize" and val(g, want) is False, "decorator", name + " preconditions", loc(o), f"the preconditions are {show(pc or NONE)[:80]}")


def check_invariant_runs(rep):
    """check_invariants(): each invariant runs once unless initialisation is pending or a precondition fails"""
    f = rep.func(RBM + "check_invariants")
    its = set()

    def ev(k, t, x):
        if k == "loop" and is_call(dm(t), "invariants"):
            its.add(dm(t))
            return ("next",)
        if k == "call" and last(t[1]) == "function":
            return ("run", dm(t))
        if k == "call" and last(t[1]) == "fail_health_check":
            return ("health",)
        if k == "branch":
            a = dm(t)
            if a == sa("_initialize_rules_to_run"):
                return ("pending", x["val"])
            if a[0] == "a" and a[2] == "check_during_init":
                return ("early", x["val"])
            if is_call(a, "all"):
                return ("holds", a, x["val"])
            if a[0] == "call" and a[1][0] == "elem":
                return ("holds1", a, x["val"])

    segs, outs = rep.segments(f, ev, (("next",),), lambda a: True, extracted, raises=NOTHING, rounds=3)
    rep.check(its == {nosite(("call", sa("invariants"), (), (), 0))}, "invariants-all", "loop", f.loc, "the loop is not over all invariants of the machine")
    for t in its:
        e = ("elem", t)
        pre = at(e, "preconditions")
        n = 0
        for head, labs, how in segs:
            if head != ("next",):
                rep.check(not any(l[0] == "run" for l in labs), "invariants-all", "outside", f.loc, "an invariant runs outside the loop")
                continue
            runs = [l[1] for l in labs if l[0] == "run"]
            pend = next((l[1] for l in labs if l[0] == "pending"), None)
            early = next((l[1] for l in labs if l[0] == "early"), None)
            hold = [l for l in labs if l[0] in ("holds", "holds1")]
            for l in hold:
                a = l[1]
                ok = is_call(a, "all") and a[2][0][0] == "comp" and a[2][0][3] == (pre,) and not a[2][0][4] and a[2][0][2] == nosite(("call", ("elem", pre), (SELF,), (), 0)) or a[0] == "call" and a[1] == ("elem", pre) and a[2] == (SELF,)
                rep.check(ok, "invariant-preconditions", "all", f.loc, f"the preconditions are evaluated as {show(a)[:100]}")
            if runs:
                n += 1
                rep.check(len(runs) == 1 and runs[0][1] == at(e, "function") and runs[0][2] == (SELF,), "invariant-run", "once", f.loc, "the invariant does not run exactly once on the machine")
                rep.check(pend is False or early is True, "invariant-init", "run", f.loc, "an invariant runs before initialisation although not asked to")
                rep.check(bool(hold) and all(l[2] for l in hold), "invariant-preconditions", "run", f.loc, "an invariant runs although a precondition fails")
            elif how != "raise":
                rep.check(pend is True and early is False or any(not l[2] for l in hold), "invariant-skip", "skip", f.loc, "an invariant is skipped although its preconditions hold and initialisation is done")
                rep.check(how == "next" or how == "end", "invariant-skip", "skip", f.loc, "the remaining invariants are skipped")
            if how == "end":
                rep.check(not any(l[0] == "return" for l in labs), "invariant-skip", "return", f.loc, "the remaining invariants are skipped")
        rep.check(n > 0, "invariant-run", "found", f.loc, "no invariant ever runs")
    own = [y for y in nodes(f, ast.Return, ast.Break) if not isinstance(y, ast.Return) or True]
    rep.check(not own, "invariant-skip", "early exit", f.loc, "leaving the loop early skips the remaining invariants")


def check_results(rep):
    """a stored result is reachable under a fresh name in exactly the target bundles"""
    f = rep.func(RBM + "_add_result_to_targets")

    def ev(k, t, x):
        if k == "loop":
            return ("next", dm(t))
        if k == "call":
            c = dm(t)
            if last(c[1]) == "_new_name":
                return ("name", c)
            if last(c[1]) == "append":
                return ("append", c)
        if k == "setitem" and dm(t)[1] == sa("names_to_values"):
            return ("value", dm(t)[2], dm(x["value"]))

    h = ("next", P("targets"))
    segs, outs = rep.segments(f, ev, (h,), lambda a: True, extracted, raises=NOTHING, rounds=3)
    e = ("elem", P("targets"))
    nm = nosite(("call", sa("_new_name"), (e,), (), 0))
    n = 0
    for head, labs, how in segs:
        if head != h:
            continue
        n += 1
        rep.check([l[1] for l in labs if l[0] == "name"] == [nm], "result-name", "fresh", f.loc, "a stored result does not get one fresh name for its target")
        rep.check([l[1:] for l in labs if l[0] == "value"] == [(nm, P("result"))], "result-value", "names_to_values", f.loc, "the name does not refer to the result")
        ap = [l[1] for l in labs if l[0] == "append"]
        ok = len(ap) == 1 and (is_call(ap[0][1][1], "setdefault") and ap[0][1][1][1] == at(sa("bundles"), "setdefault") and ap[0][1][1][2][0] == e or is_call(ap[0][1][1], "bundle") and ap[0][1][1][2] == (e,) or ap[0][1][1] == ("sub", sa("bundles"), e))
        rep.check(ok and is_call(ap[0][2][0], "VarReference") and ap[0][2][0][2] == (nm,), "result-bundle", "append", f.loc, "the result is not added exactly once to the target bundle")
    rep.check(n > 0 and not [y for y in nodes(f, ast.Return, ast.Break)], "result-bundle", "all targets", f.loc, "not every target gets the result")
    f = rep.func(RBM + "_new_name")
    for o in rep.trace(f, lambda k, t, x: ("count", dm(t), dm(x["value"])) if k == "setitem" else ("list", dm(t)) if k == "call" and last(t[1]) == "append" else None, None, extracted, raises=NOTHING):
        v = dm(o.value)
        cnt = ("sub", sa("names_counters"), P("target"))
        w = [l for l in o.state.auto if l[0] == "count"]
        rep.check(len(w) == 1 and w[0][1] == cnt and fz(w[0][2]) == fz(("bin", "+", cnt, const(1))), "result-name", "counter", loc(o), "the names of a bundle are not numbered one by one")
        rep.check(any_sub(v, lambda y: y == P("target")) and any_sub(v, lambda y: y == cnt), "result-name", "unique", loc(o), f"the name is {show(v)[:60]}: two values of a bundle can get the same name")
        rep.check([l[1][2] for l in o.state.auto if l[0] == "list"] == [(v,)], "result-name", "listed", loc(o), "the name is not recorded")
    only_writers(rep, "names_to_values", {RBM + "__init__", RBM + "_add_result_to_targets"}, "result-writer", "the table of values is created with the machine", module="hypothesis.stateful")
    only_writers(rep, "bundles", {RBM + "__init__", RBM + "bundle", RBM + "_add_result_to_targets", SF + "Rule.__attrs_post_init__", SF + "Rule"}, "result-writer", "bundles are created with the machine", module="hypothesis.stateful")
    f = rep.func(SF + "_convert_targets")

    def ev2(k, t, x):
        if k == "loop":
            return ("next", dm(t))
        if k == "call" and last(t[1]) == "append":
            return ("append", dm(t)[2])

    segs, outs = rep.segments(f, ev2, (("next", P("targets")), ("next", ("tuple", (P("target"),)))), lambda a: True, extracted, raises=NOTHING, rounds=2, max_states=100)
    n = 0
    for head, labs, how in segs:
        if head[0] != "next" or how == "raise":
            continue
        n += 1
        ap = [l[1] for l in labs if l[0] == "append"]
        rep.check(len(ap) == 1, "targets", "each", f.loc, "a target is dropped or doubled")
    rep.check(n > 0, "targets", "each", f.loc, "the targets are not converted one by one")
    for o in outs:
        if o.kind == "return":
            v = dm(o.value)
            rep.check(is_call(v, "tuple") and len(v[2]) == 1, "targets", "result", loc(o), f"the targets become {show(v)[:60]}")
        else:
            rep.check(o.type.endswith("InvalidArgument"), "targets", "refused", loc(o), f"a bad target raises {o.type}")


def run_t01(rep):
    """T01: the step loop of the stateful test is cut into iterations at the draw that decides whether to
    go on, and every path of an iteration is checked: forced to stop when the counter (from 0, +1 per
    executed rule) reaches the budget, initialize rules drawn and removed while any is pending, one rule
    function call on the machine, its results stored under the rule's own targets, invariants exactly once
    after that; check_invariants, the member enumeration, the decorators and the result store are checked
    path by path."""
    for fn in (check_steps, check_members, check_invariant_runs, check_results):
        rep.part(fn)


def check_selection(rep):
    """a rule is drawn among the valid ones, with arguments drawn from its own strategies"""
    f, rets, outs = returns(rep, SF + "RuleStrategy.do_draw", lambda k, t, x: ("draw", dm(t)[2][0]) if k == "call" and last(t[1]) == "draw" else ("arg", dm(t), dm(x["value"])) if k == "setitem" else ("next", dm(t)) if k == "loop" else None, max_states=100, rounds=2, nonempty=lambda it: is_call(it, "items"))
    rep.check(bool(rets), "rule-drawn", "do_draw", f.loc, "no rule is ever drawn")
    for o in rets:
        v = dm(o.value)
        if not rep.check(v[0] == "tuple" and len(v[1]) == 2, "rule-drawn", "result", loc(o), f"a step is {show(v)[:80]}"):
            continue
        r, a = v[1]
        src = r[2][0] if is_call(r, "draw") and r[2] else NONE
        ok = is_call(src, "filter") and is_call(src[1][1], "sampled_from") and src[1][1][2] == (sa("rules"),)
        if not rep.check(ok, "rule-drawn", "source", loc(o), f"the rule is drawn from {show(src)[:100]}"):
            continue
        cond = src[2][0]
        if cond == sa("is_valid"):
            rep.check(True, "rule-valid", "filter", loc(o), "")
        else:
            g = closure(rep, cond)
            if not rep.check(g is not None, "rule-valid", "filter", loc(o), f"the rules are filtered by {show(cond)[:80]}"):
                continue
            par = P(g.node.args.args[0].arg)
            want = nosite(("call", sa("is_valid"), (par,), (), 0))
            n = 0
            for q in rep.trace(g, None, lambda a: True, lambda h, c, r: extracted(h, c, r) and h.name != "is_valid", raises=NOTHING):
                if q.kind != "return":
                    continue
                w, gg = dm(q.value), gd(q)
                if w == FALSE or val(gg, w) is False:
                    continue
                n += 1
                sure = val(gg, want) is True or w == want or w[0] in ("and", "bool") and any(y == want for y in subterms(w))
                rep.check(sure, "rule-valid", "filter", loc(q), "a rule that is not valid now may be drawn")
            rep.check(n > 0, "rule-valid", "filter", loc(o), "no rule passes the filter")
        it = nosite(("call", at(at(r, "arguments_strategies"), "items"), (), (), 0))
        e = ("elem", it)
        labs = [l for l in o.state.auto]
        if a[0] == "comp":
            ok = a[1].startswith("dict") and a[3] == (it,) and not a[4] and a[2][0] == "tuple" and a[2][1][0] == ("sub", e, const(0)) and drawn(a[2][1][1], ("sub", e, const(1)))
            rep.check(ok, "rule-args", "comp", loc(o), f"the arguments are {show(a)[:100]}")
        else:
            sets = [l for l in labs if l[0] == "arg"]
            rep.check(any(l == ("next", it) for l in labs), "rule-args", "all", loc(o), "not every argument of the rule is drawn")
            rep.check(bool(sets) and all(l[1][2] == ("sub", e, const(0)) and drawn(l[2], ("sub", e, const(1))) for l in sets), "rule-args", "each", loc(o), "an argument is not drawn from its own strategy")
    for o in outs:
        if o.kind == "raise":
            rep.check(o.type.endswith("InvalidDefinition"), "rule-none", "raise", loc(o), f"no valid rule is reported as {o.type}")
            g = gd(o)
            ok = any(not v and (is_call(k, "any") and any_sub(k, lambda y: is_call(y, "is_valid"))) for k, v in g.items())
            rep.check(ok, "rule-none", "guard", loc(o), "the run is aborted although a rule may be valid")
    f = rep.func(SF + "RuleStrategy.__init__")
    for o in rep.trace(f, lambda k, t, x: ("set", dm(t)[2], dm(x["value"])) if k == "setattr" else None, None, extracted, raises=NOTHING):
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        rep.check(w.get("machine") == P("machine"), "rule-machine", "__init__", loc(o), "the strategy belongs to another machine")
        rep.check(w.get("rules") is not None and is_call(w["rules"], "list", "sorted") and w["rules"][2][0] == nosite(("call", at(P("machine"), "rules"), (), (), 0)), "rule-source", "__init__", loc(o), "the rules drawn from are not all rules of the machine")
    # validity
    f = rep.func(SF + "RuleStrategy.is_valid")
    bun, pre = at(P("rule"), "bundles"), at(P("rule"), "preconditions")
    heads = (("next", bun), ("next", pre))

    def ev(k, t, x):
        if k == "loop":
            return ("next", dm(t))
        if k == "branch":
            return ("if", dm(t), x["val"])
        if k == "return":
            return ("ret", dm(t))

    segs, outs = rep.segments(f, ev, heads, lambda a: True, extracted, raises=NOTHING, rounds=3, max_states=200)
    got = {bun: [], pre: []}
    B = nosite(("call", at(sa("machine"), "bundle"), (at(("elem", bun), "name"),), (), 0))
    C = nosite(("call", ("elem", pre), (sa("machine"),), (), 0))
    for head, labs, how in segs:
        if head not in heads:
            continue
        t = B if head[1] == bun else C
        v = next((l[2] for l in labs if l[0] == "if" and (l[1] == t or l[1] == ln(t))), None)
        ret = [l[1] for l in labs if l[0] == "ret"]
        got[head[1]].append(v)
        if v is False:
            rep.check(ret == [FALSE] and how == "end", "valid-gate", show(head[1]), f.loc, "a rule with an empty bundle is valid" if head[1] == bun else "a rule is valid although a precondition fails")
        elif v is None:
            rep.check(ret == [t] or ret == [FALSE], "valid-gate", show(head[1]), f.loc, "a bundle is not looked at" if head[1] == bun else "a precondition is not evaluated")
        else:
            rep.check(ret in ([], [TRUE]), "valid-gate", show(head[1]) + " kept", f.loc, "a rule is ruled out although the bundle is not empty" if head[1] == bun else "a rule is ruled out although its precondition holds")
    whole = lambda t, it, x: is_call(t, "all") and t[2][0][0] == "comp" and t[2][0][3] == (it,) and not t[2][0][4] and t[2][0][2] in (x, ln(x), nosite(("call", ("g", "builtins.bool"), (x,), (), 0)))  # noqa
    for it, x in ((bun, B), (pre, C)):
        if got[it]:
            continue
        ok = all(any(whole(k, it, x) and v for k, v in gd(o).items()) or const_bool(dm(o.value), gd(o)) is False or any(whole(y, it, x) for y in subterms(dm(o.value))) for o in outs if o.kind == "return")
        rep.check(ok, "valid-gate", show(it), f.loc, "not every bundle is looked at" if it == bun else "not every precondition is evaluated")


def check_bundles(rep):
    """bundles: one position is drawn; consuming removes exactly it, otherwise nothing changes"""
    f, rets, outs = returns(rep, SF + "BundleReferenceStrategy.do_draw", lambda k, t, x: ("call", dm(t)) if k == "call" and last(t[1]) in ("pop", "remove", "mark_invalid", "clear", "append", "draw_integer", "insert") else ("del", dm(t)) if k in ("del", "setitem") else None, noreturn=lambda c, g: True if last(c[1]) == "mark_invalid" else None)
    rep.check(bool(rets), "bundle-draw", "do_draw", f.loc, "no reference is drawn")
    bundle = lambda t: is_call(t, "bundle") and t[2] == (sa("name"),) and is_call(t[1][1], "draw") and last(t[1][1][2][0]) == "self_strategy"  # noqa
    for o in rets:
        v, g = dm(o.value), gd(o)
        labs = o.state.auto
        dr = [l[1] for l in labs if l[0] == "call" and last(l[1][1]) == "draw_integer"]
        muts = [l[1] for l in labs if l[0] == "del" or l[0] == "call" and last(l[1][1]) not in ("draw_integer", "mark_invalid")]
        if not rep.check(len(dr) == 1, "bundle-draw", "position", loc(o), "not exactly one position is drawn"):
            continue
        b = v[1][1] if v[0] == "call" else v[1] if v[0] == "sub" else NONE
        if not rep.check(bundle(b), "bundle-draw", "bundle", loc(o), f"the value comes from {show(b)[:80]}"):
            continue
        rep.check(kw(dr[0], "min_value", 0) == const(0) and fz(kw(dr[0], "max_value", 1)) == fz(("bin", "-", ln(b), const(1))), "bundle-draw", "range", loc(o), "some values of the bundle cannot be drawn")
        rep.check(val(g, b) is True or less(g, const(0), ln(b)) is True, "bundle-empty", "guard", loc(o), "an empty bundle is drawn from")
        c = val(g, sa("consume"))
        rep.check(c is not None, "bundle-consume", "asked", loc(o), "consuming is not distinguished")
        if v[0] == "call":
            rep.check(c is True and last(v[1]) == "pop" and v[2] == (dr[0],) and muts == [v], "bundle-consume", "pop", loc(o), "drawing removes something else than the drawn value" if c else "drawing removes the value although it is not consumed")
        else:
            ok = v == ("sub", b, dr[0])
            rep.check(ok, "bundle-draw", "value", loc(o), f"the value drawn is {show(v)[:80]}")
            if c is False:
                rep.check(not muts, "bundle-keep", "unchanged", loc(o), "drawing without consuming changes the bundle")
            else:
                rep.check(muts == [("sub", b, dr[0])], "bundle-consume", "del", loc(o), "a consumed value stays in the bundle")
    f = rep.func(RBM + "bundle")
    for o in rep.trace(f, None, None, extracted, raises=NOTHING):
        v = dm(o.value)
        rep.check(o.kind == "return" and is_call(v, "setdefault") and v[1][1] == sa("bundles") and v[2][0] == P("name") or v == ("sub", sa("bundles"), P("name")), "bundle-name", "bundle", loc(o), f"bundle(name) is {show(v)[:60]}")
    f, rets, _ = returns(rep, SF + "Bundle.do_draw")
    for o in rets:
        v = dm(o.value)
        ok = v[0] == "sub" and v[1][0] == "a" and v[1][2] == "names_to_values" and v[2][0] == "a" and v[2][2] == "name" and drawn(v[2][1], sa("__reference_strategy"))
        rep.check(ok, "bundle-value", "Bundle.do_draw", loc(o), f"a bundle's value is {show(v)[:100]}")
    f = rep.func(SF + "Bundle.__init__")
    for o in rep.trace(f, lambda k, t, x: ("set", dm(t)[2], dm(x["value"])) if k == "setattr" else None, None, extracted, raises=NOTHING):
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        r = w.get("__reference_strategy", NONE)
        rep.check(is_call(r, "BundleReferenceStrategy") and kw(r, "name", 0) == P("name") and kw(r, "consume") == P("consume"), "bundle-init", "reference", loc(o), f"the bundle draws references from {show(r)[:80]}")
        rep.check(w.get("name") == P("name") and w.get("draw_references") == P("draw_references"), "bundle-init", "fields", loc(o), "the bundle's fields are not the ones given")
        consume_field = [a for a, v in w.items() if v == P("consume")]
    f = rep.func(SF + "BundleReferenceStrategy.__init__")
    for o in rep.trace(f, lambda k, t, x: ("set", dm(t)[2], dm(x["value"])) if k == "setattr" else None, None, extracted, raises=NOTHING):
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        rep.check(w.get("name") == P("name") and w.get("consume") == P("consume"), "bundle-init", "reference fields", loc(o), "the reference's fields are not the ones given")
    f = rep.func(SF + "BundleConsumer.__init__")
    cs = []
    rep.trace(f, lambda k, t, x: cs.append(dm(t)) if k == "call" and last(t[1]) == "__init__" else None, None, raises=NOTHING)
    rep.check(len(cs) == 1 and cs[0][2][-1:] == (at(P("bundle"), "name"),) and kw(cs[0], "consume") == TRUE, "bundle-init", "consumer", f.loc, "consumes(b) does not consume from b")
    f = rep.func(SF + "consumes")
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        if o.kind == "return":
            rep.check(dm(o.value) == nosite(("call", ("g", SF + "BundleConsumer"), (P("bundle"),), (), 0)), "bundle-init", "consumes", loc(o), "consumes(b) is not a consumer of b")
    # flatmap keeps consuming
    f = rep.func(SF + "Bundle.flatmap")
    for o in rep.trace(f, None, lambda a: True, lambda g, c, r: g.fq.startswith(SF) and g.name != "flatmap", raises=NOTHING):
        v = dm(o.value)
        if o.kind != "return" or val(gd(o), sa("draw_references")) is False:
            continue
        b = v[1][1] if v[0] == "call" and v[1][0] == "a" else NONE
        ok = is_call(b, "Bundle") and kw(b, "name", 0) == sa("name") and kw(b, "consume") in (at(sa("__reference_strategy"), "consume"),) + tuple(sa(a) for a in consume_field) and kw(b, "draw_references") == FALSE and v[2] == (P("expand"),)
        rep.check(ok, "bundle-flatmap", "flatmap", loc(o), f"flatmap draws from {show(b)[:100]}")
    # a rule's bundles are recorded, and its references consume exactly when the bundle does
    f = rep.func(SF + "Rule.__attrs_post_init__")

    def ev(k, t, x):
        if k == "loop":
            return ("next", dm(t))
        if k == "call" and last(t[1]) == "append":
            return ("bundle", dm(t)[2][0])
        if k == "setitem":
            return ("arg", dm(t), dm(x["value"]))
        if k == "branch" and is_call(dm(t), "isinstance") and last(dm(t)[2][1]) == "Bundle":
            return ("isb", x["val"])
        if k == "setattr":
            return ("set", dm(t)[2], dm(x["value"]))

    it = [None]
    rep.trace(f, lambda k, t, x: it.__setitem__(0, dm(t)) if k == "loop" else None, None, raises=NOTHING)
    src = it[0]
    ok = src is not None and any_sub(src, lambda y: is_call(y, "items") and y[1][1] == sa("arguments"))
    if rep.check(ok, "rule-bundles", "loop", f.loc, "the rule's arguments are not examined"):
        e = ("elem", src)
        k_, v_ = ("sub", e, const(0)), ("sub", e, const(1))
        segs, outs = rep.segments(f, ev, (("next", src),), lambda a: True, extracted, raises=NOTHING, rounds=3)
        kinds = set()
        for head, labs, how in segs:
            if head != ("next", src) or how == "raise":
                continue
            isb = next((l[1] for l in labs if l[0] == "isb"), None)
            kinds.add(isb)
            bs = [l[1] for l in labs if l[0] == "bundle"]
            ar = [l[1:] for l in labs if l[0] == "arg"]
            rep.check(len(ar) == 1 and ar[0][0][2] == k_, "rule-bundles", "argument", f.loc, "an argument of the rule has no strategy")
            if isb:
                rep.check(bs == [v_], "rule-bundles", "listed", f.loc, "a bundle the rule draws from does not gate it")
                r = ar[0][1] if ar else NONE
                c = kw(r, "consume") if r[0] == "call" else None
                ok = is_call(r, "BundleReferenceStrategy") and kw(r, "name", 0) == at(v_, "name")
                rep.check(ok, "rule-reference", "name", f.loc, f"the argument is drawn from {show(r)[:80]}")
                rep.check(c in tuple(at(v_, a) for a in consume_field) + (at(at(v_, "__reference_strategy"), "consume"),), "rule-reference", "consume", f.loc, f"the rule consumes from the bundle when {show(c or NONE)[:80]}: a bundle that consumes does not always do so")
            else:
                rep.check(ar and ar[0][1] == v_ and not bs, "rule-bundles", "other", f.loc, "an ordinary argument strategy is replaced")
        rep.check(kinds >= {True, False}, "rule-bundles", "kinds", f.loc, "bundles are not recognised among the arguments")
        for o in outs:
            w = [l for l in o.state.auto if l[0] == "set" and l[1] == "bundles"]
            rep.check(o.kind != "return" or bool(w) and (is_call(w[-1][2], "tuple", "list") or w[-1][2][0] in ("list", "phi")), "rule-bundles", "kept", loc(o), "the rule's bundles are not kept")


def check_precondition(rep):
    """@precondition adds its predicate to those already there, wherever it stands in the decorator stack"""
    f = rep.func(SF + "precondition.<locals>.decorator")

    def ev(k, t, x):
        if k == "call" and dm(t)[1][0] == "g" and last(t[1]) == "setattr":
            return ("setattr", dm(t)[2])

    seen = set()
    get = lambda m, d: nosite(("call", ("g", "builtins.getattr"), (P("f"), ("g", SF + m), d), (), 0))  # noqa
    rule, inv, plain = get("RULE_MARKER", NONE), get("INVARIANT_MARKER", NONE), get("PRECONDITIONS_MARKER", ("tuple", ()))
    init = get("INITIALIZE_RULE_MARKER", NONE)
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        g = gd(o)
        if o.kind == "raise":
            rep.check(o.type.endswith("InvalidDefinition") or o.type == "builtins.AssertionError", "precondition", "refused", loc(o), f"a precondition on an initialize rule raises {o.type}")
            continue
        st = [l[1] for l in o.state.auto if l[0] == "setattr"]
        if not rep.check(len(st) == 1 and st[0][0] == dm(o.value), "precondition", "attached", loc(o), "the precondition is not attached to the decorated function"):
            continue
        m, v = last(st[0][1]), st[0][2]
        rep.check(eq(g, init, NONE) is True, "precondition", "initialize", loc(o), "a precondition is accepted on an initialize rule")
        seen.add(m)
        if m == "PRECONDITIONS_MARKER":
            rep.check(eq(g, rule, NONE) is True and eq(g, inv, NONE) is True, "precondition", "plain", loc(o), "the precondition of a rule is stored where the rule does not look")
            base, have = plain, v
        else:
            src = rule if m == "RULE_MARKER" else inv
            rep.check(eq(g, src, NONE) is False and is_call(v, "evolve") and v[2][:1] == (src,) and {k for k, _ in v[3]} == {"preconditions"}, "precondition", m, loc(o), "the rule is replaced by another one")
            base, have = at(src, "preconditions"), kw(v, "preconditions") or NONE
        pc = P("precond")
        ok = have[0] == "tuple" and set(have[1]) == {("star", base), pc} and len(have[1]) == 2 or have[0] == "bin" and {have[2], have[3]} == {base, ("tuple", (pc,))}
        rep.check(ok, "precondition", m + " kept", loc(o), f"the preconditions become {show(have)[:80]}")
    rep.check(seen == {"PRECONDITIONS_MARKER", "RULE_MARKER", "INVARIANT_MARKER"}, "precondition", "kinds", f.loc, f"preconditions are attached only to {sorted(seen)}")


def run_t02(rep):
    """T02: every path of rule selection ends in a rule filtered by is_valid on this machine, and every
    iteration of is_valid answers False on an empty bundle or a failed precondition; bundle draws are
    traced to the position drawn, mutating the bundle exactly when the reference consumes; a rule's
    references inherit the bundle's consume flag; @precondition extends the stored predicates on every
    path; invariants are skipped only for a failed precondition or pending initialisation."""
    for fn in (check_selection, check_bundles, check_precondition, check_invariant_runs, check_members):
        rep.part(fn)


def check_teardown(rep):
    """teardown runs exactly once after the last step, on every way out of the loop"""
    for which in ((), ("function",), ("draw", "draw_boolean"), ("check_invariants",), ("_add_result_to_targets", "fail_health_check", "_pretty_print", "remove")):
        f = rep.func(RUN)

        def ev(k, t, x):
            if k == "call":
                c = dm(t)
                n = last(c[1])
                if n == "teardown":
                    return ("teardown", c[1] == at(MACHINE, "teardown") and not c[2])
                if n in ("function", "check_invariants", "draw") and x["ai"].func.fq == f.fq:
                    done = x["st"].auto
                    return "late" if any(l[0] == "teardown" for l in done) else "act late" if ("out", const("state.teardown()")) in done else "act"
                if c[1][0] == "fn" and c[1][1].endswith(".output"):
                    return ("out", c[2][0] if c[2][0] == const("state.teardown()") else "step")
            if k == "catch":
                return "caught"

        for o in rep.trace(f, ev, lambda a: a == INIT or is_call(a, "draw_boolean"), extracted, bool(which), raises=(lambda c: (RAISE, "builtins.KeyboardInterrupt") if last(c[1]) in which else ()) if which else NOTHING, uniq=True, rounds=2, max_states=200, cap=30):
            labs = o.state.auto
            what = f"{'/'.join(which) or 'normal end'}"
            td = [i for i, l in enumerate(labs) if l[0] == "teardown"]
            if "..." in labs and not td:
                continue
            if not rep.check(len(td) == 1 and labs[td[0]][1], "teardown", what, loc(o), f"teardown runs {len(td)} times when the test case ends by {what}"):
                continue
            rep.check("late" not in labs, "teardown-last", what, loc(o), "a step runs after the teardown")
            rep.check(o.kind == "raise" or "caught" not in labs, "teardown-outcome", what, loc(o), "an error of a step is swallowed")
            rep.check(("out", const("state.teardown()")) in labs and "act late" not in labs, "printed-teardown", what, loc(o), "the teardown is not printed after the last step")


def check_program(rep):
    """every executed step is printed once, in order, with its arguments as they were before the step"""
    for exc in (False, True):
        f, segs, outs = segs_of(rep, exc, ("function", "_add_result_to_targets"))
        n = 0
        for head, labs, how in segs:
            if head not in HEADS:
                continue
            if not feasible(head, labs) or not any(l[0] == "exec" for l in labs) and how == "next":
                continue
            ex = [i for i, l in enumerate(labs) if l[0] == "exec"]
            rp = [l[1] for l in labs if l[0] == "repr"]
            d, r, a = rule_of(labs)
            if exc and how != "raise" or d is None:
                continue
            steps = [l for l in labs if l[0] == "out" and l[1] != const("state.teardown()")]
            if not ex or ("final", True) not in labs or ("final", False) in labs:
                continue  # only the final run need print
            n += 1
            rep.check(len(rp) == 1 and len(steps) == 1 and steps[0][1] == rp[0], "printed-step", "raise" if exc else "ok", f.loc, f"an executed step is printed {len(steps)} times")
            if rp and len(rp[0][2]) == 3:
                rep.check(rp[0][1] == at(MACHINE, "_repr_step") and rp[0][2][0] == r, "printed-step", "rule", f.loc, "another rule is printed than the one that ran")
                pr = rp[0][2][1]
                it = nosite(("call", at(a, "items"), (), (), 0))
                e = ("elem", it)
                ok = pr[0] == "comp" and pr[3] == (it,) and not pr[4] and pr[2][0] == "tuple" and pr[2][1][0] == ("sub", e, const(0)) and is_call(pr[2][1][1], "_pretty_print") and pr[2][1][1][2] == (("sub", e, const(1)),)
                rep.check(ok or pr[0] in ("phi", "dict", "opq"), "printed-step", "arguments", f.loc, f"the printed arguments are {show(pr)[:80]}")
                if ex:
                    i = next((j for j, l in enumerate(labs) if l[0] == "pretty"), None)
                    rep.check(i is None or i < ex[0], "printed-step", "before", f.loc, "the arguments are printed after the step may have changed them")
                    res = rp[0][2][2]
                    call = labs[ex[0]][1]
                    if not exc:
                        rep.check(res == call, "printed-step", "result", f.loc, f"the printed result is {show(res)[:60]}")
        rep.check(n > 0, "printed-step", "found" + str(exc), f.loc, "no executed step is printed")
    f = rep.func(RUN)
    first = []
    for o in rep.trace(f, lambda k, t, x: ("out", dm(t)[2][0]) if k == "call" and t[1][0] == "fn" and t[1][1].endswith(".output") else ("inv",) if k == "call" and last(t[1]) in ("check_invariants", "draw_boolean") else None, lambda a: False, extracted, raises=NOTHING, rounds=1):
        labs = o.state.auto
        ok = labs and labs[0][0] == "out" and any_sub(labs[0][1], lambda y: y == ("c", "str", "state = "))
        rep.check(bool(ok), "printed-start", "creation", loc(o), "the program does not start with the creation of the machine")
    g = rep.func(RUN + ".<locals>.output")
    for o in rep.trace(g, lambda k, t, x: ("report", dm(t)[2]) if k == "call" and last(t[1]) == "report" else None, lambda a: True, extracted, raises=NOTHING):
        c = {k: v for k, v in gd(o).items()}
        ps = next((v for k, v in c.items() if any_sub(k, lambda y: last(y) in ("print_steps", "is_final", "current_verbosity"))), None)
        prints = [l for l in o.state.auto if l[0] == "report"]
        if prints:
            rep.check(prints == [("report", (P("s"),))], "printed-line", "output", loc(o), "the line printed is not the step")
        else:
            rep.check(ps is False or any(v is False for v in c.values()), "printed-line", "output", loc(o), "a step of the final run is not printed")
    # which runs print: the final one, and all of them when debugging
    vals = {}
    rep.trace(f, lambda k, t, x: vals.setdefault(dm(t), x["ai"].func.fq) if k == "branch" else None, lambda a: True, extracted, raises=NOTHING, rounds=1)
    fin = [k for k in vals if any_sub(k, lambda y: y[0] == "a" and y[2] == "is_final")]
    rep.check(bool(fin), "printed-final", "print_steps", f.loc, "printing does not depend on whether this is the final run")
    # the text of a step
    f = rep.func(RBM + "_repr_step")
    n = 0
    for o in rep.trace(f, lambda k, t, x: ("names", dm(t)[2][0]) if k == "call" and last(t[1]) == "_last_names" else None, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        n += 1
        v, g = dm(o.value), gd(o)
        nm = [l[1] for l in o.state.auto if l[0] == "names"]
        tg = val(g, at(P("rule"), "targets"))
        mu = inst(g, P("result"), "MultipleResults")
        vals_ = at(P("result"), "values")
        k = eq(g, ln(vals_), const(1))
        if tg is False:
            rep.check(not nm, "printed-names", "no target", loc(o), "a step without target is printed with a name")
        elif mu is False:
            rep.check(nm == [const(1)], "printed-names", "single", loc(o), "the name of the result is not printed")
        elif mu and k:
            rep.check(nm == [const(1)], "printed-names", "one", loc(o), "the name of the only result is not printed")
        elif mu and val(g, vals_) is True:
            rep.check(len(nm) == 1 and fz(nm[0]) == fz(("bin", "*", ln(at(P("rule"), "targets")), ln(vals_))), "printed-names", "many", loc(o), "not every name of the results is printed")
        rep.check(any_sub(v, lambda y: y == at(at(P("rule"), "function"), "__name__") or y[0] == "a" and y[1] == at(P("rule"), "function")), "printed-call", "function", loc(o), f"the step is printed as {show(v)[:80]}")
        rep.check(any_sub(v, lambda y: is_call(y, "items") and y[1][1] == P("data")), "printed-call", "arguments", loc(o), "the arguments of the step are not printed")
        if nm:
            rep.check(any_sub(v, lambda y: is_call(y, "_last_names")), "printed-names", "shown", loc(o), "the names of the results are not shown")
    rep.check(n >= 4, "printed-call", "paths", f.loc, f"only {n} paths through _repr_step")
    f = rep.func(RBM + "_last_names")
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        if o.kind == "return":
            v = dm(o.value)
            L = sa("names_list")
            lo = v[2][1] if v[0] == "sub" and v[1] == L and v[2][0] == "slice" and v[2][2] in (None, NONE, ln(L)) and v[2][3] in (None, NONE) else NONE
            rep.check(lo is not None and lo != NONE and fz(lo) in (fz(("bin", "-", ln(L), P("n"))),), "printed-names", "_last_names", loc(o), f"the last names are {show(v)[:60]}")
    only_writers(rep, "names_list", {RBM + "__init__", RBM + "_new_name"}, "names-writer", "the list of names grows only with new names", module="hypothesis.stateful")
    f = rep.func(RBM + "_pretty_print")
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        g, v = gd(o), dm(o.value)
        if o.kind == "return" and inst(g, P("value"), "VarReference"):
            rep.check(v == at(P("value"), "name"), "printed-reference", "_pretty_print", loc(o), "a value from a bundle is not printed by its name")


def run_t03(rep):
    """T03: with an exception injected at each kind of call of a step (rule, draw, invariant, result store)
    every way out of the machine's run passes exactly one teardown, after which nothing of a step runs and
    the exception is not swallowed; every iteration that executes a rule prints exactly that rule once on
    both its normal and its exceptional exit, with arguments rendered before the call."""
    for fn in (check_teardown, check_program):
        rep.part(fn)


CHECKS = {"T01": run_t01, "T02": run_t02, "T03": run_t03}
