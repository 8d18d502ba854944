"""Run-level bookkeeping of the engine: E05 (saving and deleting examples), E06 (monotone
acceptance while shrinking), E10 (targeting)."""
from __future__ import annotations

from ..lib import *

R = "hypothesis.internal.conjecture.engine.ConjectureRunner."
SH = "hypothesis.internal.conjecture.shrinker.Shrinker."
ST = ["OVERRUN", "INVALID", "VALID", "INTERESTING"]


def statuses(gs, base=None):
    """the statuses compatible with the path conditions on `<base>.status`"""
    ok = set(ST)
    for a, v in gs.items():
        if a[0] != "cmp":
            continue
        op, l, r = a[1:]
        flip = False
        if r[0] == "a" and r[2] == "status" and l[0] == "g":
            l, r, flip = r, l, True
        if not (l[0] == "a" and l[2] == "status" and r[0] == "g" and r[1].rsplit(".", 1)[-1] in ST):
            if op == "in" and l[0] == "a" and l[2] == "status" and r[0] in ("tuple", "set", "list") and (base is None or nosite(l[1]) == nosite(base)):
                names = {x[1].rsplit(".", 1)[-1] for x in r[1] if x[0] == "g"}
                ok &= names if v else set(ST) - names
            continue
        if base is not None and nosite(l[1]) != nosite(base):
            continue
        i = ST.index(r[1].rsplit(".", 1)[-1])
        if op == "==":
            sel = {ST[i]}
        elif op == "<":
            sel = set(ST[i + 1:]) if flip else set(ST[:i])
        else:
            continue
        ok &= sel if v else set(ST) - sel
    return ok


def skey(t):
    return is_call(t, "sort_key")


def smaller(gs, old, new):
    """a path condition says sort_key(new) < sort_key(old)"""
    return any(v and k[0] == "cmp" and k[1] == "<" and skey(k[2]) and skey(k[3]) and new(k[2]) and old(k[3]) for k, v in gs.items())


def root_of(t):
    """X for X.choices / X.as_result() / X"""
    while True:
        if t[0] == "a" and t[2] in ("choices", "nodes", "interesting_origin", "target_observations"):
            t = t[1]
        elif is_call(t, "as_result") and t[1][0] == "a":
            t = t[1][1]
        else:
            return nosite(t)


def adoption(rep):
    """facts about ConjectureRunner.test_function shared by E05 and E06: one record per adopted example"""
    f = rep.func(R + "test_function")

    def ev(k, t, x):
        if k == "call":
            n = last(t[1])
            if n == "save_choices" and arg(t, 1, "sub_key") in (None, NONE):
                return "save:" + show(root_of(arg(t, 0, "choices") or NONE))
            if n == "downgrade_choices" and any_sub(t, lambda y: y[0] == "a" and y[2] == "interesting_examples"):
                return "downgrade"
            if n == "exit_with":
                return "exit"
        if k == "setitem" and t[1][0] == "a" and t[1][2] == "interesting_examples":
            return "adopt:" + show(root_of(x["value"]))
        if k == "catch" and any("KeyError" in str(y) for y in t[1]):
            return "missing"
        return None

    def rel(a):
        return (mentions(a, "status") and (mentions(a, "INTERESTING") or mentions(a, "VALID")) or any_sub(a, skey)
                or a[0] == "cmp" and any_sub(a, lambda y: y[0] == "a" and y[2] == "interesting_examples") or mentions(a, "using_hypothesis_backend"))

    def m(k, t, x):
        return "adopt" if k == "setitem" and t[1][0] == "a" and t[1][2] == "interesting_examples" else None

    sites, outs = rep.sites(f, m, rel, None, exc=True, ev=ev, raises=lambda c: (), prune=rel)
    return f, sites, outs


def new_path(gs, auto):
    if "missing" in auto:
        return True
    for k, v in gs.items():
        if k[0] == "cmp" and any_sub(k, lambda y: y[0] == "a" and y[2] == "interesting_examples"):
            if k[1] == "in" and v is False or k[1] == "is" and k[3] == NONE and v is True:
                return True
    return False


def check_saving(rep):
    """Every path of the test function that adopts an interesting example must have saved it first; every
    deletion from the database is traced to an example that was replayed and found not interesting (or
    undecodable) on that path, and to the key it was fetched from."""
    f, sites, outs = adoption(rep)
    rep.check(bool(sites), "adoption-found", "test_function", f.loc, "failing examples are never recorded")
    n = 0
    for o in outs:
        a = o.state.auto
        adopted = [i for i, x in enumerate(a) if x.startswith("adopt:")]
        if not adopted:
            continue
        n += 1
        i = adopted[0]
        who = a[i][6:]
        save = [j for j, x in enumerate(a) if x == "save:" + who]
        rep.check(bool(save), "saved-on-discovery", "test_function", loc(o), f"a new best failing example ({who}) is not saved under the primary key")
        if save:
            stop = [j for j, x in enumerate(a) if x == "exit" and j > min(i, save[0])]
            rep.check(not stop or stop[0] > save[0], "saved-before-stop", "test_function", loc(o), "the run can stop between finding a failing example and saving it")
        if not new_path(guards(o), a):
            rep.check("downgrade" in a, "displaced-kept", "test_function", loc(o), "a displaced failing example is not kept as a secondary example")
            if "downgrade" in a:
                rep.check(a.index("downgrade") < i, "downgrade-first", "test_function", loc(o), "the displaced example is looked up after it has been replaced")
    rep.check(n > 0, "adoption-found", "test_function:paths", f.loc, "no path adopts a failing example")
    # aborting errors
    stop = lambda c: last(c[1]) in ("_ConjectureRunner__stoppable_test_function", "__stoppable_test_function", "_test_function")  # noqa
    for t in ("pseudo.User", "hypothesis.errors.StopTest", "pseudo.Base", "builtins.SystemExit"):
        for o in rep.matrix(f, stop, [t], lambda k, tt, x: "save:" + show(root_of(arg(tt, 0, "choices") or NONE)) if k == "call" and last(tt[1]) == "save_choices" and arg(tt, 1, "sub_key") in (None, NONE) else None, inline=lambda g, c, r: False, relevant=lambda a: False, prune=lambda a: False)[t]:
            if o.kind == "raise" and o.type == "builtins.AssertionError":
                continue
            rep.check("save:data" in o.state.auto or any(x.startswith("save:") for x in o.state.auto), "saved-on-abort", f"test_function:{t.rsplit('.', 1)[-1]}", loc(o), "an error that aborts the run leaves no saved example")
    # the primitives
    sv = rep.func(R + "save_choices")

    def dbev(k, t, x):
        if k == "call" and last(t[1]) in ("save", "move", "delete", "fetch") and t[1][0] == "a" and mentions(t[1][1], "database"):
            return last(t[1]) + "(" + ", ".join(key_name(y) for y in t[2]) + ")"

    nodb = lambda g: any(v and k[0] == "cmp" and k[1] == "is" and k[3] == NONE and (mentions(k, "database") or mentions(k, "database_key") or any_sub(k, lambda y: is_call(y, "sub_key"))) for k, v in g.items())  # noqa
    for o in rep.trace(sv, dbev, lambda a: True, same_class):
        want = [x for x in o.state.auto if x.startswith("save(")]
        rep.check(bool(want) or nodb(guards(o)) or o.kind != "return", "save-writes", "save_choices", loc(o), "save_choices returns without saving although a database and key are configured")
        for x in want:
            rep.check(x.endswith(", bytes:choices)"), "save-encodes", "save_choices", loc(o), f"the wrong bytes are saved: {x}")
    got = [x for o in rep.trace(sv, dbev, lambda a: True, same_class) for x in o.state.auto]
    rep.check(any(x.startswith("save(") for x in got), "save-writes", "save_choices:live", sv.loc, "save_choices never saves")
    sites, _ = rep.sites(sv, lambda k, t, x: "save" if k == "call" and last(t[1]) == "save" and t[1][0] == "a" and mentions(t[1][1], "database") else None, None, same_class)
    for s in sites:
        k = arg(s.term, 0, "key")
        rep.check(k is not None and not (k[0] == "c"), "save-key", "save_choices", s.loc, f"saved under {show(k) if k else None}")
        rep.check(is_call(arg(s.term, 1, "value") or NONE, "choices_to_bytes"), "save-encodes", "save_choices", s.loc, "the saved bytes are not the encoded choices")
    dg = rep.func(R + "downgrade_choices")
    for o in rep.trace(dg, dbev, lambda a: True):
        mv = [x for x in o.state.auto if x.startswith("move(")]
        rep.check(mv == ["move(primary, secondary, bytes:choices)"] or {"save(secondary, bytes:choices)", "delete(primary, bytes:choices)"} <= set(o.state.auto)
                  or nodb(guards(o)), "displaced-kept", "downgrade_choices", loc(o), f"a displaced example is not moved from the primary to the secondary key: {o.state.auto}")
    rep.check(any("move(" in x or "save(" in x for o in rep.trace(dg, dbev, lambda a: True) for x in o.state.auto), "displaced-kept", "downgrade_choices:live", dg.loc, "downgrade_choices never moves anything")
    # keys
    sk = rep.func(R + "sub_key")
    for o in rep.trace(sk, None, lambda a: True):
        if o.kind != "return":
            continue
        g = guards(o)
        dk = [v for k, v in g.items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and mentions(k, "database_key")]
        ks = [v for k, v in g.items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and k[2] == ("p", "sub_key")]
        ks += [not v for k, v in g.items() if k == ("p", "sub_key")]
        if dk == [True]:
            rep.check(o.value == NONE, "sub-key", "sub_key:no key", loc(o), "a sub key is derived although there is no database key")
        elif ks and ks[0]:
            rep.check(self_attr(o.value, "database_key"), "sub-key", "sub_key:primary", loc(o), f"the primary key is {show(o.value)}")
        else:
            rep.check(any_sub(o.value, lambda y: self_attr(y, "database_key")) and any_sub(o.value, lambda y: y == ("p", "sub_key")), "sub-key", "sub_key:derived", loc(o), f"the derived key {show(o.value)} does not combine the database key and the sub key")
    subs = {}
    for nm in ("secondary_key", "pareto_key"):
        g = rep.func(R + nm)
        for o in rep.trace(g):
            ok = o.kind == "return" and is_call(o.value, "sub_key") and o.value[2] and o.value[2][0][0] == "c" and o.value[2][0][2]
            rep.check(ok, "sub-key", nm, loc(o), f"{nm} is not a derived key")
            if ok:
                subs[nm] = o.value[2][0][2]
    rep.check(len(set(subs.values())) == 2, "sub-key", "distinct", sk.loc, "the secondary and pareto keys coincide")
    deletions(rep)


def key_name(t):
    if t[0] == "a" and t[2] in ("database_key", "secondary_key", "pareto_key"):
        return {"database_key": "primary", "secondary_key": "secondary", "pareto_key": "pareto"}[t[2]]
    if is_call(t, "sub_key"):
        a = arg(t, 0, "sub_key")
        if a is not None and a[0] == "c":
            return "primary" if a == NONE else str(a[2], "ascii") if isinstance(a[2], bytes) else show(a)
        return "sub"
    if is_call(t, "choices_to_bytes"):
        return "bytes:" + show(t[2][0]).rsplit(".", 1)[-1] if t[2] else "bytes"
    return show(t)


def dels(p):
    return [(f, n) for f, n in call_sites(p, "delete") + call_sites(p, "move")
            if isinstance(n.func, ast.Attribute) and (f.module.name.startswith("hypothesis.internal.conjecture") or f.module.name == "hypothesis.core")
            and "database" in attr_chain(n.func.value)]


def deletions(rep):
    reuse, clear, evict, dg = (rep.func(R + n) for n in ("reuse_existing_examples", "clear_secondary_key", "on_pareto_evict", "downgrade_choices"))

    def m(k, t, x):
        if k == "call" and last(t[1]) == "delete" and t[1][0] == "a" and mentions(t[1][1], "database"):
            return "delete"

    def ev(k, t, x):
        if k == "loop":
            return "iter"
        if k == "call" and last(t[1]) in ("cached_test_function", "test_function"):
            return "run:" + show(nosite(strip(t[2][0]))) if t[2] else None

    def strip(t):
        return t

    rel = lambda a: a[0] == "cmp" and (mentions(a, "status") or any_sub(a, lambda y: is_call(y, "choices_from_bytes")) or mentions(a, "pareto_front"))  # noqa
    n = 0
    for f in (reuse, clear):
        sites, _ = rep.sites(f, m, rel, lambda g, c, r: False, ev=ev, heads=("iter",), prune=rel)
        for s in sites:
            n += 1
            key, val = key_name(arg(s.term, 0, "key")), arg(s.term, 1, "value")
            cons = f"{f.name}:{key}"
            undec = any(v and k[0] == "cmp" and k[1] == "is" and k[3] == NONE and is_call(k[2], "choices_from_bytes") and nosite(k[2][2][0]) == nosite(val) for k, v in s.guards.items() if len(k) == 4 and k[2][0] == "call" and k[2][2])
            ran = any(x.startswith("run:") and show(nosite(val)) in x for x in s.auto)
            st = statuses(s.guards)
            if f is reuse:
                notin = any(k[0] == "cmp" and k[1] == "in" and mentions(k, "pareto_front") and v is False for k, v in s.guards.items())
                good = undec or ran and ("INTERESTING" not in st or key == "pareto" and notin)
                rep.check(good, "deleted-after-replay", cons, s.loc, f"a saved example is deleted without a replay showing that it no longer fails: {s.shown()}")
                src = sources(val, f)
                if key == "pareto":
                    rep.check(src == {"pareto"}, "deleted-under-own-key", cons, s.loc, f"an example loaded from {sorted(src)} is deleted under the pareto key")
                else:
                    rep.check(key in ("primary", "secondary") and src <= {"primary", "secondary"} and src, "deleted-under-own-key", cons, s.loc, f"an example loaded from {sorted(src)} is deleted under the {key} key")
            else:
                rep.check(undec or ran, "deleted-after-replay", cons, s.loc, "a secondary example is deleted without being replayed")
                rep.check(key == "secondary" and sources(val, f) == {"secondary"}, "deleted-under-own-key", cons, s.loc, f"an example loaded from {sorted(sources(val, f))} is deleted under the {key} key")
    rep.check(n >= 4, "deletions-found", "engine", reuse.loc, "stale examples are no longer removed")
    # both keys must be cleaned when a primary or secondary example turns out stale
    segs, _ = rep.segments(reuse, lambda k, t, x: "iter" if k == "loop" else ("del:" + key_name(arg(t, 0, "key")) if m(k, t, x) else None), ("iter",), lambda a: False, lambda g, c, r: False, prune=lambda a: False)
    for h, labs, how in segs:
        d = {x for x in labs if x in ("del:primary", "del:secondary")}
        rep.check(len(d) != 1, "stale-removed-everywhere", "reuse_existing_examples", reuse.loc, f"a stale example that may come from either corpus is removed from the {''.join(d)[4:]} one only")
    # and every replay that did not fail leads to the removal
    stale = 0
    for f in (reuse, clear):
        def sev(k, t, x):
            if k == "loop":
                return "iter"
            if m(k, t, x):
                return "del"
            if k == "call" and last(t[1]) in ("cached_test_function", "test_function"):
                return "run"
            if k == "branch":
                if mentions(t, "pareto_front"):
                    return "pareto"
                st = statuses({t: x["val"]})
                return "st:" + ",".join(sorted(st)) if st != set(ST) else None

        segs, _ = rep.segments(f, sev, ("iter",), rel, lambda g, c, r: False, prune=rel)
        for h, labs, how in segs:
            if "run" not in labs or "pareto" in labs or how == "raise":
                continue
            st = set(ST)
            for x in labs:
                if x.startswith("st:"):
                    st &= set(x[3:].split(","))
            stale += 1
            if f is reuse:
                rep.check("del" in labs or st <= {"INTERESTING"}, "stale-removed", f.name, f.loc, f"a saved example whose replay ended {sorted(st - {'INTERESTING'})} stays in the database")
    rep.check(stale > 0, "stale-removed", "replays", reuse.loc, "saved examples are not replayed")
    # pareto eviction: only under the pareto key, with the evicted data's bytes
    sites, _ = rep.sites(evict, m, rel)
    for s in sites:
        rep.check(key_name(arg(s.term, 0, "key")) == "pareto" and nosite(arg(s.term, 1, "value")) == ("call", arg(s.term, 1, "value")[1], (("a", ("p", "data"), "choices"),), (), 0), "deleted-under-own-key", "on_pareto_evict", s.loc, "eviction from the pareto front deletes something else")
    allowed = {reuse.fq, clear.fq, evict.fq, dg.fq}
    for f, node in dels(rep.p):
        own = {g.fq for g in owners(rep.p, f)}
        rep.check(own <= allowed, "deletion-audit", f.qualname, nloc(f, node), f"saved examples are removed in {f.qualname}, outside the places that replay them first")


def carried(t):
    """subterms of t whose values can be part of t's elements (sizes and sort keys cannot)"""
    if isinstance(t, tuple):
        if is_call(t, "len"):
            return
        if t and isinstance(t[0], str):
            yield t
        if t and t[0] == "call":
            yield from carried(t[1])
            for x in t[2]:
                yield from carried(x)
            return
        for x in t:
            if isinstance(x, tuple):
                yield from carried(x)


def carried_nodes(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len":
        return
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, ast.keyword):
            yield from carried_nodes(c)


def sources(val, f):
    """which keys the fetched entry `val` may come from: the fetch calls its container is built from"""
    out = set()
    for y in carried(val):
        if is_call(y, "fetch") and y[2]:
            out.add(key_name(y[2][0]))
    if out and not any(y[0] == "phi" for y in carried(val)):
        return out
    # a container that is extended later: every fetch that feeds this variable
    names = {y[1] for y in carried(val) if y[0] == "phi"}
    work, seen = set(names), set()
    while work:
        nm = work.pop()
        seen.add(nm)
        for n in own_nodes(f.node):
            feeds = None
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets):
                feeds = n.value
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == nm:
                feeds = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == nm and n.func.attr in ("extend", "append", "update", "add"):
                feeds = n
            if feeds is None:
                continue
            for c in carried_nodes(feeds):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "fetch" and c.args:
                    out.add({"database_key": "primary", "secondary_key": "secondary", "pareto_key": "pareto"}.get(attr_chain(c.args[0]).rsplit(".", 1)[-1], "?"))
                if isinstance(c, ast.Name) and c.id not in seen:
                    work.add(c.id)
    return out


def check_monotone(rep):
    """Every store that replaces a best example, a shrink target or a reported failure is found wherever it
    is written; the path condition must contain the strict decrease of the sort key and the acceptance of
    the predicate, and the predicate handed to a shrinker must keep the origin of the failure."""
    f, sites, outs = adoption(rep)
    is_old = lambda t: any_sub(t, lambda y: y[0] == "a" and y[2] == "interesting_examples")  # noqa
    rep.check(bool(sites), "adoption-found", "test_function", f.loc, "failing examples are never recorded")
    for s in sites:
        who = root_of(s.value)
        rep.check(new_path(s.guards, s.auto) or smaller(s.guards, is_old, lambda t: contains(nosite(t), who) and not is_old(t)), "strictly-simpler", "test_function", s.loc,
                  f"a failing example replaces the best one without being strictly simpler: {s.shown()}")
        rep.check(statuses(s.guards) <= {"INTERESTING"}, "adopts-failures-only", "test_function", s.loc, "a passing test case can become the best failure")
        key = s.term[2]
        rep.check(key[0] == "a" and key[2] == "interesting_origin" and root_of(key) == who, "own-origin", "test_function", s.loc, f"the failing example {show(who)} is filed under {show(key)}")
    only_writers(rep, "interesting_examples", {f.fq, R + "__init__"}, "single-writer", "the best failures may only change where they are compared")
    # every failing path that is new or simpler is adopted
    for o in outs:
        g, a = guards(o), o.state.auto
        if o.kind == "raise" and o.type not in ("hypothesis.internal.conjecture.engine.RunIsComplete",):
            continue
        if statuses(g) != {"INTERESTING"}:
            continue
        better = new_path(g, a) or smaller(g, is_old, lambda t: not is_old(t))
        if better:
            rep.check(any(x.startswith("adopt:") for x in a), "better-is-adopted", "test_function", loc(o), "a better failing example is not recorded")
    # the shrinker
    upd = rep.func(SH + "update_shrink_target")
    inc = rep.func(SH + "incorporate_test_data")
    only_writers(rep, "shrink_target", {upd.fq, SH + "__init__"}, "shrink-target-writer", "the shrink target may only change through the acceptance test")
    for g, node in call_sites(rep.p, "update_shrink_target"):
        own = {x.fq for x in owners(rep.p, g)}
        rep.check(own <= {inc.fq}, "acceptance-only", g.qualname, nloc(g, node), "the shrink target is replaced outside the acceptance test")
    sites, _ = rep.sites(inc, lambda k, t, x: "upd" if k == "call" and last(t[1]) == "update_shrink_target" or k == "setattr" and t[2] == "shrink_target" else None)
    rep.check(bool(sites), "acceptance-live", "incorporate_test_data", inc.loc, "the shrinker never accepts anything")
    for s in sites:
        new = s.value if s.value is not None else arg(s.term, 0, "new_target")
        rep.check(new == ("p", "data"), "acceptance-data", "incorporate_test_data", s.loc, f"the shrinker adopts {show(new)}")
        rep.check(smaller(s.guards, lambda t: mentions(t, "shrink_target"), lambda t: contains(t, ("p", "data")) and not mentions(t, "shrink_target")), "strictly-simpler", "incorporate_test_data", s.loc, f"the shrink target is replaced by one not known to be simpler: {s.shown()}")
        for nm, what in (("predicate", "satisfying the predicate"), ("allow_transition", "the transition being allowed")):
            rep.check(s.has(lambda a: a[0] == "call" and (last(a[1]) or "").endswith(nm) and contains(a, ("p", "data"))), "acceptance-" + nm, "incorporate_test_data", s.loc, f"the shrink target is replaced without {what}")
        rep.check(statuses(s.guards, ("p", "data")) <= {"VALID", "INTERESTING"}, "acceptance-status", "incorporate_test_data", s.loc, "a rejected test case can become the shrink target")
    for g, node in call_sites(rep.p, "incorporate_test_data"):
        ss, _ = rep.sites(g, lambda k, t, x: "inc" if k == "call" and last(t[1]) == "incorporate_test_data" else None, lambda a: False, None, prune=lambda a: False)
        for s in ss:
            d = arg(s.term, 0, "data")
            rep.check(d is not None and any_sub(d, lambda y: is_call(y, "cached_test_function") and mentions(y[1], "engine")) or d == ("p", "data") or d is not None and d[0] == "p" and g.fq not in absint.BASELINE, "executed-first", g.qualname, s.loc, f"the shrinker considers {show(d)}, which was not executed")
    ctf = rep.func(SH + "cached_test_function")
    for o in rep.trace(ctf, lambda k, t, x: "inc" if k == "call" and last(t[1]) == "incorporate_test_data" else None, lambda a: True):
        if o.kind != "return" or o.value[0] != "tuple":
            continue
        ok0 = o.value[1][0]
        if ok0 == TRUE:
            rep.check(any(v and is_call(k, "startswith") for k, v in guards(o).items()), "reports-acceptance", "Shrinker.cached_test_function", loc(o), "an unexecuted candidate is reported as accepted")
        elif ok0 != FALSE:
            rep.check("inc" in o.state.auto, "considers-result", "Shrinker.cached_test_function", loc(o), "an executed candidate is not submitted to the acceptance test")
    cn = rep.func(SH + "consider_new_nodes")
    for o in rep.trace(cn):
        rep.check(o.kind == "return" and any_sub(o.value, lambda y: is_call(y, "cached_test_function")), "reports-acceptance", "consider_new_nodes", loc(o), "consider_new_nodes does not report the acceptance test's verdict")
    # sort_key: length first, then the index of every choice
    k = rep.func("hypothesis.internal.conjecture.shrinker.sort_key")
    for o in rep.trace(k):
        v = o.value
        ok = o.kind == "return" and v[0] == "tuple" and len(v[1]) == 2 and is_call(v[1][0], "len") and v[1][0][2] == (("p", "nodes"),)
        rep.check(ok, "shortlex", "sort_key:length", loc(o), f"the shrink order does not compare lengths first: {show(v)}")
        body = v[1][1] if ok else v
        it = any_sub(body, lambda y: y[0] == "comp" and y[3] == (("p", "nodes"),) and not y[4] and is_call(y[2], "choice_to_index") and mentions(y[2], "value", "constraints")) or any_sub(body, lambda y: is_call(y, "map"))
        rep.check(it, "shortlex", "sort_key:indices", loc(o), f"the shrink order does not compare every choice: {show(v)}")
    # the predicate used for reported failures keeps the error
    sie = rep.func(R + "shrink_interesting_examples")
    ss, _ = rep.sites(sie, lambda k, t, x: "shrink" if k == "call" and last(t[1]) == "shrink" and t[1][0] == "a" else None, lambda a: mentions(a, "report_multiple_bugs"), None, prune=lambda a: mentions(a, "report_multiple_bugs"))
    rep.check(bool(ss), "predicate-same-error", "shrink_interesting_examples", sie.loc, "failures are never shrunk")
    for s in ss:
        pr = arg(s.term, 1, "predicate")
        multi = [v for a, v in s.guards.items() if mentions(a, "report_multiple_bugs")]
        for how, val, gs in predicate_paths(rep, sie, pr):
            if val == FALSE:
                continue
            facts = dict(gs)
            if val != TRUE:
                from ..absint import norm_atom as na
                for t2 in conj(val):
                    a, v = na(t2)
                    facts[a] = v
            rep.check(statuses(facts) == {"INTERESTING"}, "predicate-failing", "shrink_interesting_examples", s.loc, "the shrink predicate accepts a test case that does not fail")
            if multi != [False]:
                same = any(v and a[0] == "cmp" and a[1] == "==" and mentions(a, "interesting_origin") for a, v in facts.items())
                rep.check(same, "predicate-same-error", "shrink_interesting_examples", s.loc, "the shrink predicate accepts a different error")
    value_shrinkers(rep)


def conj(t):
    if t[0] == "and":
        for x in t[1]:
            yield from conj(x)
    else:
        yield t


def predicate_paths(rep, owner, pr):
    """(kind, value, guards) of every path through a predicate given as a lambda or a local function"""
    if pr is None:
        return []
    out = []
    cand = [g for g in rep.p.functions.values() if g.parent is owner or (g.parent is not None and g.parent.fq == owner.fq)]
    fn = None
    if pr[0] == "fn":
        fn = next((g for g in rep.p.functions.values() if g.fq == pr[1]), None) or next((g for g in cand if g.name == pr[1].rsplit(".", 1)[-1]), None)
    elif pr[0] == "lambda":
        fn = next((g for n, g in rep.p.func_of_node.items() if isinstance(n, ast.Lambda) and g.module.name == pr[1][0] and (n.lineno, n.col_offset) == pr[1][1:3]), None)
    elif pr[0] == "call" and pr[2]:
        return predicate_paths(rep, owner, pr[2][0])
    if fn is None:
        return []
    for o in rep.trace(fn, None, lambda a: True):
        if o.kind == "return":
            out.append((o.kind, o.value, guards(o)))
    return out


def value_shrinkers(rep):
    C = "hypothesis.internal.conjecture.shrinking.common.Shrinker."
    con = rep.func(C + "consider")
    only_writers(rep, "current", {con.fq, C + "__init__"}, "value-shrinker-writer", "a value shrinker may only move through consider()", module="hypothesis.internal.conjecture.shrinking")
    ss, outs = rep.sites(con, lambda k, t, x: "set" if k == "setattr" and self_attr(t, "current") else None)
    rep.check(bool(ss), "value-shrinker-live", "consider", con.loc, "value shrinkers never accept anything")
    for s in ss:
        v = s.value
        rep.check(s.has(lambda a: is_call(a, "left_is_better") and a[2] and a[2][0] == v and len(a[2]) > 1 and mentions(a[2][1], "current")), "value-simpler", "consider", s.loc, f"a value shrinker accepts a value that is not simpler: {s.shown()}")
        rep.check(s.has(lambda a: a[0] == "call" and (last(a[1]) or "").endswith("predicate") and a[2] == (v,)), "value-tested", "consider", s.loc, "a value shrinker accepts a value without testing it")
    for o in rep.trace(con, lambda k, t, x: "set" if k == "setattr" and self_attr(t, "current") else None, lambda a: True):
        if o.kind == "return" and o.value == TRUE:
            eq = any(v and k[0] == "cmp" and k[1] == "==" and any_sub(k, lambda y: is_call(y, "make_canonical")) for k, v in guards(o).items())
            rep.check("set" in o.state.auto or eq, "value-honest", "consider", loc(o), "consider() claims success although nothing changed")
    sh = rep.func(C + "shrink")
    for o in rep.trace(sh):
        rep.check(o.kind == "return" and o.value[0] == "a" and o.value[2] == "current", "value-result", "Shrinker.shrink", loc(o), "shrink() does not return the best accepted value")


def check_target(rep):
    """Every store into the table of best scores is under a path condition that compares the new score with
    the stored one; the example kept is the one that was scored; the optimiser's moves are judged against
    the score they replace."""
    f = rep.func(R + "test_function")

    def m(k, t, x):
        if k == "setitem" and t[1][0] == "a" and t[1][2] in ("best_observed_targets", "best_examples_of_observed_targets"):
            return t[1][2]

    def ev(k, t, x):
        return m(k, t, x)

    rel = lambda a: a[0] == "cmp" and (mentions(a, "status") and mentions(a, "VALID") or mentions(a, "target_observations") or mentions(a, "best_examples_of_observed_targets") or mentions(a, "best_observed_targets") or any_sub(a, skey) or any_sub(a, lambda y: y[0] == "elem"))  # noqa
    sites, outs = rep.sites(f, m, rel, None, ev=ev, prune=rel)
    obs = lambda t: any_sub(t, lambda y: y[0] == "a" and y[2] == "target_observations") and not any_sub(t, lambda y: y[0] == "a" and y[2] == "best_examples_of_observed_targets")  # noqa
    kinds = {s.label for s in sites}
    for w in ("best_observed_targets", "best_examples_of_observed_targets"):
        rep.check(w in kinds, "targets-recorded", w, f.loc, f"{w} is never updated")
    for s in sites:
        rep.check("INVALID" not in statuses(s.guards) and "OVERRUN" not in statuses(s.guards), "targets-valid-only", s.label, s.loc, "scores of rejected test cases are recorded")
        v, old = s.value, s.term
        if s.label == "best_observed_targets":
            mx = is_call(v, "max") and any(nosite(x) == nosite(old) for x in v[2]) and any(obs(x) for x in v[2])
            better = obs(v) and any(k[0] == "cmp" and k[1] == "<" and val and nosite(k[2]) == nosite(old) and nosite(k[3]) == nosite(v) for k, val in s.guards.items())
            better = better or obs(v) and any(k[0] == "cmp" and k[1] == "<" and val is False and nosite(k[3]) == nosite(old) and nosite(k[2]) == nosite(v) for k, val in s.guards.items())
            rep.check(mx or better, "best-score-monotone", "test_function", s.loc, f"the best score becomes {show(v)}, which may be lower")
        else:
            exk = lambda t: any_sub(t, lambda y: y[0] == "a" and y[2] == "best_examples_of_observed_targets")  # noqa
            new = any(k[0] == "cmp" and k[1] == "in" and exk(k[3]) and val is False for k, val in s.guards.items()) or any(k[0] == "cmp" and k[1] == "is" and exk(k[2]) and val for k, val in s.guards.items())
            gt = any(k[0] == "cmp" and k[1] == "<" and exk(k[2]) and obs(k[3]) and not any_sub(k, skey) and val for k, val in s.guards.items())
            notlt = any(k[0] == "cmp" and k[1] == "<" and exk(k[3]) and obs(k[2]) and not any_sub(k, skey) and val is False for k, val in s.guards.items())
            tie = smaller(s.guards, exk, lambda t: not exk(t))
            rep.check(new or gt or notlt and tie, "best-example-attains", "test_function", s.loc, f"the example kept for a target need not have the best score: {s.shown()}")
            rep.check(is_call(v, "as_result"), "best-example-attains", "test_function:value", s.loc, f"the example kept is {show(v)}")
    for o in outs:
        g = guards(o)
        if o.kind == "return" and any(x == "best_observed_targets" for x in o.state.auto) is False:
            pass
    only_writers(rep, "best_observed_targets", {f.fq, R + "__init__"}, "target-writer", "scores may only change where they are compared")
    only_writers(rep, "best_examples_of_observed_targets", {f.fq, R + "__init__"}, "target-writer", "target examples may only change where they are compared")
    # --- Optimiser
    O = "hypothesis.internal.conjecture.optimiser.Optimiser."
    con = rep.func(O + "consider_new_data")
    only_writers(rep, "current_data", {con.fq, O + "__init__"}, "climb-writer", "the hill climb may only move through consider_new_data()", module="hypothesis.internal.conjecture.optimiser")
    score = lambda t: is_call(t, "score_function") or any_sub(t, lambda y: y[0] == "a" and y[2] == "target_observations")  # noqa
    cur = lambda t: t[0] == "a" and t[2] == "current_score" or any_sub(t, lambda y: y[0] == "a" and y[2] in ("current_data", "current_score"))  # noqa
    ss, outs = rep.sites(con, lambda k, t, x: "set" if k == "setattr" and self_attr(t, "current_data") else None, ev=lambda k, t, x: "set" if k == "setattr" and self_attr(t, "current_data") else None)
    rep.check(bool(ss), "climb-live", "consider_new_data", con.loc, "the hill climb never moves")
    for s in ss:
        g = s.guards
        rep.check(s.value == ("p", "data"), "climb-value", "consider_new_data", s.loc, "the hill climb adopts something else than the test case it considered")
        rep.check(not ({"INVALID", "OVERRUN"} & statuses(g)), "climb-valid-only", "consider_new_data", s.loc, "the hill climb adopts a rejected test case")
        up = any(k[0] == "cmp" and (k[1] == "<" and cur(k[2]) and score(k[3]) and not cur(k[3]) and v or k[1] == "<" and cur(k[3]) and score(k[2]) and not cur(k[2]) and not v or k[1] == "==" and v and cur(k[2]) != cur(k[3])) for k, v in g.items())
        rep.check(up, "climb-never-down", "consider_new_data", s.loc, f"the hill climb can move to a lower score: {s.shown()}")
    for o in outs:
        if o.kind == "return" and o.value in (TRUE, FALSE):
            rep.check((o.value == TRUE) == ("set" in o.state.auto), "climb-honest", "consider_new_data", loc(o), "consider_new_data() reports the opposite of what it did")
            g = guards(o)
            if any(k[0] == "cmp" and k[1] == "<" and cur(k[2]) and score(k[3]) and not cur(k[3]) and v for k, v in g.items()):
                rep.check("set" in o.state.auto, "climb-improves", "consider_new_data", loc(o), "a better score is not adopted")
    sf = rep.func(O + "score_function")
    for o in rep.trace(sf):
        rep.check(o.kind == "return" and any_sub(o.value, lambda y: y == ("a", ("p", "data"), "target_observations")) and any_sub(o.value, lambda y: self_attr(y, "target")), "score-of-target", "score_function", loc(o), f"the score is {show(o.value)}")
    for g, node in call_sites(rep.p, "consider_new_data"):
        if g.module.name != con.module.name:
            continue
        ss, _ = rep.sites(g, lambda k, t, x: "c" if k == "call" and last(t[1]) == "consider_new_data" else None, lambda a: False, None, prune=lambda a: False)
        for s in ss:
            d = arg(s.term, 0, "data")
            rep.check(d is not None and any_sub(d, lambda y: is_call(y, "cached_test_function")) or d is not None and d[0] == "p", "climb-executed", g.qualname, s.loc, f"the hill climb considers {show(d)}, which was not executed")
    # --- target()
    t = rep.func("hypothesis.control.target")

    def ev2(k, tt, x):
        if k == "call" and is_call(tt, "check_type"):
            return "type:" + show(tt[2][1]) if len(tt[2]) > 1 else None
        if k == "setitem" and last(tt[1]) == "target_observations":
            return "record"
        if k == "branch" and any_sub(tt, lambda y: is_call(y, "isfinite")):
            return "finite"

    sites, outs = rep.sites(t, lambda k, tt, x: "record" if k == "setitem" and last(tt[1]) == "target_observations" else None, ev=ev2)
    rep.check(bool(sites), "target-records", "target", t.loc, "target() never records a score")
    for s in sites:
        chk = set(s.auto)
        rep.check("type:observation" in chk or s.has(lambda a: is_call(a, "isinstance") and a[2][0] == ("p", "observation")), "target-validates", "target:type", s.loc, "a score of any type is recorded")
        rep.check("type:label" in chk or s.has(lambda a: is_call(a, "isinstance") and a[2][0] == ("p", "label")), "target-validates", "target:label", s.loc, "a label of any type is recorded")
        rep.check(s.has(lambda a: is_call(a, "isfinite") and a[2] == (("p", "observation"),)), "target-validates", "target:finite", s.loc, "a non-finite score is recorded")
        rep.check(s.has(lambda a: a[0] == "cmp" and a[1] == "in" and a[2] == ("p", "label") and mentions(a[3], "target_observations"), False), "target-validates", "target:repeated", s.loc, "a repeated label overwrites the first score")
        rep.check(s.has(lambda a: a[0] == "cmp" and a[1] == "is" and a[3] == NONE, False), "target-validates", "target:context", s.loc, "target() is allowed outside a test")
        rep.check(s.term[2] == ("p", "label") and s.value == ("p", "observation"), "target-records", "target:value", s.loc, f"target() records {show(s.value)} under {show(s.term[2])}")
    for o in outs:
        if o.kind == "return" and "record" not in o.state.auto:
            rep.check(any(v and mentions(k, "avoid_realization") for k, v in guards(o).items()), "target-records", "target:silent", loc(o), "target() silently ignores a score")
        if o.kind == "raise":
            rep.check(o.type.endswith("InvalidArgument") or o.type == "*", "target-refuses", "target", loc(o), f"target() refuses with {o.type}")


CHECKS = {"E05": check_saving, "E06": check_monotone, "E10": check_target}
