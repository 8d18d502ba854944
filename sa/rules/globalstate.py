"""G01-G04: process-wide state, randomness, settings and output."""
from __future__ import annotations

import ast

from ..lib import *
from .choices import NOTHING, P, SELF, extracted
from .strat import kw, returns
from .tree import at, dm

H = "hypothesis."
LOCAL = lambda g, c, r: extracted(g, c, r)  # noqa
MANAGERS = {
    H + "utils.dynamicvariables.DynamicVariable.with_value": "with_value",
    H + "reporting.with_reporter": "with_reporter",
    H + "_settings.local_settings": "local_settings",
    H + "internal.entropy.deterministic_PRNG": "deterministic_PRNG",
    H + "internal.conjecture.junkdrawer.ensure_free_stackframes": "ensure_free_stackframes",
    H + "control.BuildContext": "BuildContext",
    H + "internal.scrutineer.Tracer": "Tracer",
    H + "core.unwrap_markers_from_group": "unwrap_markers_from_group",
    H + "extra.ghostwriter._with_any_registered": "_with_any_registered",
    "warnings.catch_warnings": "catch_warnings",
    "decimal.localcontext": "localcontext",
}


def name_of(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None


def parents(func):
    out = {}
    for n in ast.walk(func.node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def owned(rep, f, allowed):
    """every pinned function from which f is reached through new helpers is one of `allowed` (or nested in one)"""
    os_ = owners(rep.p, f)
    return bool(os_) and all(any(o.fq == a or o.fq.startswith(a + ".") for a in allowed) for o in os_)


# ---------------------------------------------------------------- acquire / release
DV = H + "utils.dynamicvariables.DynamicVariable."
DATA = ("a", SELF, "data")
CUR = ("a", DATA, "value")
OLD = [("a", SELF, "value"), CUR, nosite(("call", ("g", "builtins.getattr"), (DATA, const("value"), ("a", SELF, "default")), (), 0))]


def check_dynamic(rep):
    """a dynamic variable gets its previous value back when the with block is left, however it is left"""
    f = rep.func(DV + "with_value")

    def ev(k, t, x):
        if k == "setattr" and t[1] == DATA and t[2] == "value" or k == "setattr" and t == ("a", SELF, "value"):
            return ("set", x["value"])
        return "yield" if k == "yield" else None

    n = 0
    for o in rep.trace(f, ev, lambda a: True, None, True, raises=NOTHING):
        sets = [a[1] for a in o.state.auto if a[0] == "set"]
        n += 1
        how = "after the block" if o.kind == "return" else "when the block raises"
        rep.check(len(sets) == 2 and sets[0] == P("value"), "variable-set", f"with_value:{o.kind}", loc(o), "the new value is not what the block sees")
        rep.check(len(sets) == 2 and sets[-1] in OLD, "variable-restored", f"with_value:{o.kind}", loc(o), f"the previous value is not put back {how}")
        if o.kind == "return":
            rep.check(o.state.auto.count("yield") == 1 and o.state.auto[0] != "yield" and o.state.auto[-1] != "yield", "variable-order", "with_value", loc(o), "the value is not set before the block and put back after it")
    rd = [x.lineno for x in own_nodes(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr == "value" and attr_chain(x) in ("self.value", "self.data.value") or isinstance(x, ast.Call) and name_of(x.func) == "getattr"]
    wr = [x.lineno for x in own_nodes(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "value"]
    rep.check(not rd or not wr or max(rd) < min(wr), "read-before-set", "with_value", f.loc, "the previous value is read only after it has been replaced")
    rep.check(n >= 2, "with-value-analysed", "with_value", f.loc, "no exceptional exit of with_value was found")
    # only these functions set a dynamic variable for good
    ok = {H + "_settings.settings.load_profile", DV + "with_value", DV + "value"}
    names = {}
    for m in rep.p.modules.values():
        for n_ in m.tree.body:
            t = n_.targets[0] if isinstance(n_, ast.Assign) else n_.target if isinstance(n_, ast.AnnAssign) else None
            v = getattr(n_, "value", None)
            if isinstance(t, ast.Name) and isinstance(v, ast.Call):
                c = v.func.value if isinstance(v.func, ast.Subscript) else v.func
                if (rep.p.resolve_expr_fq(m, c) or "").endswith("DynamicVariable"):
                    names[m.name + "." + t.id] = t.id
    rep.check(len(names) >= 5, "variables-found", "DynamicVariable", "", f"only {len(names)} dynamic variables found")
    for fn, n_, how in attr_writes(rep.p, "value"):
        if not isinstance(n_, ast.Attribute):
            continue
        fq = rep.p.resolve_expr_fq(fn.module, n_.value)
        if fq in names or attr_chain(n_.value).endswith(".data") and fn.cls is not None and fn.cls.fq.endswith("DynamicVariable"):
            rep.check(owned(rep, fn, ok), "variable-written", f"{fn.qualname}:{names.get(fq, 'data')}", nloc(fn, n_), f"{attr_chain(n_)} is set without a with block in {fn.qualname}")


def check_with_items(rep):
    """every context manager that changes shared state is entered by a with statement (or an exit stack)"""
    p = rep.p
    managers = dict(MANAGERS)
    for _ in range(3):  # helpers returning one of them are managers too
        for f in p.functions.values():
            if f.fq in managers:
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and callee_in(p, f, n.value, managers):
                    managers[f.fq] = f.name
    last_names = set(managers.values())
    n_sites = 0
    for name in sorted(last_names):
        for f, n in call_sites(p, name):
            if not callee_in(p, f, n, managers):
                continue
            n_sites += 1
            ps = parents(f)
            ok = entered(f, n, ps)
            if f.fq == H + "control.BuildContext.__enter__" and isinstance(ps.get(n), ast.Assign):
                ok = True  # judged by check_build_context
            rep.check(ok, "entered-by-with", f"{f.qualname}:{name}", nloc(f, n), f"{name}(...) is called in {f.qualname} without a with statement, so what it changes is not put back")
    rep.check(n_sites >= 15, "managers-found", "with-sites", "", f"only {n_sites} uses of state-changing context managers found")


def callee_in(p, f, n, managers):
    fq = p.resolve_expr_fq(f.module, n.func)
    if fq in managers:
        return True
    nm = name_of(n.func)
    return nm == "with_value" and isinstance(n.func, ast.Attribute) or any(k.rsplit(".", 1)[-1] == nm and k.rsplit(".", 1)[0] == f.module.name for k in managers) and isinstance(n.func, ast.Name)


def entered(f, n, ps):
    q = ps.get(n)
    while isinstance(q, ast.IfExp):
        q, n = ps.get(q), q
    if isinstance(q, ast.withitem):
        return True
    if isinstance(q, ast.Return):
        return True
    if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == "enter_context":
        return True
    if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name):
        nm = q.targets[0].id
        uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
        used = lambda u: not isinstance(ps.get(u), (ast.Attribute, ast.Assign, ast.NamedExpr)) and entered(f, u, ps)  # noqa
        return bool(uses) and all(used(u) or isinstance(ps.get(u), ast.Attribute) for u in uses) and any(used(u) for u in uses)
    if isinstance(q, ast.NamedExpr):
        return entered(f, q, ps)
    return False


def check_build_context(rep):
    """leaving a test case restores the previous build context first and runs every registered cleanup,
    whatever the others raise"""
    f = rep.func(H + "control.BuildContext.__enter__")
    AV = ("a", SELF, "assign_variable")

    def is_enter(t, name):
        c = dm(t)
        return c[1][0] == "a" and c[1][2] == name and c[1][1] == AV

    def ev(k, t, x):
        if k == "setattr" and dm(t) == AV:
            v = dm(x["value"])
            return ("manager", last(v[1]) if v[0] == "call" else "?", arg(v, 0, "value") == SELF if v[0] == "call" else None)
        if k == "call" and (is_enter(t, "__enter__") or last(t[1]) == "__enter__" and any_sub(t, lambda y: y[0] == "call" and last(y[1]) == "with_value")):
            return "enter"
        return None

    for o in rep.trace(f, ev, lambda a: True, LOCAL, False):
        if o.kind != "return":
            continue
        rep.check(("manager", "with_value", True) in o.state.auto and "enter" in o.state.auto, "context-entered", "BuildContext.__enter__", loc(o), "entering a build context does not make it the current one")
        rep.check(o.value == SELF, "context-returned", "BuildContext.__enter__", loc(o), "entering a build context does not return it")
    g = rep.func(H + "control.BuildContext.__exit__")

    def ev2(k, t, x):
        if k == "call":
            c = dm(t)
            if is_enter(t, "__exit__"):
                return ("restore", tuple(c[2]) == (P("exc_type"), P("exc_value"), P("tb")))
            if c[1] == ("elem", ("a", SELF, "tasks")) and not c[2] and not c[3]:
                return "task"
            if last(c[1]) == "append" and c[1][0] == "a":
                return "collect"
        if k == "loop" and dm(t) == ("a", SELF, "tasks"):
            return "tasks"
        if k == "catch":
            return ("catch", tuple(sorted(show(y) for y in t[1])) if isinstance(t[1], (tuple, list)) else "?")
        if k == "raise":
            return "raise"
        return None

    is_task = lambda c: ("pseudo.User",) if dm(c)[1] == ("elem", ("a", SELF, "tasks")) else ()  # noqa
    base = lambda c: ("builtins.KeyboardInterrupt",) if dm(c)[1] == ("elem", ("a", SELF, "tasks")) else ()  # noqa
    for nm, r in (("normal", NOTHING), ("error", is_task), ("interrupt", base)):
        outs = rep.trace(g, ev2, lambda a: True, LOCAL, True, raises=r, nonempty=lambda it: dm(it) == ("a", SELF, "tasks"))
        for o in outs:
            a = o.state.auto
            rep.check(("restore", True) in a and a.index(("restore", True)) < (a.index("tasks") if "tasks" in a else len(a)), "context-restored", f"BuildContext.__exit__:{nm}", loc(o), "the previous build context is not put back before the cleanups run")
            rep.check("tasks" in a, "cleanups-run", f"BuildContext.__exit__:{nm}", loc(o), "a build context can be left without running its cleanups")
            if nm != "normal" and "collect" in a:
                rep.check(o.kind == "raise", "cleanup-error-raised", f"BuildContext.__exit__:{nm}", loc(o), "an error raised by a cleanup is lost")
            if nm != "normal":
                rep.check(not (o.kind == "raise" and o.type in ("pseudo.User", "builtins.KeyboardInterrupt")), "cleanup-isolated", f"BuildContext.__exit__:{nm}", loc(o), "an error in one cleanup keeps the remaining cleanups from running")
            if nm == "normal":
                rep.check(o.kind == "return" and not truthy_const(o.value), "exit-propagates", "BuildContext.__exit__", loc(o), "leaving a build context swallows the test's exception")
        rep.check(any("task" in o.state.auto or "collect" in o.state.auto for o in outs), "cleanups-called", f"BuildContext.__exit__:{nm}", g.loc, "no path runs a cleanup")
    h = rep.func(H + "control.cleanup")
    n = 0
    for o in rep.trace(h, lambda k, t, x: ("register", dm(t)[2][0]) if k == "call" and show(t[1]).endswith(".tasks.append") else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            n += 1
            rep.check(("register", P("teardown")) in o.state.auto, "cleanup-registered", "cleanup", loc(o), "a cleanup is not registered with the current test case")
    rep.check(n > 0, "cleanup-analysed", "cleanup", h.loc, "cleanup never returns")


def truthy_const(v):
    return v is not None and v[0] == "c" and v not in (NONE, FALSE)


SYS_GET = nosite(("call", ("g", "sys.getrecursionlimit"), (), (), 0))


def check_recursion_limit(rep):
    """the recursion limit is remembered before it is raised and put back unless something else changed it"""
    K = H + "internal.conjecture.junkdrawer.ensure_free_stackframes."
    f, g = rep.func(K + "__enter__"), rep.func(K + "__exit__")

    def ev(k, t, x):
        if k == "call" and last(t[1]) == "setrecursionlimit":
            return ("limit", dm(t)[2][0])
        if k == "setattr" and t[1] == SELF:
            return ("save", t[2], dm(x["value"]))
        return None

    n = 0
    old = new = None
    for o in rep.trace(f, ev, lambda a: True, LOCAL, False):
        if o.kind != "return":
            continue
        n += 1
        a = o.state.auto
        lim = [i for i, x in enumerate(a) if x[0] == "limit"]
        rep.check(len(lim) == 1, "limit-set-once", "ensure_free_stackframes.__enter__", loc(o), "the recursion limit is not set exactly once on entry")
        if not lim:
            continue
        i = lim[0]
        saved = [x[1] for x in a[:i] if x[0] == "save" and x[2] == SYS_GET]
        rep.check(len(saved) == 1, "limit-saved", "ensure_free_stackframes.__enter__", loc(o), "the previous recursion limit is not remembered before it is changed")
        news = [x[1] for x in a if x[0] == "save" and (x[2] == a[i][1] or ("a", SELF, x[1]) == a[i][1]) and x[1] not in saved]
        rep.check(bool(news), "new-limit-known", "ensure_free_stackframes.__enter__", loc(o), "the limit that was set is not remembered")
        if saved and news:
            old, new = saved[0], news[0]
    rep.check(n > 0 and old is not None, "enter-analysed", "ensure_free_stackframes.__enter__", f.loc, "no path of __enter__ sets the limit")
    seen = {"same": 0, "changed": 0}
    for o in rep.trace(g, ev, lambda a: True, LOCAL, False):
        gs = {dm(k): v for k, v in o.state.guards}
        same = None
        for k, v in gs.items():
            if k[0] == "cmp" and k[1] == "==" and {k[2], k[3]} == {("a", SELF, new), SYS_GET}:
                same = v
        lims = [x[1] for x in o.state.auto if x[0] == "limit"]
        if same is True:
            seen["same"] += 1
            rep.check(lims == [("a", SELF, old)], "limit-restored", "ensure_free_stackframes.__exit__", loc(o), "the previous recursion limit is not put back")
        elif same is False:
            seen["changed"] += 1
            rep.check(not lims, "limit-respected", "ensure_free_stackframes.__exit__", loc(o), "a recursion limit changed by the test is overwritten")
        else:
            rep.check(lims == [("a", SELF, old)], "limit-restored", "ensure_free_stackframes.__exit__:unguarded", loc(o), "a path leaves the recursion limit changed")
        rep.check(o.kind == "raise" or not truthy_const(o.value), "exit-propagates", "ensure_free_stackframes.__exit__", loc(o), "leaving the block swallows the exception")
    rep.check(seen["same"] > 0, "exit-analysed", "ensure_free_stackframes.__exit__", g.loc, "no path of __exit__ restores the limit")


def check_tracer(rep):
    """the branch tracer removes exactly the hooks it installed, under the same conditions"""
    T = H + "internal.scrutineer.Tracer."
    f, g = rep.func(T + "__enter__"), rep.func(T + "__exit__")

    def ev(k, t, x):
        if k == "call":
            n, c = callee(t), dm(t)
            if c[1] == ("g", "sys.settrace"):
                return ("settrace", "off" if c[2][0] == NONE else "on")
            if c[1][0] == "g" and c[1][1].startswith("sys.monitoring."):
                if n == "use_tool_id":
                    return ("tool", "on", c[2][0])
                if n == "free_tool_id":
                    return ("tool", "off", c[2][0])
                if n == "set_events":
                    return ("events", "off" if any_sub(c[2][1], lambda y: y[0] == "g" and y[1].endswith("NO_EVENTS")) else "on", c[2][0])
                if n == "register_callback":
                    return ("callback", "off" if c[2][2] == NONE else "on", c[2][0])
        return None

    kinds = {}
    for nm, func in (("enter", f), ("exit", g)):
        for o in rep.trace(func, ev, lambda a: True, LOCAL, False, nonempty=lambda it: True):
            if o.kind != "return":
                continue
            gs = {k: v for k, v in o.state.guards}
            tr = next((v for k, v in gs.items() if k[0] == "a" and k[2] == "_should_trace"), None)
            old = next((v for k, v in gs.items() if k[0] == "cmp" and mentions(k, "version_info")), None)
            kinds.setdefault((tr, old), {})[nm] = (o.state.auto, o)
            if nm == "exit":
                rep.check(not truthy_const(o.value), "exit-propagates", "Tracer.__exit__", loc(o), "leaving the tracer swallows the exception")
            else:
                rep.check(o.value == SELF, "tracer-returned", "Tracer.__enter__", loc(o), "entering the tracer does not return it")
    n = 0
    for key, d in kinds.items():
        if "enter" not in d:
            rep.check(not any(x[1] == "off" for x in d["exit"][0]), "tracer-pairing", f"exit-only:{key[0]}", loc(d["exit"][1]), "the tracer removes hooks it never installed")
            continue
        on = {(x[0],) + x[2:] for x in d["enter"][0] if x[1] == "on"}
        o = d["enter"][1]
        if not on:
            rep.check("exit" not in d or not any(x[1] == "off" for x in d["exit"][0]), "tracer-untouched", "Tracer.__exit__", loc(o), "the tracer removes another tool's hooks although it is not tracing")
            continue
        n += 1
        rep.check(key[0] is True, "tracer-guarded", "Tracer.__enter__", loc(o), "the tracer installs hooks although another tool is tracing")
        off = {(x[0],) + x[2:] for x in d["exit"][0] if x[1] == "off"} if "exit" in d else set()
        for x in sorted(on, key=str):
            rep.check(x in off, "tracer-removed", f"Tracer.__exit__:{x[0]}", g.loc, f"the {x[0]} hook installed on entry is still active after the test case")
    rep.check(n >= 1, "tracer-analysed", "Tracer.__enter__", f.loc, "no path of the tracer installs a hook")
    c = rep.func(T + "can_trace")
    used = {k for o in rep.trace(c, None, lambda a: True, LOCAL, False) for t in ([o.value] if o.value else []) + [a for a, _ in o.state.guards] for k in fields(t)}
    for nm in ("gettrace", "get_tool"):
        rep.check(nm in used, "tracer-checks", f"can_trace:{nm}", c.loc, f"the tracer no longer asks {nm} whether another tool is active")
    i = rep.func(T + "__init__")
    for o in rep.trace(i, lambda k, t, x: ("flag", dm(x["value"])) if k == "setattr" and t == ("a", SELF, "_should_trace") else None, lambda a: True, LOCAL, False):
        for x in o.state.auto:
            v = x[1]
            gs = guards(o)
            ok = v == FALSE or gs.get(v) is False or any_sub(v, lambda y: is_call(y, "can_trace")) or any(is_call(k, "can_trace") and b for k, b in gs.items())
            rep.check(ok, "tracer-asks", "Tracer.__init__", loc(o), "tracing can be switched on although another tool is tracing")


def check_random(rep):
    """every registered generator is put back to the state it had before it was seeded"""
    f = rep.func(H + "internal.entropy.deterministic_PRNG")

    def ev(k, t, x):
        if k == "call":
            c = dm(t)
            if c[1][0] == "sub" and is_call(c[1][1], "get_seeder_and_restorer") or c[1][0] == "fn":
                which = c[1][2][2] if c[1][0] == "sub" else c[1][1].rsplit(".", 1)[-1]
                return "seed" if which in (0, "seed_all") else "restore" if which in (1, "restore_all") else None
            if last(c[1]) == "get_seeder_and_restorer":
                return ("make", arg(c, 0, "seed"))
        if k == "yield":
            return "yield"
        return None

    is_seed = lambda c: ("pseudo.User",) if dm(c)[1][0] == "sub" and is_call(dm(c)[1][1], "get_seeder_and_restorer") and dm(c)[1][2] == const(0) or dm(c)[1][0] == "fn" and dm(c)[1][1].endswith("seed_all") else ()  # noqa
    n = 0
    for nm, r in (("block", NOTHING), ("seeding", is_seed)):
        for o in rep.trace(f, ev, lambda a: True, lambda g, c, rr: extracted(g, c, rr) and g.parent is None, True, raises=r):
            a = o.state.auto
            n += 1
            rep.check("restore" in a and a[-1] == "restore", "random-restored", f"deterministic_PRNG:{nm}:{o.kind}", loc(o), "the state of the random generators is not put back")
            rep.check(("make", P("seed")) in a, "random-seed", f"deterministic_PRNG:{nm}", loc(o), "the generators are not seeded with the given seed")
            if o.kind == "return":
                rep.check("seed" in a and "yield" in a and a.index("seed") < a.index("yield"), "random-seeded", "deterministic_PRNG", loc(o), "the test case runs before the generators are seeded")
    rep.check(n >= 3, "random-analysed", "deterministic_PRNG", f.loc, "the exits of deterministic_PRNG were not found")
    q = H + "internal.entropy.get_seeder_and_restorer.<locals>."
    s, r = rep.func(q + "seed_all"), rep.func(q + "restore_all")
    REG = ("g", H + "internal.entropy.RANDOMS_TO_MANAGE")
    items = nosite(("call", ("a", REG, "items"), (), (), 0))
    KEY, RND = ("sub", ("elem", items), const(0)), ("sub", ("elem", items), const(1))

    def sev(k, t, x):
        if k == "setitem":
            b = dm(t)
            return ("save", b[2], dm(x["value"]))
        if k == "call":
            c = dm(t)
            if c[1][0] == "a" and c[1][2] == "seed":
                return ("seed", c[1][1], c[2][0] if c[2] else None)
        if k in ("enter", "back"):
            return "next"
        return None

    n = 0
    segs, outs = rep.segments(s, sev, ["next"], lambda a: True, LOCAL, False)
    for head, labs, how in segs:
        seeds = [l for l in labs if l[0] == "seed"]
        for l in seeds:
            n += 1
            i = labs.index(l)
            want = ("save", KEY if l[1] == RND else None, nosite(("call", ("a", l[1], "getstate"), (), (), 0)))
            ok = any(x[0] == "save" and x[2] == want[2] and (want[1] is None or x[1] == KEY) for x in labs[:i])
            rep.check(ok, "state-saved-first", "seed_all", s.loc, "a generator is seeded before its state has been saved under its own key")
            rep.check(l[2] in (P("seed"), ("free", "seed")) or l[2] is not None and "seed" in str(l[2]), "seeded-with-seed", "seed_all", s.loc, "a generator is not seeded with the given seed")
    rep.check(n > 0, "seeding-found", "seed_all", s.loc, "seed_all seeds nothing")
    src = [x for x in own_nodes(s.node) if isinstance(x, ast.For)] + [c for x in own_nodes(s.node) if isinstance(x, (ast.ListComp, ast.DictComp)) for c in x.generators]
    rep.check(any(attr_chain(x.iter).startswith("RANDOMS_TO_MANAGE.") or attr_chain(x.iter).startswith("list(RANDOMS_TO_MANAGE.") for x in src), "seeds-all", "seed_all", s.loc, "seed_all does not visit every registered generator")

    def rev(k, t, x):
        if k == "call":
            c = dm(t)
            if c[1][0] == "a" and c[1][2] == "setstate":
                return ("put", c[1][1], c[2][0] if c[2] else None)
            if c[1][0] == "a" and c[1][2] == "clear":
                return "clear"
        if k in ("enter", "back"):
            return "next"
        if k == "branch":
            return ("branch", dm(t), x["val"])
        return None

    n = 0
    segs, outs = rep.segments(r, rev, ["next"], lambda a: True, LOCAL, False)
    for head, labs, how in segs:
        if head != "next":
            continue
        put = [l for l in labs if l[0] == "put"]
        gone = any(l[0] == "branch" and l[1][0] == "cmp" and l[1][1] == "is" and l[1][3] == NONE and l[2] for l in labs)
        if how == "raise" or not any(l[0] in ("put", "branch") for l in labs):
            continue
        rep.check(bool(put) or gone, "state-put-back", "restore_all", r.loc, "a generator that still exists does not get its saved state back")
        for l in put:
            n += 1
            same = l[1][0] == "call" and last(l[1][1]) == "get" and l[1][2] and l[2] is not None and l[2][0] == "sub" and l[1][2][0] == ("sub", l[2][1], const(0)) and l[2][2] == const(1) \
                or l[1][0] == "sub" and l[2] is not None and l[2][0] == "sub" and l[1][2] in (("sub", l[2][1], const(0)), l[2][2])
            rep.check(same, "own-state", "restore_all", r.loc, "a generator is given the state saved for another one")
    rep.check(n > 0, "restoring-found", "restore_all", r.loc, "restore_all restores nothing")
    for o in outs:
        if o.kind == "return":
            rep.check(o.state.auto and "clear" in o.state.auto, "states-forgotten", "restore_all", loc(o), "restored states are kept, so a second use would restore stale ones")
    # the strategy that reseeds inside a test registers the restorer
    m = rep.func(H + "strategies._internal.core.RandomModule.do_draw")

    def mev(k, t, x):
        if k == "call":
            c = dm(t)
            if c[1][0] == "sub" and is_call(c[1][1], "get_seeder_and_restorer"):
                return ("use", c[1][2][2], c[1][1])
            if last(c[1]) == "cleanup" and c[2] and c[2][0][0] == "sub":
                return ("cleanup", c[2][0][2][2], c[2][0][1])
        return None

    for o in rep.trace(m, mev, lambda a: True, LOCAL, False):
        if o.kind != "return":
            continue
        a = o.state.auto
        used = [x for x in a if x[0] == "use" and x[1] == 0]
        rep.check(bool(used) and ("cleanup", 1, used[0][2]) in a, "reseed-restored", "RandomModule.do_draw", loc(o), "reseeding inside a test does not register the matching restorer")
        if used:
            rep.check(dm(used[0][2])[2] and is_call(dm(used[0][2])[2][0], "draw"), "reseed-drawn", "RandomModule.do_draw", loc(o), "the generators are not seeded with the drawn seed")
    rm = rep.func(H + "strategies._internal.core.random_module")
    for o in rep.trace(rm, None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            rep.check(is_call(o.value, "shared"), "reseed-shared", "random_module", loc(o), "the generators can be reseeded twice in one test case, which restores the wrong state")


def check_test_case(rep):
    """the test function runs with the settings, random state and build context of its run"""
    f = rep.func(H + "core.StateForActualGivenExecution.execute_once")

    def ev(k, t, x):
        if k == "with-enter":
            c = dm(t)
            return ("enter", last(c[1]) if c[0] == "call" else "?")
        if k == "with-exit":
            c = dm(t)
            return ("exit", last(c[1]) if c[0] == "call" else "?")
        if k == "call" and last(t[1]) == "test_runner":
            return "run"
        return None

    sites = 0
    for o in rep.trace(f, ev, lambda a: False, None, True, raises=lambda c: ("pseudo.User",) if last(c[1]) == "test_runner" else ()):
        a = o.state.auto
        i = a.index("run") if "run" in a else next((j for j, x in enumerate(a) if x[0] == "exit"), None)
        if i is None:
            continue
        sites += 1
        open_ = [x[1] for x in a[:i] if x[0] == "enter"]
        for nm in ("local_settings", "deterministic_PRNG", "BuildContext"):
            rep.check(open_.count(nm) == 1 and ("exit", nm) not in a[:i], "test-enclosed", f"execute_once:{nm}", loc(o), f"the test function can run outside {nm}")
            rep.check(("exit", nm) in a[i:] if nm in open_ else True, "test-left", f"execute_once:{nm}", loc(o), f"{nm} is not left after the test case")
    rep.check(sites > 0, "test-run-found", "execute_once", f.loc, "the call of the test runner was not found")


def check_subtest(rep):
    """runner.subTest is put back however the run ends"""
    f = rep.func(H + "core.given.<locals>.run_test_as_given.<locals>.wrapped_test")
    RUNNER = None

    def ev(k, t, x):
        if k == "setattr" and t[2] == "subTest":
            return ("subTest", dm(x["value"]))
        if k == "call" and last(t[1]) == "run_engine":
            return "run"
        return None

    n = 0
    for err in (None, "pseudo.User", "builtins.KeyboardInterrupt"):
        r = (lambda c: (err,) if last(c[1]) == "run_engine" else ()) if err else NOTHING
        for o in rep.trace(f, ev, lambda a: mentions(a, "subTest") or is_call(a, "isinstance") and mentions(a, "TestCase"), LOCAL, bool(err), raises=r, prune=lambda a: False, max_states=200):
            a = [x for x in o.state.auto if x != "run"]
            if not a:
                continue
            n += 1
            rep.check(len(a) % 2 == 0 and a[-1][1][0] == "a" and a[-1][1][2] == "subTest", "subtest-restored", f"wrapped_test:{(err or 'normal').rsplit('.', 1)[-1]}", loc(o), "the test case's subTest method stays replaced after the run")
    rep.check(n > 0, "subtest-found", "wrapped_test", f.loc, "no path replaces subTest")


# ---------------------------------------------------------------- generic discipline
def check_generators(rep):
    """every context manager written as a generator undoes on the exceptional exit what it undoes on the normal one"""
    n = 0
    for f in list(rep.p.functions.values()):
        decs = [attr_chain(d) for d in f.node.decorator_list]
        if not any(d.endswith("contextmanager") for d in decs) or f.module.name.startswith("hypothesis.internal.coverage"):
            continue
        if not any(isinstance(x, (ast.Yield,)) for x in own_nodes(f.node)):
            continue
        n += 1

        def ev(k, t, x):
            if k == "yield":
                return "yield"
            if k in ("setattr", "setitem"):
                return ("w", dm(t), dm(x["value"]))
            if k == "del":
                return ("w", dm(t), None)
            if k == "call" and t[1][0] == "a" and t[1][2] in ("setstate", "clear", "end_group", "pop", "remove", "restore_all", "__exit__"):
                return ("c", dm(t)[1])
            return None

        outs = rep.trace(f, ev, lambda a: True, LOCAL, True, raises=NOTHING, max_states=200)
        norm, exc = {}, {}
        for o in outs:
            a = o.state.auto
            g = frozenset((k, v) for k, v in o.state.guards)
            if o.kind == "return" and "yield" in a:
                i = a.index("yield")
                before = {x for x in a[:i]}
                norm.setdefault(tuple(a[:i]), []).append((set(a[i + 1:]), g, o))
            elif o.kind == "raise":
                exc.setdefault(0, []).append((list(a), g, o))
        for pre, lst in norm.items():
            for post, g, o in lst:
                undo = {x for x in post if x[0] == "w" and any(y[:2] == x[:2] for y in pre)} | {x for x in post if x[0] == "c"}
                if not undo:
                    continue
                for a, g2, o2 in exc.get(0, []):
                    if tuple(a[:len(pre)]) != pre:
                        continue
                    rest = a[len(pre):]
                    for x in undo:
                        rep.check(x in rest, "undone-on-error", f"{f.qualname}:{show(x[1])[:50]}", loc(o2, f), f"{f.qualname} restores {show(x[1])[:60]} only when its block ends normally")
    rep.check(n >= 9, "generators-found", "contextmanager", "", f"only {n} generator context managers found")


HOOKS = {
    "sys.setrecursionlimit": {H + "internal.conjecture.junkdrawer.ensure_free_stackframes"},
    "sys.settrace": {H + "internal.scrutineer.Tracer"},
    "sys.monitoring.use_tool_id": {H + "internal.scrutineer.Tracer"},
    "sys.monitoring.free_tool_id": {H + "internal.scrutineer.Tracer"},
    "sys.monitoring.set_events": {H + "internal.scrutineer.Tracer"},
    "sys.monitoring.register_callback": {H + "internal.scrutineer.Tracer"},
    "gc.callbacks.insert": {H + "internal.conjecture.junkdrawer.gc_cumulative_time"},
    "sys.path.append": {H + "extra.cli"},
    "sys.path.insert": {H + "extra.cli"},
}
MUTATORS = ("sys.set", "sys.monitoring.", "gc.callbacks.", "gc.disable", "gc.enable", "gc.set_", "gc.freeze", "os.chdir", "os.putenv", "os.unsetenv", "os.umask", "os.environ.update", "os.environ.pop", "os.environ.setdefault",
            "os.environ.clear", "locale.setlocale", "signal.signal", "signal.alarm", "signal.setitimer", "socket.setdefaulttimeout", "threading.settrace", "threading.setprofile", "threading.excepthook", "decimal.setcontext", "decimal.getcontext",
            "sys.path.", "sys.modules.pop", "sys.modules.update", "sys.meta_path.", "random.seed", "random.setstate", "numpy.random.seed", "numpy.random.set_state", "numpy.seterr", "builtins.setattr",
            "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "logging.disable", "logging.basicConfig", "faulthandler.", "time.tzset", "atexit.register", "asyncio.set_event_loop", "multiprocessing.set_start_method")
READ_ONLY = ("sys.monitoring.get_tool", "sys.monitoring.get_events", "linecache.getline", "linecache.getlines", "linecache.checkcache", "sys.monitoring.events", "faulthandler.is_enabled", "threading.excepthook")


def check_hooks(rep):
    """process-wide hooks are changed only by the managers judged above"""
    p = rep.p
    n = 0
    for f in p.functions.values():
        for c in own_nodes(f.node):
            if not isinstance(c, ast.Call):
                continue
            fq = p.resolve_expr_fq(f.module, c.func)
            if fq is None and name_of(c.func) in ("setattr", "delattr") and isinstance(c.func, ast.Name):
                fq = "builtins.setattr"
            if not fq or not fq.startswith(MUTATORS) or fq.startswith(READ_ONLY):
                continue
            if fq == "builtins.setattr":
                b = c.args[0] if c.args else None
                bq = p.resolve_expr_fq(f.module, b) if isinstance(b, (ast.Name, ast.Attribute)) else None
                shared = isinstance(b, (ast.Name, ast.Attribute)) and module_ref(p, f, b)
                rep.check(not shared, "module-patched", f"{f.qualname}:{attr_chain(b)}", nloc(f, c), f"{f.qualname} patches {bq}")
                continue
            n += 1
            if fq.startswith("warnings."):
                rep.check(in_catch_warnings(p, f, c), "filters-scoped", f"{f.qualname}:{fq}", nloc(f, c), f"{fq} changes the process's warning filters for good in {f.qualname}")
                continue
            rep.check(fq in HOOKS and owned(rep, f, HOOKS[fq]), "hook-owner", f"{f.qualname}:{fq}", nloc(f, c), f"{f.qualname} calls {fq}, which changes state shared by the whole process and is not put back")
    rep.check(n >= 10, "hooks-found", "process-wide calls", "", f"only {n} process-wide calls found")


def in_catch_warnings(p, f, c, depth=0):
    if only_part(p, f) and depth < 3:
        return all(in_catch_warnings(p, g, n, depth + 1) for g, n in call_sites(p, f.name))
    ps = parents(f)
    q = c
    while q in ps:
        q = ps[q]
        if isinstance(q, (ast.With, ast.AsyncWith)) and any(isinstance(i.context_expr, ast.Call) and name_of(i.context_expr.func) == "catch_warnings" for i in q.items):
            return True
    return False


def module_ref(p, f, b):
    """b names a module, or an attribute of a module or of something imported (not a local object)"""
    root = b
    while isinstance(root, (ast.Attribute, ast.Subscript)):
        root = root.value
    if not isinstance(root, ast.Name):
        return False
    fn = f
    while fn is not None:
        a = fn.node.args if hasattr(fn.node, "args") else None
        if a is not None and root.id in {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set()):
            return False
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == root.id:
                return False
        fn = fn.parent
    for n in ast.walk(f.node):  # imported inside the function
        if isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name.split(".")[0]) == root.id for x in n.names):
            return True
    fn = f.parent
    while fn is not None:
        if any(isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name.split(".")[0]) == root.id for x in n.names) for n in own_nodes(fn.node)):
            return True
        fn = fn.parent
    for n in f.module.tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name.split(".")[0]) == root.id for x in n.names):
            return True
        if isinstance(n, (ast.Try, ast.If)):
            for m in ast.walk(n):
                if isinstance(m, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name.split(".")[0]) == root.id for x in m.names):
                    return True
    return False


PATCHES = {  # (target, function): permanent by design, or undone there
    "core.global_force_seed": "_hypothesis_pytestplugin.pytest_configure",
    "core.pytest_shows_exceptiongroups": "_hypothesis_pytestplugin.pytest_runtest_call",
    "core.running_under_pytest": "_hypothesis_pytestplugin.pytest_runtest_call",
    "_hypothesis_globals.in_initialization": None,
    "fixtures.FixtureFunctionMarker.__call__": None,
    "hypothesis.core._hypothesis_global_random": H + "internal.entropy.deterministic_PRNG",
    "_global_type_lookup[Any]": H + "extra.ghostwriter._with_any_registered",
    "types._global_type_lookup[custom_type]": H + "strategies._internal.core.register_type_strategy",
    "gc.hooks.on_gc_minor": H + "internal.conjecture.junkdrawer.gc_cumulative_time",
    "gc.hooks.on_gc_collect_step": H + "internal.conjecture.junkdrawer.gc_cumulative_time",
    "settings._profiles[name]": H + "_settings.settings.register_profile",
    "settings._current_profile": H + "_settings.settings.load_profile",
}


def check_patches(rep):
    """no function assigns to an attribute of an imported module or class, except the listed ones"""
    p = rep.p
    n = 0
    for f in p.functions.values():
        for node in own_nodes(f.node):
            tg = node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) and getattr(node, "value", 1) is not None else []
            for t in tg:
                if not isinstance(t, (ast.Attribute, ast.Subscript)):
                    continue
                b = t.value
                if not isinstance(b, (ast.Name, ast.Attribute)) or not module_ref(p, f, b):
                    continue
                n += 1
                key = attr_chain(t)
                ok = False
                fq = p.resolve_expr_fq(f.module, b) or attr_chain(b)
                for pat, own in PATCHES.items():
                    if pat == key or pat.split("[")[0] == key.split("[")[0] and "[" in pat:
                        ok = own is None or owned(rep, f, {own})
                    if ok:
                        break
                if fq.startswith("hypothesis.internal.escalation.current_pytest_item") or key.startswith("current_pytest_item.value."):
                    ok = True  # an attribute of the running pytest item, not of a module
                rep.check(ok, "module-patched", f"{f.qualname}:{key}", nloc(f, t), f"{f.qualname} assigns to {key}, which every later test shares")
    rep.check(n >= 5, "patches-found", "module attributes", "", f"only {n} assignments to imported objects found")


def check_unwrap(rep):
    """the unwrapping depth and its cache are back to their initial state when the outermost call is left"""
    f = rep.func(H + "strategies._internal.lazy.unwrap_strategies")
    D = ("g", H + "strategies._internal.lazy.unwrap_depth")

    def ev(k, t, x):
        if k == "setattr" and t[2] == "unwrap_depth" or k == "setattr" and show(t).endswith("unwrap_depth"):
            v = dm(x["value"])
            return ("depth", v[1], v[3]) if v[0] == "bin" else ("depth", "?", v)
        if k == "call" and last(t[1]) == "clear":
            return "clear"
        if k == "branch" and any_sub(dm(t), lambda y: y[0] == "g" and y[1].endswith("unwrap_depth")):
            return ("outer", dm(t), x["val"])
        return None

    n = 0
    for nm, r in (("normal", NOTHING), ("error", lambda c: ("pseudo.User",) if last(c[1]) == "unwrap_strategies" else ())):
        for o in rep.trace(f, ev, lambda a: True, lambda g, c, rr: extracted(g, c, rr) and g is not f, True, raises=r):
            d = [x for x in o.state.auto if x[0] == "depth"]
            if not d:
                continue
            n += 1
            up = sum(1 if x[1] == "+" else -1 if x[1] == "-" else 0 for x in d)
            rep.check(up == 0 and all(x[1] in "+-" and x[2] == const(1) for x in d) and d[0][1] == "+", "depth-balanced", f"unwrap_strategies:{nm}:{o.kind}", loc(o), "the unwrapping depth is not put back, so the cache is never emptied again")
            outer = [(a, v) for a, v in ((dm(k), v) for k, v in o.state.guards) if a[0] == "cmp" and a[1] == "<" and D in a[2:] and const(0) in a[2:]]
            inner = any(a == ("cmp", "<", const(0), D) and v for a, v in outer)
            rep.check(inner or "clear" in o.state.auto, "cache-emptied", f"unwrap_strategies:{nm}:{o.kind}", loc(o), "the cache outlives the outermost call, so strategies changed later are not seen")
    rep.check(n > 0, "unwrap-analysed", "unwrap_strategies", f.loc, "unwrapping no longer tracks its depth")


CHECKS = {}


def G01(rep):
    """Acquire/release analysis over the exceptional control flow of every context manager that changes
    process-wide state, who-may-call audits of every process-wide hook, and a check that each manager is
    only ever entered by a with statement."""
    for fn in (check_dynamic, check_with_items, check_build_context, check_recursion_limit, check_tracer, check_random,
               check_test_case, check_subtest, check_generators, check_hooks, check_patches, check_unwrap):
        rep.part(fn)


CHECKS["G01"] = G01


# ---------------------------------------------------------------- G02
CORE = H + "core."
ENTROPY_CALLS = ("random.", "secrets.", "os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4", "numpy.random.")
RND = "random.Random"


def check_seed(rep):
    """seed decorator, then derandomize, then the forced seed, then fresh entropy"""
    f = rep.func(CORE + "get_random_for_wrapped_test")
    W = P("wrapped_test")
    SEED = at(W, "_hypothesis_internal_use_seed")
    FORCE = ("g", CORE + "global_force_seed")
    GLOB = ("g", CORE + "_hypothesis_global_random")

    def ev(k, t, x):
        if k == "setattr" and t[2] == "_hypothesis_internal_use_generated_seed":
            return ("generated", dm(x["value"]))
        return None

    seen = set()
    for o in rep.trace(f, ev, lambda a: True, LOCAL, False):
        if o.kind != "return":
            continue
        g = {dm(k): v for k, v in o.state.guards}
        seed = g.get(("cmp", "is", SEED, NONE))
        der = next((v for k, v in g.items() if k[0] == "a" and k[2] == "derandomize"), None)
        force = g.get(("cmp", "is", FORCE, NONE))
        gen = [x[1] for x in o.state.auto if x[0] == "generated"]
        v = dm(o.value)
        if not (v[0] == "call" and v[1] == ("g", RND)):
            rep.bad("seed-source", "get_random_for_wrapped_test", loc(o), f"the run's generator is {show(v)[:60]}, not a freshly seeded one")
            continue
        s = v[2][0] if v[2] else NONE
        if seed is False:
            case, ok = "seed", s == SEED
        elif der is True and seed is True:
            case, ok = "derandomize", any_sub(s, lambda y: is_call(y, "function_digest") and y[2] and y[2][0] == P("test")) and not any_sub(s, lambda y: y in (FORCE, GLOB, SEED))
        elif force is False and seed is True and der is False:
            case, ok = "forced", s == FORCE
        elif force is True and seed is True and der is False:
            case, ok = "fresh", is_call(s, "getrandbits") and any_sub(s, lambda y: y[0] == "g" and y[1].startswith(CORE + "_hypothesis_global_random"))
        else:
            rep.bad("seed-precedence", "get_random_for_wrapped_test", loc(o), f"a generator is chosen without consulting the sources in order ({', '.join(('' if b else 'not ') + show(k)[:50] for k, b in g.items())})")
            continue
        seen.add(case)
        rep.check(ok, "seed-source", f"get_random_for_wrapped_test:{case}", loc(o), f"with {case} the run is seeded with {show(s)[:70]}")
        if case == "fresh":
            rep.check(gen and gen[-1] == s, "seed-recorded", "get_random_for_wrapped_test", loc(o), "the fresh seed is not recorded, so the failure cannot be reproduced from its report")
        else:
            rep.check(bool(gen) and gen[-1] == NONE, "seed-recorded", f"get_random_for_wrapped_test:{case}", loc(o), "a seed generated by an earlier run is still reported")
    for c in ("seed", "derandomize", "forced", "fresh"):
        rep.check(c in seen, "seed-cases", f"get_random_for_wrapped_test:{c}", f.loc, f"no path seeds the run from {c}")
    # the seed decorator and its propagation
    g = rep.func(CORE + "seed.<locals>.accept")
    n = 0
    for o in rep.trace(g, lambda k, t, x: ("seed", dm(x["value"]), dm(t)[1]) if k == "setattr" and t[2] == "_hypothesis_internal_use_seed" else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            n += 1
            s = [x for x in o.state.auto if x[0] == "seed"]
            rep.check(len(s) == 1 and is_free(s[0][1], "seed") and s[0][2] == P("test"), "seed-attached", "seed.accept", loc(o), "the decorator does not attach exactly the given seed to the test")
            rep.check(o.value == P("test"), "seed-attached", "seed.accept:returns", loc(o), "the decorator does not return the test")
    rep.check(n > 0, "seed-decorator", "seed.accept", g.loc, "the seed decorator never returns")
    srcs = 0
    for fn, node, how in attr_writes(rep.p, "_hypothesis_internal_use_seed"):
        if owned(rep, fn, {CORE + "seed"}):
            continue
        srcs += 1
        ps = parents(fn)
        v = getattr(ps.get(node), "value", None)
        ok = isinstance(v, ast.Call) and name_of(v.func) == "getattr" and len(v.args) == 3 and isinstance(v.args[1], ast.Constant) and v.args[1].value == "_hypothesis_internal_use_seed" and isinstance(v.args[2], ast.Constant) and v.args[2].value is None
        ok = ok or isinstance(v, ast.Attribute) and v.attr == "_hypothesis_internal_use_seed"
        ok = ok or isinstance(v, ast.Name)
        rep.check(ok, "seed-propagated", f"{fn.qualname}", nloc(fn, node), f"{fn.qualname} replaces the test's seed instead of copying it")
    rep.check(srcs >= 2, "seed-propagated", "sites", "", "the seed is no longer copied to the wrapped test and to state machine tests")
    # the command line
    pc = rep.func("_hypothesis_pytestplugin.pytest_configure")

    def pev(k, t, x):
        if k == "setattr" and t[2] == "global_force_seed":
            return ("force", dm(x["value"]))
        return None

    n = 0
    for o in rep.trace(pc, pev, lambda a: True, LOCAL, True, raises=lambda c: ("builtins.ValueError",) if last(c[1]) == "int" else (), max_states=400):
        opt = next((v for k, v in ((dm(k), v) for k, v in o.state.guards) if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and any_sub(k[2], lambda y: is_call(y, "getoption")) and mentions(k[2], "SEED_OPTION")), None)
        fs = [x[1] for x in o.state.auto if x[0] == "force"]
        if o.kind != "return":
            continue
        if opt is False:
            n += 1
            rep.check(len(fs) == 1 and any_sub(fs[0], lambda y: is_call(y, "getoption") and mentions(y, "SEED_OPTION")) and (fs[0][0] != "call" or last(fs[0][1]) in ("int", "getoption")), "seed-option", "pytest_configure", loc(o), "the seed given on the command line is not the forced seed")
        elif fs:
            rep.bad("seed-option", "pytest_configure:unset", loc(o), "a seed is forced although none was given on the command line")
    rep.check(n > 0, "seed-option", "pytest_configure:found", pc.loc, "the command-line seed is never used")
    only_writers(rep, "global_force_seed", {"_hypothesis_pytestplugin.pytest_configure"}, "seed-forced", "only the command line forces a seed")


def is_free(t, name):
    return t == P(name) or t[0] in ("free", "p", "cl", "v", "l") and name in t[1:] or t[0] == "g" and last(t) == name


def check_run_random(rep):
    """every random choice of the engine comes from the generator of the run"""
    p = rep.p
    # the generator chosen above reaches the state object, the engine, the tree, the data and the provider
    for fq, attrs in ((CORE + "StateForActualGivenExecution.__init__", ("random",)), (H + "internal.conjecture.data.ConjectureData.__init__", ("_random",)), (H + "internal.conjecture.pareto.ParetoFront.__init__", ("__random",))):
        f = rep.func(fq)
        n = 0
        for o in rep.trace(f, lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and dm(t)[2] in attrs and t[1] == SELF else None, lambda a: False, LOCAL, False):
            if o.kind == "return":
                n += 1
                s = [x[1] for x in o.state.auto]
                rep.check(s == [P("random")], "random-handed-on", f"{f.qualname}", loc(o), f"{f.qualname} does not keep the generator it is given")
        rep.check(n > 0, "random-handed-on", f"{f.qualname}:returns", f.loc, "constructor never returns")
    e = rep.func(H + "internal.conjecture.engine.ConjectureRunner.__init__")

    def eev(k, t, x):
        return ("set", dm(x["value"])) if k == "setattr" and dm(t) == at(SELF, "random") else None

    seen = 0
    for o in rep.trace(e, eev, lambda a: a == P("random") or a[0] == "cmp" and P("random") in a, LOCAL, False):
        g = guards(o)
        given = g.get(P("random"))
        if given is None:
            given = next((not v for k, v in g.items() if k == ("cmp", "is", P("random"), NONE)), None)
        for x in o.state.auto:
            if given is True:
                seen += 1
                rep.check(x[1] == P("random"), "random-handed-on", "ConjectureRunner.__init__", loc(o), "the engine replaces the generator it is given")
            elif given is None:
                rep.check(x[1] == P("random"), "random-handed-on", "ConjectureRunner.__init__", loc(o), "the engine does not use the generator it is given")
                seen += 1
    rep.check(seen > 0, "random-handed-on", "ConjectureRunner.__init__:found", e.loc, "the engine keeps no generator")
    only_writers(rep, "random", {e.fq, CORE + "StateForActualGivenExecution.__init__"}, "random-writers", "a run keeps one generator", module="hypothesis.core")
    only_writers(rep, "random", {e.fq}, "random-writers", "a run keeps one generator", module="hypothesis.internal.conjecture.engine")
    only_writers(rep, "_random", {H + "internal.conjecture.data.ConjectureData.__init__", H + "internal.conjecture.providers.HypothesisProvider.__init__", H + "internal.conjecture.providers.URandomProvider.__init__"}, "random-writers", "a test case keeps one generator", module="hypothesis.internal.conjecture")
    # call sites
    sites = {"ConjectureRunner": "random", "StateForActualGivenExecution": "random", "new_conjecture_data": None, "generate_novel_prefix": "random"}
    for name, kwname in sites.items():
        if kwname is None:
            continue
        n = 0
        for f, c in call_sites(p, name):
            if f.cls is not None and f.cls.fq.endswith("." + name) or name == "generate_novel_prefix" and not (isinstance(c.func, ast.Attribute) and attr_chain(c.func.value).endswith("tree")):
                continue
            n += 1
            a = next((k.value for k in c.keywords if k.arg == kwname), None)
            if a is None:
                a = c.args[0] if name == "generate_novel_prefix" and c.args else c.args[3] if name == "StateForActualGivenExecution" and len(c.args) > 3 else None
            ok = a is not None and (attr_chain(a) in ("self.random", "self._random", "random", "self.engine.random", "rnd") or isinstance(a, ast.Name))
            rep.check(ok, "random-passed", f"{f.qualname}:{name}", nloc(f, c), f"{f.qualname} does not pass the run's generator to {name}")
        rep.check(n > 0, "random-passed", f"{name}:called", "", f"{name} is never called")
    for fq in (CORE + "given.<locals>.run_test_as_given.<locals>.wrapped_test", CORE + "given.<locals>.run_test_as_given.<locals>._get_fuzz_target"):
        f = rep.func(fq)
        n = 0

        def sev(k, t, x):
            if k == "call" and last(t[1]) == "StateForActualGivenExecution":
                return ("state", arg(dm(t), 3, "random"))
            return None

        for o in rep.trace(f, sev, lambda a: False, lambda g, c, r: extracted(g, c, r) and g.parent is None, False, max_states=200):
            for x in o.state.auto:
                n += 1
                rep.check(x[1] is not None and is_call(x[1], "get_random_for_wrapped_test"), "random-chosen", f.qualname, loc(o), f"{f.qualname} does not run with the generator chosen for the test")
        rep.check(n > 0, "random-chosen", f"{f.qualname}:found", f.loc, "no state object is created")
    r = rep.func(CORE + "StateForActualGivenExecution.run_engine")
    n = 0
    for f, c in call_sites(p, "ConjectureRunner"):
        if f.fq.startswith("hypothesis.core"):
            n += 1
            a = next((k.value for k in c.keywords if k.arg == "random"), None)
            rep.check(a is not None and attr_chain(a) == "self.random", "random-passed", "run_engine", nloc(f, c), "the engine does not run with the test's generator")
    rep.check(n > 0, "random-passed", "run_engine:found", r.loc, "run_engine creates no engine")
    nd = rep.func(H + "internal.conjecture.engine.ConjectureRunner.new_conjecture_data")
    for o in rep.trace(nd, lambda k, t, x: ("data", arg(dm(t), None, "random")) if k == "call" and last(t[1]) == "ConjectureData" else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            rep.check(any(x == ("data", at(SELF, "random")) for x in o.state.auto), "random-handed-on", "new_conjecture_data", loc(o), "a test case does not draw from the run's generator")
    # the providers' generator
    pi = rep.func(H + "internal.conjecture.providers.HypothesisProvider.__init__")
    for o in rep.trace(pi, lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and t[2] == "_random" else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            for x in o.state.auto:
                rep.check(x[1] == NONE or x[1][0] == "a" and x[1][2] == "_random", "random-handed-on", "HypothesisProvider.__init__", loc(o), "the provider does not draw from the test case's generator")


ALLOWED_RANDOM = {
    "getrandbits": {H + "internal.conjecture.engine.ConjectureRunner.__init__"},  # only without a given generator, see check_run_random
    "shuffle": {H + "strategies._internal.strategies.SearchStrategy.example"},  # interactive use, outside any test
    "_inst": {H + "internal.reflection.get_pretty_function_description"},  # only compared with
    "getstate": {H + "control.deprecate_random_in_strategy"},
}
SEEDLESS = {CORE + "get_random_for_wrapped_test", H + "internal.entropy.deterministic_PRNG", H + "internal.conjecture.engine.ConjectureRunner.__init__"}


def check_global_random(rep):
    """no code draws from the global generators or any other source of entropy"""
    p = rep.p
    n = 0
    for m in p.modules.values():
        if m.name.startswith("hypothesis.vendor"):
            continue
        funcs = [f for f in p.functions.values() if f.module is m]
        owner = {}
        for f in funcs:
            for x in own_nodes(f.node):
                owner[x] = f
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.Attribute, ast.Name)) or not isinstance(x.ctx, ast.Load):
                continue
            f = owner.get(x)
            if f is not None and not module_ref(p, f, x):
                continue
            fq = p.resolve_expr_fq(m, x)
            if not fq or not fq.startswith(ENTROPY_CALLS):
                continue
            if fq in ("random.Random", "random", "numpy.random", "random.SystemRandom") and not isinstance(x, ast.Attribute):
                pass
            name = fq.rsplit(".", 1)[-1]
            if fq.startswith(RND):
                continue
            n += 1
            where = f.qualname if f else m.name
            if m.name == "hypothesis.internal.entropy":
                continue  # judged by check_random (G01): seeded, saved and restored
            ok = fq.startswith("random.") and name in ALLOWED_RANDOM and f is not None and owned(rep, f, ALLOWED_RANDOM[name])
            rep.check(ok, "global-random", f"{where}:{fq}", nloc(f, x) if f else f"{m.path}:{x.lineno}", f"{where} uses {fq}, which is not controlled by the run's seed")
    rep.check(n >= 3, "global-random", "found", "", "no use of a global generator found (the audit no longer resolves names)")
    n = 0
    for f, c in call_sites(p, "Random") + call_sites(p, "SystemRandom") + call_sites(p, "URandom"):
        fq = p.resolve_expr_fq(f.module, c.func) or ""
        n += 1
        if name_of(c.func) == "URandom":
            rep.check(owned(rep, f, {H + "internal.conjecture.providers.URandomProvider"}), "generator-made", f"{f.qualname}:URandom", nloc(f, c), f"{f.qualname} draws from the system's entropy")
            continue
        if name_of(c.func) == "SystemRandom":
            rep.bad("generator-made", f"{f.qualname}:SystemRandom", nloc(f, c), f"{f.qualname} draws from the system's entropy")
            continue
        if not fq.endswith("Random"):
            continue
        rep.check(bool(c.args or c.keywords) or owned(rep, f, SEEDLESS), "generator-made", f"{f.qualname}:Random", nloc(f, c), f"{f.qualname} creates a generator seeded from the system's entropy")
        for a in c.args:
            bad = [y for y in ast.walk(a) if isinstance(y, ast.Call) and name_of(y.func) in ("id", "hash", "time", "perf_counter", "monotonic", "getpid", "time_ns", "urandom")]
            rep.check(not bad, "generator-made", f"{f.qualname}:Random-seed", nloc(f, c), f"{f.qualname} seeds a generator with a value that differs between runs")
    rep.check(n >= 5, "generator-made", "found", "", "no generators are created")
    # nothing that depends on the order of a set decides a random choice
    n = 0
    for f in p.functions.values():
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("choice", "sample", "choices", "shuffle") and "random" in attr_chain(c.func.value).lower() and c.args:
                n += 1
                rep.check(not unordered(f, c.args[0]), "ordered-choice", f"{f.qualname}:{attr_chain(c)[:50]}", nloc(f, c), f"{f.qualname} picks from an unordered set, so the same seed gives different results")
    rep.check(n >= 6, "ordered-choice", "found", "", "no random selections found")
    # the digest of a test is the same in every process
    d = rep.func(H + "internal.reflection.function_digest")
    closure_, work = set(), [d]
    while work:
        f = work.pop()
        if f.fq in closure_:
            continue
        closure_.add(f.fq)
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call):
                nm = name_of(c.func)
                fq = p.resolve_expr_fq(f.module, c.func) or ""
                rep.check(not (nm in ("id", "hash", "getpid", "time", "getrandbits", "urandom", "gethostname", "getcwd") and (isinstance(c.func, ast.Name) or "." in fq)), "digest-stable", f"{f.qualname}:{nm}", nloc(f, c), f"the digest of a test depends on {nm}(), which differs between runs")
                if f.fq in closure_ and f.name == "function_digest" and fq in p.functions and p.functions[fq].module is f.module:
                    work.append(p.functions[fq])
        for a in own_nodes(f.node):
            if isinstance(a, ast.Attribute) and f is d:
                rep.check(a.attr not in ("co_filename", "__file__", "co_firstlineno", "__module__", "__code__"), "digest-stable", f"{f.qualname}:{a.attr}", nloc(f, a), f"the digest of a test depends on {a.attr}")
    outs = rep.trace(d, lambda k, t, x: ("hash", dm(t)[2][0]) if k == "call" and last(t[1]) == "update" else None, lambda a: True, LOCAL, False)
    for o in outs:
        if o.kind == "return":
            rep.check(is_call(dm(o.value), "digest"), "digest-made", "function_digest", loc(o), "the digest is not the hash of the test's source")
            rep.check(any(mentions(x[1], "getsource") or any_sub(x[1], lambda y: is_call(y, "getsource")) for x in o.state.auto) and any(any_sub(x[1], lambda y: is_call(y, "get_signature")) for x in o.state.auto), "digest-made", "function_digest:inputs", loc(o), "the digest ignores the test's source or signature")


def unordered(f, a, depth=0):
    if depth > 4:
        return False
    if isinstance(a, (ast.Set, ast.SetComp)):
        return True
    if isinstance(a, ast.Call):
        n = name_of(a.func)
        if n in ("set", "frozenset"):
            return True
        if n in ("list", "tuple") and a.args:
            return unordered(f, a.args[0], depth + 1)
        if isinstance(a.func, ast.Attribute) and n in ("union", "intersection", "difference", "symmetric_difference"):
            return True
        return False
    if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return unordered(f, a.left, depth + 1) or unordered(f, a.right, depth + 1)
    if isinstance(a, ast.Name):
        vals = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in n.targets)]
        anns = [n for n in own_nodes(f.node) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == a.id and n.value is not None]
        vals += [n.value for n in anns]
        return bool(vals) and any(unordered(f, v, depth + 1) for v in vals)
    return False


def check_same_seed(rep):
    """the global generators start every test case from the same state"""
    n = 0
    for f, c in call_sites(rep.p, "deterministic_PRNG"):
        n += 1
        rep.check(all(isinstance(a, ast.Constant) for a in c.args) and all(isinstance(k.value, ast.Constant) for k in c.keywords), "seeded-identically", f.qualname, nloc(f, c), f"{f.qualname} seeds the global generators with {attr_chain(c)}, which can differ between test cases")
    rep.check(n > 0, "seeded-identically", "found", "", "deterministic_PRNG is never used")
    f = rep.func(H + "internal.entropy.deterministic_PRNG")
    d = f.node.args.defaults
    rep.check(len(d) == 1 and isinstance(d[0], ast.Constant) and isinstance(d[0].value, int), "seeded-identically", "deterministic_PRNG:default", f.loc, "the default seed of the global generators is not a constant")
    r = rep.func(H + "internal.entropy.register_random")
    n = 0
    for o in rep.trace(r, lambda k, t, x: ("register", dm(x["value"])) if k == "setitem" and "RANDOMS_TO_MANAGE" in show(t) else None, lambda a: True, LOCAL, False, max_states=400):
        if o.kind == "return":
            g = {dm(k): v for k, v in o.state.guards}
            known = any(k[0] == "cmp" and k[1] == "in" and k[2] == P("r") and v and "RANDOMS_TO_MANAGE" in show(k[3]) for k, v in g.items())
            n += 1
            rep.check(known or ("register", P("r")) in o.state.auto, "generator-registered", "register_random", loc(o), "a registered generator is not managed")
        if o.kind == "raise":
            rep.check(not o.state.auto, "generator-registered", "register_random:error", loc(o), "a refused generator is registered all the same")
    rep.check(n >= 2, "generator-registered", "register_random:found", r.loc, "register_random never registers")


RM = H + "strategies._internal.random."
AR = RM + "ArtificialRandom."
STATE = ("a", SELF, "__state")


def tok(t):
    """the facts about the arguments a term depends on: whole values, or only their length"""
    out = set()

    def key_of(y):
        if y[0] == "sub" and y[1] == P("kwargs") and y[2][0] == "c":
            return y[2][2]
        if y[0] == "call" and last(y[1]) == "get" and y[1][0] == "a" and y[1][1] == P("kwargs") and y[2] and y[2][0][0] == "c":
            return y[2][0][2]
        return None

    def go(y):
        if not isinstance(y, tuple) or not y:
            return
        if is_call(y, "len") and len(y[2]) == 1 and key_of(y[2][0]):
            out.add(("len", key_of(y[2][0])))
            return
        if isinstance(y[0], str):
            k = key_of(y)
            if k:
                out.add(("val", k))
                return
            if is_call(y, "items") and y[1] == ("a", P("kwargs"), "items"):
                out.add(("all",))
                return
            if y == P("kwargs"):
                out.add(("names",))
                return
        for z in y:
            if isinstance(z, tuple):
                go(z)
    go(t)
    return out


def consistent_method(g):
    """the path's facts about `method` can hold together"""
    M = P("method")
    eqs = {k[3 if k[2] == M else 2]: v for k, v in g.items() if k[0] == "cmp" and k[1] == "==" and M in k[2:]}
    ins = [(k[3], v) for k, v in g.items() if k[0] == "cmp" and k[1] == "in" and k[2] == M and k[3][0] in ("tuple", "list", "set")]
    pos = [k for k, v in eqs.items() if v]
    if len(pos) > 1:
        return False, None
    poss = None
    for c, v in ins:
        if v:
            poss = set(c[1]) if poss is None else poss & set(c[1])
    if pos:
        if poss is not None and pos[0] not in poss:
            return False, None
        if any(not v and pos[0] in c[1] for c, v in ins):
            return False, None
        return True, pos[0]
    if poss is not None:
        poss = {x for x in poss if eqs.get(x) is not False}
        if not poss:
            return False, None
        return True, tuple(sorted(poss, key=str))
    return True, None


def check_random_objects(rep):
    """a generated random object answers a repeated question from a state with the recorded answer"""
    f = rep.func(AR + "_hypothesis_do_random")

    def ev(k, t, x):
        if k == "call":
            c = dm(t)
            if c[1][0] == "a" and c[1][1] == at(SELF, "__data"):
                return "draw"
            if last(c[1]) == "__convert_result":
                return None
        if k == "setitem":
            b = dm(t)
            if b[1][0] == "a" and b[1][2] == "next_states":
                return ("record", b[1][1], b[2], dm(x["value"]))
        if k == "setattr" and dm(t) == STATE:
            return ("state", dm(x["value"]))
        return None

    seen = set()
    n = {"hit": 0, "new": 0}
    for o in rep.trace(f, ev, lambda a: True, LOCAL, True, raises=NOTHING, max_states=400):
        g = {dm(k): v for k, v in o.state.guards}
        ok, meth = consistent_method(g)
        if not ok or o.kind != "return":
            continue
        a = o.state.auto
        name = meth[2] if meth and meth[0] == "c" else "/".join(x[2] for x in meth) if meth else "other"
        v = dm(o.value)
        if is_call(v, "__convert_result"):
            rep.check(v[2][:2] == (P("method"), P("kwargs")), "random-converted", f"do_random:{name}", loc(o), "the recorded answer is converted with other arguments")
            res = v[2][2]
        else:
            res = v
        rec = [x for x in a if x[0] == "record"]
        st = [x[1] for x in a if x[0] == "state"]
        if rec:
            n["new"] += 1
            seen.add(name)
            _, base, key, stored = rec[0]
            rep.check(len(rec) == 1 and base == STATE, "answer-recorded", f"do_random:{name}", loc(o), "a new answer is not recorded exactly once in the current state")
            pair = stored[1] if stored[0] == "tuple" and len(stored[1]) == 2 else (None, None)
            rep.check(pair[0] == res, "answer-recorded", f"do_random:{name}:value", loc(o), "the recorded answer is not the one returned")
            rep.check(len(st) == 1 and st[0] == pair[1], "state-advanced", f"do_random:{name}", loc(o), "the object does not move on to the state recorded with the answer")
            i = a.index(rec[0])
            rep.check(("state", pair[1]) in a[i:], "state-advanced", f"do_random:{name}:order", loc(o), "the answer is recorded in the state that follows it")
            kt, rt = tok(key), tok(res)
            rep.check(any_sub(key, lambda y: y == P("method")), "key-complete", f"do_random:{name}:method", loc(o), "answers to different methods share a record")
            rep.check(not any_sub(res, lambda y: y[0] == "opq"), "key-complete", f"do_random:{name}:size", loc(o), "the answer is too large to analyse")
            for x in rt:
                rep.check(("all",) in kt or x in kt or x[0] == "len" and ("val", x[1]) in kt, "key-complete", f"do_random:{name}:{x[-1]}", loc(o), f"an answer that depends on {x[-1]} is replayed for other values of it")
            rep.check("draw" in a or not any_sub(res, lambda y: y[0] == "call" and last(y[1]).startswith("draw")), "answer-drawn", f"do_random:{name}", loc(o), "the answer is not drawn from the test case")
            rep.check("draw" in a or res[0] in ("list", "c", "tuple"), "answer-drawn", f"do_random:{name}", loc(o), "the answer does not come from the test case's data")
        else:
            n["hit"] += 1
            rep.check("draw" not in a, "replay-draws", f"do_random:{name}", loc(o), "an answer already recorded is drawn again")
            ok = res[0] == "sub" and res[2] == const(0) and res[1][0] == "sub" and res[1][1] == at(STATE, "next_states")
            rep.check(ok, "replay-recorded", f"do_random:{name}", loc(o), "a path answers without a recorded or a new answer")
            if ok:
                rep.check(st == [("sub", res[1], const(1))], "state-advanced", f"do_random:{name}:replay", loc(o), "replaying an answer does not move on to the state recorded with it")
    for k, v in n.items():
        rep.check(v > 0, "random-analysed", f"do_random:{k}", f.loc, f"no {k} path found")
    rep.check(len(seen) >= 10, "random-analysed", "do_random:methods", f.loc, f"only {len(seen)} methods record answers")
    # states are named, restored and seeded per test case
    D = at(SELF, "__data")
    s = rep.func(AR + "seed")
    for o in rep.trace(s, lambda k, t, x: ("state", dm(x["value"])) if k == "setattr" and dm(t) == STATE else None, lambda a: True, lambda g, c, r: extracted(g, c, r), False):
        if o.kind == "return":
            st = [x[1] for x in o.state.auto]
            ok = len(st) == 1 and (is_call(st[0], "state_for_seed") and st[0][2] == (D, P("seed")) or any_sub(st[0], lambda y: y[0] == "a" and y[2] == "seeds_to_states"))
            rep.check(ok, "seed-state", "ArtificialRandom.seed", loc(o), "seeding a generated random object does not select the state of that seed in this test case")
    h = rep.func(RM + "state_for_seed")

    def hev(k, t, x):
        if k == "setattr" and t[2] == "seeds_to_states":
            return ("table", dm(t)[1], dm(x["value"]))
        if k == "setitem":
            return ("item", dm(t), dm(x["value"]))
        return None

    n = 0
    for o in rep.trace(h, hev, lambda a: True, LOCAL, True, raises=NOTHING):
        if o.kind != "return":
            continue
        n += 1
        v = dm(o.value)
        items = [x for x in o.state.auto if x[0] == "item"]
        tabs = [x for x in o.state.auto if x[0] == "table"]
        rep.check(all(x[1] == P("data") for x in tabs), "seed-state", "state_for_seed:table", loc(o), "the states of seeds are not kept per test case")
        if items:
            rep.check(any(x[1][2] == P("seed") and x[2] == v for x in items), "seed-state", "state_for_seed:new", loc(o), "a new state is not recorded under its seed")
        else:
            ok = v[0] == "sub" and v[2] == P("seed") or is_call(v, "setdefault") or is_call(v, "get")
            rep.check(ok, "seed-state", "state_for_seed:known", loc(o), "a seed used before does not give the same state again")
    rep.check(n > 0, "seed-state", "state_for_seed:found", h.loc, "state_for_seed never returns")
    gs, ss = rep.func(AR + "getstate"), rep.func(AR + "setstate")

    def gev(k, t, x):
        if k == "setitem":
            return ("item", dm(t), dm(x["value"]))
        if k == "setattr":
            return ("set", dm(t), dm(x["value"]))
        return None

    n = 0
    for o in rep.trace(gs, gev, lambda a: True, LOCAL, True, raises=NOTHING):
        if o.kind != "return":
            continue
        ID = at(STATE, "state_id")
        g = {dm(k): v for k, v in o.state.guards}
        known = g.get(("cmp", "is", ID, NONE)) is False
        items = [x for x in o.state.auto if x[0] == "item"]
        ids = [x[2] for x in o.state.auto if x[0] == "set" and x[1] == ID]
        tabs = [x for x in o.state.auto if x[0] == "set" and x[1][2] == "states_for_ids"]
        rep.check(all(x[1][1] == D for x in tabs), "state-named", "getstate:table", loc(o), "the named states are not kept per test case")
        if known:
            rep.check(not items and not ids and dm(o.value) == ID, "state-named", "getstate:known", loc(o), "a state that already has a name is given another one")
        else:
            n += 1
            rep.check(len(items) == 1 and items[0][2] == STATE, "state-named", "getstate:new", loc(o), "the current state is not recorded under its name")
            rep.check(len(ids) == 1 and is_call(ids[0], "len"), "state-named", "getstate:fresh", loc(o), "two states can get the same name")
            rep.check(len(items) == 1 and items[0][1][2] in [ID] + ids and dm(o.value) in [ID] + ids, "state-named", "getstate:returned", loc(o), "getstate does not return the name the state is recorded under")
    rep.check(n > 0, "state-named", "getstate:found", gs.loc, "getstate names no state")
    for o in rep.trace(ss, lambda k, t, x: ("state", dm(x["value"])) if k == "setattr" and dm(t) == STATE else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            rep.check(list(o.state.auto) == [("state", ("sub", at(D, "states_for_ids"), P("state")))], "state-named", "setstate", loc(o), "setstate does not select the named state")
    for cls in ("ArtificialRandom", "TrueRandom"):
        c = rep.func(RM + cls + ".__copy__")
        for o in rep.trace(c, lambda k, t, x: ("copy", dm(t)[1][1], dm(t)[2][0]) if k == "call" and last(t[1]) == "setstate" else None, lambda a: True, LOCAL, False):
            if o.kind == "return":
                ok = [x for x in o.state.auto if x[0] == "copy"]
                rep.check(len(ok) == 1 and ok[0][1] == dm(o.value) and ok[0][2] == nosite(("call", at(SELF, "getstate"), (), (), 0)), "copy-state", f"{cls}.__copy__", loc(o), "a copy does not start from the state of the original")
                rep.check(is_call(o.value, cls), "copy-state", f"{cls}.__copy__:type", loc(o), "a copy is not a new object of the same kind")
    # true randomness is seeded from the test case
    R = at(SELF, "__random")
    t = rep.func(RM + "TrueRandom.__init__")
    for o in rep.trace(t, lambda k, tt, x: ("r", dm(x["value"])) if k == "setattr" and dm(tt) == R else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            rep.check(list(o.state.auto) == [("r", nosite(("call", ("g", RND), (P("seed"),), (), 0)))], "true-random", "TrueRandom.__init__", loc(o), "the generator is not seeded with the drawn seed")
    for m, inner in (("getstate", ()), ("setstate", (P("state"),)), ("seed", (P("seed"),))):
        q = rep.func(RM + "TrueRandom." + m)
        for o in rep.trace(q, lambda k, tt, x: ("call", dm(tt)) if k == "call" and dm(tt)[1] == at(R, m) else None, lambda a: True, LOCAL, False):
            if o.kind == "return":
                rep.check(list(o.state.auto) == [("call", nosite(("call", at(R, m), inner, (), 0)))], "true-random", f"TrueRandom.{m}", loc(o), f"{m} does not act on the object's own generator")
    q = rep.func(RM + "TrueRandom._hypothesis_do_random")
    for o in rep.trace(q, None, lambda a: True, LOCAL, True, raises=NOTHING):
        if o.kind == "return":
            v = dm(o.value)
            ok = v[0] == "call" and (is_call(v[1], "getattr") and v[1][2][:2] == (R, P("method")))
            rep.check(ok, "true-random", "TrueRandom.do_random", loc(o), "the answer does not come from the object's own generator")
    w = rep.func(RM + "RandomStrategy.do_draw")
    for o in rep.trace(w, None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            v = dm(o.value)
            if is_call(v, "TrueRandom"):
                rep.check(is_call(arg(v, 0, "seed") or NONE, "draw_integer", "draw"), "true-random", "RandomStrategy.do_draw", loc(o), "the seed is not drawn from the test case")
            elif is_call(v, "ArtificialRandom"):
                rep.check(arg(v, None, "data") == P("data"), "random-data", "RandomStrategy.do_draw", loc(o), "the random object does not draw from this test case")
            else:
                rep.bad("random-data", "RandomStrategy.do_draw:value", loc(o), "the strategy returns something else than a controlled random object")


def G02(rep):
    """Decision-table extraction for the seed sources, flow of the chosen generator through every constructor,
    an entropy audit of every reference to a global generator, and key-completeness and state-transition
    analysis of the generated random objects."""
    for fn in (check_seed, check_run_random, check_global_random, check_same_seed, check_random_objects):
        rep.part(fn)


CHECKS["G02"] = G02


# ---------------------------------------------------------------- G03: settings
ST = H + "_settings."
NOT_SET = ("g", H + "utils.conventions.not_set")
PLAIN = {  # field -> what its values are checked to be
    "max_examples": "count",
    "stateful_step_count": "count",
    "derandomize": "bool",
    "report_multiple_bugs": "bool",
    "print_blob": "bool",
    "verbosity": "verbosity",
    "phases": "phases",
    "suppress_health_check": "health",
    "deadline": "deadline",
    "backend": "backend",
}


def number_guard(a, x, v):
    """truth of a comparison of the term x with a number when x is v; None when it is something else"""
    if a[0] != "cmp" or x not in (a[2], a[3]):
        return None
    l, r = (v if y == x else y[2] if y[0] == "c" and y[1] in ("int", "float") else None for y in (a[2], a[3]))
    if l is None or r is None:
        return None
    return {"<": l < r, "<=": l <= r, "==": l == r}.get(a[1])


def allows(o, x, v):
    """is this path possible when the number x is v, as far as comparisons with constants tell"""
    return all(number_guard(dm(a), x, v) in (None, pol) for a, pol in o.state.guards)


def elements(t):
    """the values in a literal collection, or in the members of an enumeration"""
    t = dm(t)
    if t[0] in ("tuple", "list", "set"):
        return {y for y in t[1]} if isinstance(t[1], tuple) else None
    if t[0] == "call" and last(t[1]) in ("tuple", "list", "set", "frozenset") and len(t[2]) == 1:
        return elements(t[2][0])
    return {t}


def refused(o):
    return o.kind == "raise" and (o.type or "").endswith("InvalidArgument")


def field_paths(rep, x):
    """paths of the settings constructor through one field's validation: the value stored and the tests passed"""
    f = rep.func(ST + "settings.__init__")

    def ev(k, t, d):
        if k == "setattr" and dm(t)[1] == SELF and dm(t)[2] == "_" + x:
            return ("store", dm(d["value"]))
        if k == "call":
            n = callee(t)
            c = dm(t)
            if n == "check_type" and arg(c, 1, "arg") == P(x):
                return ("type", arg(c, 0, "typ"))
        if k == "loop" and any_sub(dm(t), lambda y: y == P(x)):
            return ("loop",)
        return None

    inl = lambda g, c, r: g.name.startswith("_validate") and g.module.name == f.module.name and any_sub(c, lambda y: y == P(x)) or extracted(g, c, r)  # noqa
    rel = lambda a: any_sub(a, lambda y: y == P(x))  # noqa
    return f, rep.trace(f, ev, rel, inl, True, prune=rel, keep=lambda b, a: b != SELF or a in ("_" + x, "_fallback"), raises=lambda c: ("builtins.ValueError", "builtins.OverflowError") if last(dm(c)[1]) == "duration" and x == "deadline" and any(k == "milliseconds" for k, _ in c[3]) else ())


def check_field(rep, x, kind):
    """an unspecified field comes from the parent or the active default, a specified one is checked and kept"""
    f, outs = field_paths(rep, x)
    unset = ("cmp", "==", P(x), NOT_SET)
    BASES = (P("parent"), ("g", ST + "settings.default"), at(SELF, "_fallback"))
    seen = {"default": 0, "given": 0, "refused": 0}
    for o in outs:
        gs = {dm(a): v for a, v in o.state.guards}
        isunset = gs.get(unset, gs.get(("cmp", "==", NOT_SET, P(x))))
        stores = [a[1] for a in o.state.auto if a[0] == "store"]
        if o.kind == "raise" and not gs:
            continue  # about another field
        if o.kind == "return":
            rep.check(len(stores) == 1, "field-stored", x, loc(o), f"a settings object can be made without its {x}, or with it set twice")
            if len(stores) != 1:
                continue
            v = stores[0]
            if isunset is True:
                seen["default"] += 1
                rep.check(v[0] == "a" and v[1] in BASES and v[2] == x or v == ("g", ST + "settings.default." + x), "field-inherited", x, loc(o), f"an unspecified {x} is taken from {show(v)[:60]} instead of the parent's or the default's {x}")
                continue
            if isunset is None and x != "derandomize":
                rep.check(not (v[0] == "a" and v[1] in BASES or v == ("g", ST + "settings.default." + x)), "field-inherited", f"{x}:always", loc(o), f"a specified {x} is replaced by the parent's")
            if isunset is None and gs.get(("cmp", "in", P(x), ("tuple", (NOT_SET, FALSE)))) is True and v[0] == "a":
                continue
            seen["given"] += 1
            accept(rep, x, kind, o, gs, v)
        elif refused(o):
            seen["refused"] += 1
            refuse(rep, x, kind, o, gs)
        elif o.type not in (None, "pseudo.User"):
            rep.bad("refusal-type", f"{x}:{o.type}", loc(o), f"an invalid {x} raises {o.type} instead of InvalidArgument")
    rep.check(seen["default"] > 0, "field-inherited", f"{x}:found", f.loc, f"no path inherits {x}")
    rep.check(seen["given"] > 0, "field-checked", f"{x}:found", f.loc, f"no path stores a given {x}")
    rep.check(seen["refused"] > 0, "field-refused", f"{x}:found", f.loc, f"no value of {x} is ever refused")


BOOLS = {TRUE, FALSE}


def member_guards(gs, x):
    """(elements, truth) of each membership test of the field"""
    return [(elements(a[3]), v) for a, v in gs.items() if a[0] == "cmp" and a[1] == "in" and a[2] == x]


def isinst(gs, x, name):
    return next((v for a, v in gs.items() if a[0] == "call" and last(a[1]) == "isinstance" and a[2][0] == x and any_sub(a[2][1], lambda y: y[0] == "g" and y[1].endswith(name))), None)


PROVIDERS_ = ("g", H + "internal.conjecture.providers.AVAILABLE_PROVIDERS")


def accept(rep, x, kind, o, gs, v):
    X = P(x)
    at_ = lambda ok, msg: rep.check(ok, "field-checked", x, loc(o), msg)  # noqa
    if kind == "count":
        at_(v == X, f"the {x} that was given is not the one that is kept")
        at_(not allows(o, X, 0) and not allows(o, X, -1), f"{x} below one is accepted")
        at_(any(a[0] == "type" and a[1] == ("g", "builtins.int") for a in o.state.auto), f"{x} that is not an integer is accepted")
    elif kind in ("bool", "verbosity"):
        at_(v == X, f"the {x} that was given is not the one that is kept")
        want = BOOLS if kind == "bool" else {("g", ST + "Verbosity")}
        at_(any(e is not None and e <= want and t for e, t in member_guards(gs, X)), f"a value that is not a valid {x} is accepted")
    elif kind == "backend":
        at_(v == X, f"the {x} that was given is not the one that is kept")
        at_(any(e == {PROVIDERS_} and t for e, t in member_guards(gs, X)), "an unknown backend is accepted")
    elif kind == "phases":
        looped = ("loop",) in o.state.auto
        el = ("elem", X)
        if looped:
            at_(isinst(gs, el, ".Phase") is True, "something that is not a phase is accepted among the phases")
        ok = is_call(v, "tuple") and v[2] and v[2][0][0] == "comp"
        if ok:
            c = v[2][0]
            its, conds = c[3], c[4]
            ok = len(its) == 1 and elements(its[0]) == {("g", ST + "Phase")} and c[2] == ("elem", ("g", ST + "Phase"))
            ok = ok and [(a[1], a[2]) for a in conds if a[0] == "cmp"] == [("in", c[2])] and len(conds) == 1 and any_sub(conds[0][3], lambda y: y == X)
        else:
            ok = is_call(v, "tuple") and v[2] and v[2][0] == X
        at_(ok, "the phases that are kept are not exactly the ones that were given")
    elif kind == "health":
        ok = is_call(v, "try_convert") and arg(v, 0, "typ") == ("g", "builtins.tuple") and arg(v, 1, "value") == X or is_call(v, "tuple") and v[2] and v[2][0] == X
        at_(ok, "the suppressed health checks that are kept are not an immutable copy of the ones that were given")
        if ("loop",) in o.state.auto:
            at_(isinst(gs, ("elem", v), ".HealthCheck") is True or isinst(gs, ("elem", X), ".HealthCheck") is True, "something that is not a health check is accepted")
    elif kind == "deadline":
        if v == NONE or v == X and gs.get(("cmp", "is", X, NONE)) is True:
            at_(gs.get(("cmp", "is", X, NONE)) is True, "a deadline is dropped")
            return
        inner = kw(v, "seconds")
        base = inner[1][1] if is_call(v, "duration") and inner is not None and is_call(inner, "total_seconds") else v
        num = is_call(base, "duration") and kw(base, "milliseconds") == X
        at_(base == X or num, "the deadline that is kept is not the one that was given")
        if num:
            at_(isinst(gs, X, ".bool") is False, "a boolean deadline is accepted as a number of milliseconds")
            at_(isinst(gs, X, ".int") is True or isinst(gs, X, ".float") is True, "a deadline that is not a number is converted as one")
        else:
            at_(isinst(gs, X, ".timedelta") is True, "a deadline that is not a duration is accepted")
        zero = lambda y: is_call(y, "timedelta") and all(z == const(0) for z in y[2]) and not y[3]  # noqa
        pos = any(a[0] == "cmp" and (a[1] == "<" and zero(a[2]) and a[3] == base and t or a[1] == "<=" and zero(a[3]) and a[2] == base and not t) for a, t in gs.items())
        at_(pos, "a deadline that is zero or negative is accepted")


def refuse(rep, x, kind, o, gs):
    """a refusal is about a value which really is invalid"""
    X = P(x)
    at_ = lambda ok, msg: rep.check(ok, "field-refused", x, loc(o), msg)  # noqa
    if kind == "count":
        at_(not allows(o, X, 1) and not allows(o, X, 100), f"a valid {x} is refused")
    elif kind in ("bool", "verbosity"):
        full = BOOLS if kind == "bool" else {("g", ST + "Verbosity")}
        clash = x == "derandomize" and gs.get(("cmp", "in", P("database"), ("tuple", (NOT_SET, NONE)))) is False
        clash = clash or x == "derandomize" and any(e and NOT_SET in e and not t for e, t in member_guards(gs, X)) and not any(e and e >= full for e, t in member_guards(gs, X))
        at_(clash or any(e is not None and e >= full and not t for e, t in member_guards(gs, X)), f"a valid {x} is refused")
    elif kind == "backend":
        at_(any(e == {PROVIDERS_} and not t for e, t in member_guards(gs, X)), "a registered backend is refused")
    elif kind == "phases":
        at_(isinst(gs, ("elem", X), ".Phase") is False, "a valid phase is refused")
    elif kind == "health":
        at_(any(a[0] == "call" and last(a[1]) == "isinstance" and a[2][0][0] == "elem" and not v for a, v in gs.items()), "a valid health check is refused")
    elif kind == "deadline":
        zero = lambda y: is_call(y, "timedelta")  # noqa
        low = any(a[0] == "cmp" and (a[1] == "<" and zero(a[2]) and not t or a[1] == "<=" and zero(a[3]) and t) for a, t in gs.items())
        bad = isinst(gs, X, ".bool") is True or isinst(gs, X, ".timedelta") is False or any(a[0] == "call" and last(a[1]) == "isinstance" and any_sub(a[2][1], lambda y: y[0] == "g" and y[1].endswith(".timedelta")) and not t for a, t in gs.items())
        over = isinst(gs, X, ".int") is True and not any(mentions(a, "timedelta") for a in gs)  # the conversion failed
        at_(low or bad or over, "a valid deadline is refused")


def check_fields(rep):
    for x, kind in PLAIN.items():
        check_field(rep, x, kind)


INIT = ST + "settings.__init__"
DEFAULT = ("g", ST + "settings.default")


def check_construction(rep):
    """the parent is the explicit one or the active default; a derandomized object has no database; the object
    is writable only while it is being made"""
    f = rep.func(INIT)
    DB, DR, PA = P("database"), P("derandomize"), P("parent")

    def ev(k, t, x):
        if k == "setattr" and dm(t)[1] == SELF and dm(t)[2] in ("_fallback", "_database", "_cached_database", "_in_definition"):
            return ("store", dm(t)[2], dm(x["value"]))
        if k == "setattr" and dm(t)[1] == SELF and dm(t)[2][1:] in PLAIN:
            return ("field",)
        if k == "call" and callee(t) == "check_type" and arg(dm(t), 1, "arg") == PA:
            return ("parent-type", arg(dm(t), 0, "typ"))
        return None

    rel = lambda a: any_sub(a, lambda y: y in (DB, DR, PA))  # noqa
    inl = lambda g, c, r: g.name == "_validate_database" or extracted(g, c, r)  # noqa
    n = 0
    for o in rep.trace(f, ev, rel, inl, False, prune=rel, keep=lambda b, a: b != SELF or a in ("_fallback", "_database"), max_states=4000):
        gs = {dm(a): v for a, v in o.state.guards}
        st = [x for x in o.state.auto if x[0] == "store"]
        pnone = gs.get(("cmp", "is", PA, NONE))
        der = next((not v for a, v in gs.items() if a[0] == "cmp" and a[1] == "in" and a[2] == DR and elements(a[3]) == {NOT_SET, FALSE}), None)
        if o.kind == "raise":
            if refused(o) and any(mentions_p(a, "database") for a in gs):
                clash = der is True and any(a[0] == "cmp" and a[1] == "in" and a[2] == DB and elements(a[3]) == {NOT_SET, NONE} and not v for a, v in gs.items())
                bad = any(a[0] == "call" and last(a[1]) == "isinstance" and a[2][0] == DB and a[2][1] == ("g", H + "database.ExampleDatabase") and not v for a, v in gs.items()) and gs.get(("cmp", "is", DB, NONE)) is not True
                rep.check(clash or bad, "database-refused", "settings.__init__", loc(o), "a valid database argument is refused")
            continue
        n += 1
        fb = [x[2] for x in st if x[1] == "_fallback"]
        rep.check(len(fb) == 1 and fb[0] in (PA, DEFAULT, ("or", (PA, DEFAULT))), "parent-chosen", "settings.__init__", loc(o), "unspecified fields do not come from the parent or the active default")
        if fb == [DEFAULT]:
            rep.check(pnone is not False or gs.get(PA) is False, "parent-chosen", "settings.__init__:ignored", loc(o), "an explicit parent is ignored")
        if fb == [PA]:
            rep.check(pnone is not True, "parent-chosen", "settings.__init__:none", loc(o), "without a parent the active default is not used")
        if pnone is not True:
            rep.check(any(x[0] == "parent-type" and x[1] in (("g", ST + "settings"),) for x in o.state.auto), "parent-type", "settings.__init__", loc(o), "a parent that is not a settings object is accepted")
        d = [x[2] for x in st if x[1] == "_database"]
        rep.check(len(d) == 1, "database-stored", "settings.__init__", loc(o), "a settings object can be made without its database, or with it set twice")
        rep.check([x[2] for x in st if x[1] == "_cached_database"] == [NONE], "database-cache", "settings.__init__", loc(o), "a new settings object starts with somebody else's database")
        if len(d) == 1:
            if der is True:
                rep.check(d[0] == NONE, "derandomize-database", "settings.__init__", loc(o), "a derandomized object keeps using a database")
                rep.check(any(a[0] == "cmp" and a[1] == "in" and a[2] == DB and elements(a[3]) == {NOT_SET, NONE} and v for a, v in gs.items()), "derandomize-clash", "settings.__init__", loc(o), "derandomize=True together with a database is accepted")
            elif der is False:
                rep.check(d[0] == DB or d[0] == NONE and gs.get(("cmp", "is", DB, NONE)) is True, "database-kept", "settings.__init__", loc(o), "the database that was given is not the one that is kept")
                unset = gs.get(("cmp", "==", DB, NOT_SET)) is True or gs.get(("cmp", "is", DB, NONE)) is True
                good = any(a[0] == "call" and last(a[1]) == "isinstance" and a[2] == (DB, ("g", H + "database.ExampleDatabase")) and v for a, v in gs.items())
                rep.check(unset or good, "database-checked", "settings.__init__", loc(o), "something that is not a database is accepted")
            else:
                rep.bad("derandomize-clash", "settings.__init__:undecided", loc(o), "the database is chosen without regard to derandomize")
        flags = [(i, x[2]) for i, x in enumerate(o.state.auto) if x[0] == "store" and x[1] == "_in_definition"]
        rep.check(bool(flags) and flags[0] == (0, TRUE), "writable-first", "settings.__init__", loc(o), "the object is not writable while it is being made")
        rep.check(bool(flags) and flags[-1][1] == FALSE and flags[-1][0] == len(o.state.auto) - 1, "frozen-last", "settings.__init__", loc(o), "the object stays writable after it has been made")
    rep.check(n > 0, "construction-analysed", "settings.__init__", f.loc, "no path constructs a settings object")
    # the declared fields, the parameters and the checked fields are the same set
    params = {a.arg for a in f.node.args.kwonlyargs}
    rep.check(params == set(PLAIN) | {"database"}, "fields-known", "settings.__init__", f.loc, f"the settings fields are {sorted(params)}; the analysis covers {sorted(set(PLAIN) | {'database'})}")
    for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults):
        rep.check(isinstance(d, ast.Name) and rep.p.resolve_expr_fq(f.module, d) == NOT_SET[1], "field-unset", a.arg, nloc(f, a), f"{a.arg} has a default of its own instead of being inherited")


def mentions_p(t, name):
    return any_sub(t, lambda y: y == P(name))


def check_getters(rep):
    """each field reads back the value that was stored for it"""
    for x in PLAIN:
        f = rep.func(ST + "settings." + x)
        outs = rep.trace(f, None, lambda a: True, LOCAL, True)
        for o in outs:
            rep.check(o.kind == "return" and dm(o.value) == at(SELF, "_" + x), "field-read", x, loc(o), f"settings.{x} does not return the {x} the object was made with")
        rep.check(bool(outs), "field-read", f"{x}:found", f.loc, f"settings.{x} never returns")
        rep.check(any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list), "field-read", f"{x}:property", f.loc, f"settings.{x} is no longer a property")
    f = rep.func(ST + "settings.database")
    FB, D, C = at(SELF, "_fallback"), at(SELF, "_database"), at(SELF, "_cached_database")
    n = 0
    for o in rep.trace(f, lambda k, t, x: ("cache", dm(x["value"])) if k == "setattr" and dm(t) == C else None, lambda a: True, LOCAL, True):
        if o.kind != "return":
            continue
        n += 1
        gs = {dm(a): v for a, v in o.state.guards}
        v = dm(o.value)
        root = gs.get(("cmp", "is", FB, NONE))
        unset = gs.get(("cmp", "==", D, NOT_SET))
        cached = gs.get(("cmp", "is", C, NONE)) is False
        if root:
            rep.check(is_call(v, "_db_for_path") and v[2] in ((), (NOT_SET,)) or unset is False and v == D, "database-read", "default", loc(o), "the default database is not the one for the default path")
        elif cached:
            rep.check(v == C and not o.state.auto, "database-read", "cached", loc(o), "the database changes after it has been read")
        elif unset is True:
            rep.check(v == at(FB, "database") or v == C, "database-read", "inherited", loc(o), "an unspecified database is not the parent's")
            rep.check(all(a == ("cache", at(FB, "database")) for a in o.state.auto), "database-read", "inherited:cache", loc(o), "the parent's database is not what is remembered")
        elif unset is False:
            rep.check(v == D or v == C, "database-read", "given", loc(o), "the database that is read is not the one that was given")
            rep.check(all(a == ("cache", D) for a in o.state.auto), "database-read", "given:cache", loc(o), "the database that was given is not what is remembered")
        else:
            rep.bad("database-read", "undecided", loc(o), "the database that is read does not depend on whether one was given")
    rep.check(n >= 3, "database-read", "found", f.loc, "the database property was not analysed")


def check_protection(rep):
    """nothing but the constructor (and the database cache) writes a settings object, and outside writes are refused"""
    f = rep.func(ST + "settings.__setattr__")
    N = P("name")
    private = [nosite(("call", ("a", N, "startswith"), (const("_"),), (), 0))]

    def judge(func, what, writable):
        stores = lambda k, t, x: ("store", tuple(dm(t)[2])) if k == "call" and last(dm(t)[1]) == "__setattr__" else ("sneak",) if k == "call" and last(dm(t)[1]) in ("setattr",) or k == "setitem" else None  # noqa
        seen = set()
        for o in rep.trace(func, stores, lambda a: True, LOCAL, False):
            gs = {dm(a): v for a, v in o.state.guards}
            priv = next((v for a, v in gs.items() if a in private), None)
            defn = writable and gs.get(at(SELF, "_in_definition"))
            st = [a for a in o.state.auto if a[0] in ("store", "sneak")]
            if st:
                seen.add("store")
                rep.check(priv is True or defn is True, "write-refused", what, loc(o), "a public attribute can be assigned")
                rep.check(all(a == ("store", (N, P("value"))) for a in st), "write-exact", what, loc(o), "an assignment stores something else")
            else:
                seen.add("refuse")
                rep.check(o.kind == "raise" and (o.type or "").endswith("AttributeError"), "write-refused", f"{what}:silent", loc(o), "a refused assignment is silently ignored")
        rep.check(seen == {"store", "refuse"}, "write-refused", f"{what}:found", func.loc, "assignments are always allowed or always refused")

    judge(f, "settings.__setattr__", True)
    judge(rep.func(ST + "settingsMeta.__setattr__"), "settingsMeta.__setattr__", False)
    for x in list(PLAIN) + ["database", "fallback", "in_definition"]:
        only_writers(rep, "_" + x, {INIT}, "settings-written", "a settings object changes after it has been made", module=ST[:-1])
    only_writers(rep, "_cached_database", {INIT, ST + "settings.database"}, "settings-written", "a settings object changes after it has been made", module=ST[:-1])
    for f, n, how in attr_writes(rep.p, "_in_definition"):
        rep.check(owned(rep, f, {INIT}), "unfrozen", f.qualname, nloc(f, n), "a settings object is made writable again")
    for x in ["_" + x for x in PLAIN] + ["_cached_database"]:
        for f, n, how in attr_writes(rep.p, x):
            if f.module.name == ST[:-1] or not (isinstance(n, ast.Attribute) and "settings" in attr_chain(n).lower()):
                continue
            rep.bad("settings-written", f"{f.qualname}:{x}", nloc(f, n), f"{attr_chain(n)} is assigned in {f.qualname}: a settings object changes after it has been made")
    for f in rep.p.functions.values():
        if f.module.name == ST[:-1]:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" and f.cls is not None:
                    rep.bad("settings-written", f"{f.qualname}:__dict__", nloc(f, n), "the attributes of a settings object are reached behind its write protection")


PROFILES = ("g", ST + "settings._profiles")
CURRENT = "_current_profile"
VALUE = ("g", ST + "default_variable")


def check_profiles(rep):
    """profiles are kept under their own name, unknown names are refused before anything changes, and loading
    one makes it the active default"""
    N, PA = P("name"), P("parent")
    typed = lambda k, t: k == "call" and callee(t) == "check_type" and arg(dm(t), 1, "arg") == N and arg(dm(t), 0, "typ") == ("g", "builtins.str")  # noqa

    def ev(k, t, x):
        if typed(k, t):
            return "typed"
        c = dm(t) if t else None
        if k == "setattr" and c[2] == CURRENT:
            return ("current", dm(x["value"]))
        if k == "setattr" and c == at(VALUE, "value"):
            return ("active", dm(x["value"]))
        if k == "setitem" and c[1] == PROFILES:
            return ("profile", c[2], dm(x["value"]))
        if k == "call" and callee(t) == "load_profile":
            return ("load", c[2])
        if k == "call" and callee(t) == "get_profile":
            return ("get", c[2])
        return None

    GOT = [nosite(("call", ("g", ST + "settings.get_profile"), (N,), (), 0)), ("sub", PROFILES, N)]
    f = rep.func(ST + "settings.get_profile")
    n = r = 0
    for o in rep.trace(f, ev, lambda a: True, LOCAL, True, raises=NOTHING):
        if o.kind == "return":
            n += 1
            rep.check(dm(o.value) == ("sub", PROFILES, N), "profile-found", "get_profile", loc(o), "get_profile returns something else than the profile of that name")
            rep.check("typed" in o.state.auto, "profile-name", "get_profile", loc(o), "a profile name that is not a string is accepted")
        elif refused(o):
            r += 1
        else:
            rep.check(False, "profile-unknown", f"get_profile:{o.type}", loc(o), "an unknown profile is not reported as an invalid argument") if not o.type.endswith("LookupError") else None
        rep.check(not any(isinstance(a, tuple) for a in o.state.auto), "profile-pure", "get_profile", loc(o), "looking up a profile changes the active one")
    rep.check(n > 0 and r > 0, "profile-found", "get_profile:analysed", f.loc, "an unknown profile is not refused")
    f = rep.func(ST + "settings.load_profile")
    n = 0
    unknown = lambda c: ("hypothesis.errors.InvalidArgument",) if callee(c) == "get_profile" else ()  # noqa
    for o in rep.trace(f, ev, lambda a: True, LOCAL, True, raises=unknown):
        a = [x for x in o.state.auto if isinstance(x, tuple)]
        if o.kind == "raise":
            rep.check(not any(x[0] in ("current", "active", "profile") for x in a), "load-atomic", "load_profile", loc(o), "a refused profile name is remembered as the current profile")
            continue
        n += 1
        cur = [x[1] for x in a if x[0] == "current"]
        act = [x[1] for x in a if x[0] == "active"]
        rep.check(cur == [N], "load-name", "load_profile", loc(o), "the name of the loaded profile is not remembered")
        rep.check(len(act) == 1 and act[0] in GOT, "load-active", "load_profile", loc(o), "loading a profile does not make it the active default")
        rep.check("typed" in o.state.auto, "profile-name", "load_profile", loc(o), "a profile name that is not a string is accepted")
    rep.check(n > 0, "load-active", "load_profile:analysed", f.loc, "load_profile never returns")
    f = rep.func(ST + "settings.register_profile")
    n = 0
    for o in rep.trace(f, ev, lambda a: True, LOCAL, False):
        if o.kind != "return":
            continue
        n += 1
        gs = {dm(a): v for a, v in o.state.guards}
        a = [x for x in o.state.auto if isinstance(x, tuple)]
        st = [x for x in a if x[0] == "profile"]
        rep.check(len(st) == 1 and st[0][1] == N, "register-name", "register_profile", loc(o), "a profile is not registered under its name")
        if len(st) == 1:
            v = st[0][2]
            if v == PA:
                rep.check(gs.get(("cmp", "is", PA, NONE)) is False and gs.get(P("kwargs")) is False, "register-fields", "register_profile:parent", loc(o), "the fields given for a profile are ignored")
            else:
                ok = v[0] == "call" and v[1] == ("g", ST + "settings") and (kw(v, "parent") == PA or v[2] == (PA,)) and any(k in (None, "**") or val == P("kwargs") for k, val in v[3])
                rep.check(ok, "register-fields", "register_profile:made", loc(o), "the profile is not made from the given parent and fields")
        same = next((v for k, v in gs.items() if k[0] == "cmp" and k[1] == "==" and N in (k[2], k[3]) and any(y[0] == "g" and y[1].endswith(CURRENT) or y[0] == "a" and y[2] == CURRENT for y in (k[2], k[3]))), None)
        loads = [x for x in a if x[0] == "load"]
        if same is True:
            rep.check(len(loads) == 1 and loads[0][1] == (N,) and a.index(loads[0]) > a.index(st[0]) if st else False, "register-active", "register_profile", loc(o), "registering the current profile again does not activate its new settings")
        else:
            rep.check(same is False and not loads, "register-passive", "register_profile", loc(o), "registering a profile activates it")
        rep.check(not any(x[0] in ("current", "active") for x in a), "register-passive", "register_profile:direct", loc(o), "registering a profile changes the active default")
        rep.check("typed" in o.state.auto, "profile-name", "register_profile", loc(o), "a profile name that is not a string is accepted")
    rep.check(n > 0, "register-name", "register_profile:analysed", f.loc, "register_profile never returns")
    for fn, nd, how in attr_writes(rep.p, "_profiles"):
        rep.check(owned(rep, fn, {ST + "settings.register_profile"}), "profiles-written", fn.qualname, nloc(fn, nd), f"the profiles are changed in {fn.qualname}")
    for fn, nd, how in attr_writes(rep.p, CURRENT):
        rep.check(owned(rep, fn, {ST + "settings.load_profile"}), "profiles-written", fn.qualname, nloc(fn, nd), f"the current profile is changed in {fn.qualname}")
    # the active default
    f = rep.func(ST + "settingsMeta.default")
    n = 0
    for o in rep.trace(f, ev, lambda a: True, LOCAL, False):
        if o.kind == "return":
            n += 1
            v = dm(o.value)
            rep.check(v in (at(VALUE, "value"), ("g", ST + "default_variable.value")), "default-active", "settings.default", loc(o), "settings.default is not the active default")
    rep.check(n > 0, "default-active", "settings.default:found", f.loc, "settings.default never returns")


def check_binding(rep):
    """applying settings to a test binds exactly that object, once; a test without settings gets the default"""
    f = rep.func(ST + "settings.__call__")
    T = P("test")
    ATT = "_hypothesis_internal_settings_applied"
    USE = "_hypothesis_internal_use_settings"

    def ev(k, t, x):
        if k == "setattr":
            return ("set", dm(t), dm(x["value"]))
        if k == "call" and last(dm(t)[1]) == "setattr" and len(t[2]) == 3:
            return ("set", ("a", dm(t)[2][0], dm(t)[2][1][2] if dm(t)[2][1][0] == "c" else "?"), dm(t)[2][2])
        return None

    seen = {"function": 0, "machine": 0, "refused": 0}
    for o in rep.trace(f, ev, lambda a: True, LOCAL, False):
        gs = {dm(a): v for a, v in o.state.guards}
        q = lambda name: next((v for a, v in gs.items() if a[0] == "call" and last(a[1]) == name and a[2][0] == T), None)  # noqa
        sets = [(x[1], x[2]) for x in o.state.auto if x[0] == "set"]
        if o.kind == "raise":
            if refused(o):
                seen["refused"] += 1
                applied = q("hasattr") is True or q("getattr") is True
                rep.check(q("callable") is False or q("isclass") is True and q("issubclass") is False or applied, "binding-refused", "settings.__call__", loc(o), "a valid test is refused")
                rep.check(not sets, "binding-refused", "settings.__call__:state", loc(o), "a refused application still changes the test")
            continue
        rep.check(dm(o.value) == T, "binding-returned", "settings.__call__", loc(o), "applying settings does not return the test")
        rep.check(q("callable") is True, "binding-callable", "settings.__call__", loc(o), "settings can be applied to something that is not callable")
        rep.check((("a", T, ATT), TRUE) in sets, "binding-marked", "settings.__call__", loc(o), "the test is not marked as having settings")
        if q("isclass") is True:
            seen["machine"] += 1
            rep.check(q("issubclass") is True, "binding-class", "settings.__call__", loc(o), "settings can be applied to a class that is not a state machine")
            rep.check((("a", ("a", T, "TestCase"), "settings"), SELF) in sets, "binding-exact", "settings.__call__:machine", loc(o), "the state machine's tests do not get exactly these settings")
            rep.check(q("getattr") is False or q("hasattr") is False, "binding-once", "settings.__call__:machine", loc(o), "settings can be applied twice")
        else:
            seen["function"] += 1
            rep.check((("a", T, USE), SELF) in sets, "binding-exact", "settings.__call__", loc(o), "the test does not get exactly these settings")
            rep.check(q("hasattr") is False or q("getattr") is False, "binding-once", "settings.__call__", loc(o), "settings can be applied twice")
    for k, v in seen.items():
        rep.check(v > 0, "binding-exact", f"{k}:found", f.loc, f"no path for {k}")
    for fn, nd, how in attr_writes(rep.p, USE):
        if not isinstance(nd, ast.Attribute):
            continue
        ok = fn.fq == f.fq or fn.module.name == H[:-1] + ".core" or fn.module.name.startswith("_hypothesis_pytestplugin")
        rep.check(ok, "binding-written", fn.qualname, nloc(fn, nd), f"the settings of a test are replaced in {fn.qualname}")


USE = "_hypothesis_internal_use_settings"


def source(f, n):
    """the expression a local name stands for, when it is assigned once"""
    for _ in range(4):
        if not isinstance(n, ast.Name):
            return n
        vs = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets)]
        vs += [x.value for x in ast.walk(f.node) if isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name) and x.target.id == n.id]
        if len(vs) != 1:
            return n
        n = vs[0]
    return n


def call_arg(p, n, target, name):
    """the argument of a call expression that is bound to the named parameter of target"""
    for k in n.keywords:
        if k.arg == name:
            return k.value
    ps = [a.arg for a in target.node.args.args]
    if ps and ps[0] == "self":
        ps = ps[1:]
    i = ps.index(name)
    return n.args[i] if i < len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args[: i + 1]) else None


def check_scope(rep):
    """a test runs under exactly the settings bound to it: they are copied to the wrapped test, given to the
    executor and the engine, and are the active default while test cases run"""
    p = rep.p
    copies = 0
    for fn, nd, how in attr_writes(p, USE):
        if fn.module.name != CORE[:-1] or not isinstance(nd, ast.Attribute):
            continue
        v = source(fn, getattr(parents(fn).get(nd), "value", None))
        if owned(rep, fn, {CORE + "seed"}):
            ok = isinstance(v, ast.Call) and p.resolve_expr_fq(fn.module, v.func) == ST + "settings"
            pa = v.args[0] if ok and v.args else next((k.value for k in v.keywords if k.arg == "parent"), None) if ok else None
            pa = source(fn, pa) if pa is not None else None
            ok = ok and isinstance(pa, ast.Call) and name_of(pa.func) == "getattr" and pa.args[1].value == USE and {k.arg for k in v.keywords} <= {"database", "parent"}
            rep.check(ok, "seed-settings", fn.qualname, nloc(fn, nd), "the seed decorator changes more than the database of the test's settings")
            continue
        copies += 1
        parts = v.values if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) else [v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]
        parts = [source(fn, x) for x in parts]
        got = [x for x in parts if isinstance(x, ast.Call) and name_of(x.func) == "getattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == USE or isinstance(x, ast.Attribute) and x.attr == USE]
        dft = [x for x in parts if isinstance(x, ast.Attribute) and x.attr == "default" and p.resolve_expr_fq(fn.module, x.value) == ST + "settings"]
        rep.check(bool(got) and len(got) + len(dft) == len(parts), "settings-copied", fn.qualname, nloc(fn, nd), "the wrapped test does not run under the settings of the test (or the default)")
    rep.check(copies >= 1, "settings-copied", "given", "", "the settings of a test are no longer copied to its wrapped test")
    init = rep.func(CORE + "StateForActualGivenExecution.__init__")
    n = 0
    for o in rep.trace(init, lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and dm(t) == at(SELF, "settings") else None, lambda a: False, LOCAL, False):
        if o.kind == "return":
            n += 1
            rep.check(list(o.state.auto) == [("set", P("settings"))], "settings-executor", "StateForActualGivenExecution", loc(o), "the executor does not keep the settings it was given")
    rep.check(n > 0, "settings-executor", "StateForActualGivenExecution:found", init.loc, "the executor's constructor never returns")
    sites = 0
    for fn, c in call_sites(p, "StateForActualGivenExecution"):
        sites += 1
        v = source(fn, call_arg(p, c, init, "settings"))
        ok = isinstance(v, ast.Attribute) and v.attr == USE
        if isinstance(v, ast.Call) and p.resolve_expr_fq(fn.module, v.func) == ST + "settings":
            pa = v.args[0] if v.args else next((k.value for k in v.keywords if k.arg == "parent"), None)
            ok = isinstance(source(fn, pa), ast.Attribute) and source(fn, pa).attr == USE and all(k.arg in ("parent", "deadline") for k in v.keywords)
        rep.check(ok, "settings-passed", fn.qualname, nloc(fn, c), f"{fn.qualname} runs the test under other settings than its own")
    rep.check(sites >= 2, "settings-passed", "sites", "", "the executor is no longer created by given")
    SELF_SETTINGS = lambda v: isinstance(v, ast.Attribute) and v.attr == "settings"  # noqa
    run = rep.func(H + "internal.conjecture.engine.ConjectureRunner.__init__")
    for fn, c in call_sites(p, "ConjectureRunner"):
        v = source(fn, call_arg(p, c, run, "settings"))
        if fn.module.name == CORE[:-1]:
            rep.check(SELF_SETTINGS(v), "settings-engine", fn.qualname, nloc(fn, c), "the engine does not run under the settings of the test")
    for o in rep.trace(run, lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and dm(t) == at(SELF, "settings") else None, lambda a: a == P("settings"), LOCAL, False, prune=lambda a: a == P("settings")):
        if o.kind == "return":
            given = {dm(a): v for a, v in o.state.guards}.get(P("settings"))
            ok = len(o.state.auto) == 1 and (o.state.auto[0][1] == P("settings") or given is False and is_call(o.state.auto[0][1], "settings"))
            rep.check(ok, "settings-engine", "ConjectureRunner", loc(o), "the engine does not keep the settings it was given")
    sites = 0
    for fn, c in call_sites(p, "local_settings"):
        sites += 1
        v = source(fn, c.args[0]) if c.args else None
        rep.check(SELF_SETTINGS(v) or isinstance(v, ast.Attribute) and v.attr == USE, "settings-active", fn.qualname, nloc(fn, c), f"{fn.qualname} makes other settings than the test's the active default")
    for who in (CORE + "StateForActualGivenExecution.execute_once", H + "internal.conjecture.engine.ConjectureRunner.run", CORE + "execute_explicit_examples"):
        rep.check(any(owned(rep, fn, {who}) for fn, c in call_sites(p, "local_settings")), "settings-active", who.rsplit(".", 1)[-1], "", "test cases run without making the test's settings the active default")
    g = rep.func(ST + "local_settings")
    n = 0
    for o in rep.trace(g, lambda k, t, x: ("value", show(dm(t)[1]), dm(t)[2]) if k == "call" and last(dm(t)[1]) == "with_value" else "yield" if k == "yield" else k if k in ("with-enter", "with-exit") else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            n += 1
            a = list(o.state.auto)
            rep.check(("value", VALUE[1] + ".with_value", (P("s"),)) in a and "yield" in a and "with-enter" in a and a.index("with-enter") < a.index("yield"), "settings-local", "local_settings", loc(o), "local_settings does not make the given settings the active default for its block")
    rep.check(n > 0, "settings-local", "local_settings:found", g.loc, "local_settings never returns")


def G03(rep):
    """Symbolic path analysis of the settings constructor for each field separately (validators inlined): where the stored value
    comes from, what was tested before it was accepted, and what a refusal proves; getters, write protection, ownership of every
    private field, profile registration and loading (with the exceptional path), and the binding of settings to tests."""
    for fn in (check_fields, check_construction, check_getters, check_protection, check_profiles, check_binding, check_scope):
        rep.part(fn)


CHECKS["G03"] = G03


# ---------------------------------------------------------------- G04: output
RP = H + "reporting."
PRINT_OWNERS = {RP + "default", H + "internal.conjecture.shrinking.common.Shrinker.debug"}
PRINT_MODULES = {H + "extra.cli", H + "extra.codemods", "_hypothesis_ftz_detector"}
STREAMS = {"sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__"}
WRITERS = {"builtins.print", "pprint.pprint", "pprint.pp", "click.echo", "click.secho", "rich.print", "rich.console.Console", "os.write", "faulthandler.dump_traceback", "builtins.breakpoint",
           "traceback.print_exc", "traceback.print_exception", "traceback.print_tb", "traceback.print_stack", "traceback.print_last", "sys.excepthook", "sys.displayhook", "subprocess.run", "os.system"}


def print_refs(p):
    """every reference in the library to something that writes to the standard streams: (module, func or None, node, what)"""
    for m in p.modules.values():
        where, called = {}, {x.func for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
        for f in p.functions.values():
            if f.module is m:
                for n in own_nodes(f.node):
                    where[n] = f
        bound, local = {}, {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module and not n.level:
                local.update({a.asname or a.name: f"{n.module}.{a.name}" for a in n.names})
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                    bound.setdefault(a.arg, []).append(n)
        for n in ast.walk(m.tree):
            what = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in ("print", "breakpoint") and n.id not in bound:
                    what = "builtins." + n.id
                else:
                    fq = p.resolve_expr_fq(m, n) or local.get(n.id)
                    what = fq if fq in STREAMS or fq in WRITERS else None
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                fq = p.resolve_expr_fq(m, n) or attr_chain(n)
                what = fq if fq in STREAMS or fq in WRITERS else None
            if what and (n in called or not what.endswith("hook")):
                yield m, where.get(n), n, what


def main_guarded(m, n):
    """under `if __name__ == "__main__"` at module level"""
    return any(isinstance(s, ast.If) and "__main__" in ast.dump(s.test) and any(x is n for b in s.body for x in ast.walk(b)) for s in m.tree.body)


def check_printers(rep):
    """only the default reporter (and the command-line tools) writes to the standard streams"""
    p = rep.p
    n = {"default": 0, "cli": 0}
    for m, f, node, what in print_refs(p):
        if m.name in PRINT_MODULES or main_guarded(m, node):
            n["cli"] += 1
            continue
        if what == "subprocess.run" or what == "os.write":
            continue
        ok = f is not None and owned(rep, f, PRINT_OWNERS)
        if ok and owned(rep, f, {RP + "default"}):
            n["default"] += 1
        who = f.qualname if f else "<module>"
        rep.check(ok, "who-prints", f"{m.name}.{who}:{what}", f"{m.relpath}:{node.lineno}" if hasattr(m, "relpath") else (nloc(f, node) if f else ""), f"{what} is used in {m.name}.{who}: output which the active reporter never sees")
    rep.check(n["default"] >= 1, "who-prints", "default:found", "", "the default reporter no longer prints")
    rep.check(n["cli"] >= 5, "who-prints", "cli:found", "", "the command-line tools' own output was not found")
    # the value shrinkers' debug aid prints only when it is switched on, which nothing does
    S = H + "internal.conjecture.shrinking.common.Shrinker."
    d = rep.func(S + "debug")
    for o in rep.trace(d, lambda k, t, x: "print" if k == "call" and t[1] == ("g", "builtins.print") else None, lambda a: True, LOCAL, False):
        on = {dm(a): v for a, v in o.state.guards}.get(at(SELF, "debugging_enabled"))
        rep.check("print" not in o.state.auto or on is True, "debug-aid", "Shrinker.debug", loc(o), "value shrinkers print although debugging is off")
    i = rep.func(S + "__init__")
    for o in rep.trace(i, lambda k, t, x: ("flag", dm(x["value"])) if k == "setattr" and t[2] == "debugging_enabled" else None, lambda a: True, LOCAL, False):
        for a in o.state.auto:
            rep.check(a[1] in (P("debug"), FALSE), "debug-aid", "Shrinker.__init__", loc(o), "value shrinkers print by default")
    args = i.node.args
    for a, dv in list(zip(args.kwonlyargs, args.kw_defaults)) + list(zip(args.args[len(args.args) - len(args.defaults):], args.defaults)):
        if a.arg == "debug":
            rep.check(isinstance(dv, ast.Constant) and dv.value is False, "debug-aid", "Shrinker.__init__:default", nloc(i, a), "value shrinkers print by default")
    for f in p.functions.values():
        if f.module.name.startswith(H + "internal.conjecture"):
            for c in own_nodes(f.node):
                if isinstance(c, ast.Call):
                    for k in c.keywords:
                        if k.arg == "debug":
                            ok = isinstance(k.value, ast.Constant) and k.value.value is False
                            rep.check(ok, "debug-aid", f"{f.qualname}:debug", nloc(f, c), "a value shrinker is told to print")


LEVEL = lambda n: ("g", ST + "Verbosity." + n)  # noqa
VERB = [nosite(("call", ("g", RP + "current_verbosity"), (), (), 0)), ("g", ST + "settings.default.verbosity"), at(at(SELF, "settings"), "verbosity")]
LEVELS = ["quiet", "normal", "verbose", "debug"]


def least_level(atom):
    """the lowest verbosity at which a comparison is true / from which it is false: (index, polarity)"""
    a = dm(atom)
    if a[0] != "cmp" or a[1] not in ("<", "<=", ">", ">=", "=="):
        return None
    op, l, r = a[1], a[2], a[3]
    if r in VERB:
        op, l, r = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op], r, l
    if l not in VERB:
        return None
    i = next((j for j, n in enumerate(LEVELS) if r == LEVEL(n)), None)
    if i is None:
        return None
    return lambda v: {"<": v < i, "<=": v <= i, ">": v > i, ">=": v >= i, "==": v == i}[op]


def at_level(o, v):
    """whether the path is possible at verbosity level v, as far as comparisons with levels tell"""
    for a, pol in o.state.guards:
        t = least_level(a)
        if t is not None and t(v) != pol:
            return False
    return True


def check_gates(rep):
    """each reporting function passes its text on exactly at its level and above"""
    said = lambda k, t, x: ("say", tuple(dm(t)[2])) if k == "call" and callee(t) == "base_report" else None  # noqa
    for name, level in (("report", 1), ("verbose_report", 2), ("debug_report", 3)):
        f = rep.func(RP + name)
        for v in range(4):
            hit = 0
            for o in rep.trace(f, said, lambda a: True, LOCAL, False):
                if not at_level(o, v) or o.kind != "return":
                    continue
                hit += 1
                want = [("say", (P("text"),))] if v >= level else []
                rep.check([a for a in o.state.auto] == want, "report-level", f"{name}:{LEVELS[v]}", loc(o), f"{name} {'does not report the text' if want else 'prints'} at verbosity {LEVELS[v]}")
            rep.check(hit > 0, "report-level", f"{name}:{LEVELS[v]}:found", f.loc, f"{name} never returns at verbosity {LEVELS[v]}")
    f = rep.func(H + "internal.conjecture.engine.ConjectureRunner.debug")
    for v in range(4):
        for o in rep.trace(f, said, lambda a: True, LOCAL, False):
            if at_level(o, v) and o.kind == "return":
                want = [("say", (P("message"),))] if v >= 3 else []
                rep.check(list(o.state.auto) == want, "report-level", f"engine.debug:{LEVELS[v]}", loc(o), f"the engine's debug output is {'lost' if want else 'printed'} at verbosity {LEVELS[v]}")
    g = rep.func(RP + "current_verbosity")
    for o in rep.trace(g, None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            rep.check(dm(o.value) == ("g", ST + "settings.default.verbosity"), "verbosity-read", "current_verbosity", loc(o), "the verbosity is not that of the active settings")
    # ranks of the levels
    c = rep.p.classes.get(ST + "Verbosity") if hasattr(rep.p, "classes") else None
    vals = {}
    if c is not None:
        for s in c.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
                vals[s.targets[0].id] = s.value.value
    rep.check([vals.get(n) for n in LEVELS] == sorted(set(vals.values())), "verbosity-order", "Verbosity", c.loc if c is not None and hasattr(c, "loc") else "", "the verbosity levels are not ordered quiet < normal < verbose < debug")
    # passing on and printing
    b = rep.func(RP + "base_report")
    n = 0
    REPORTER = nosite(("call", ("g", RP + "current_reporter"), (), (), 0))
    for o in rep.trace(b, lambda k, t, x: ("say", tuple(dm(t)[2])) if k == "call" and dm(t)[1] in (REPORTER, ("g", RP + "reporter.value")) else None, lambda a: True, LOCAL, False):
        if o.kind == "return":
            n += 1
            rep.check(list(o.state.auto) == [("say", (P("text"),))], "reporter-called", "base_report", loc(o), "the text does not reach the active reporter unchanged and exactly once")
    rep.check(n > 0, "reporter-called", "base_report:found", b.loc, "base_report never returns")
    r = rep.func(RP + "current_reporter")
    for o in rep.trace(r, None, lambda a: True, LOCAL, False):
        rep.check(dm(o.value) == ("g", RP + "reporter.value"), "reporter-active", "current_reporter", loc(o), "current_reporter is not the active reporter")
    w = rep.func(RP + "with_reporter")
    for o in rep.trace(w, None, lambda a: True, LOCAL, False):
        v = dm(o.value)
        rep.check(v[0] == "call" and show(v[1]).endswith("reporter.with_value") and v[2] == (P("new_reporter"),), "reporter-active", "with_reporter", loc(o), "with_reporter does not install the given reporter")
    d = rep.func(RP + "default")
    for o in rep.trace(d, lambda k, t, x: ("print", tuple(dm(t)[2]), tuple(t[3])) if k == "call" and t[1] == ("g", "builtins.print") else None, lambda a: True, LOCAL, True, raises=lambda c: ("builtins.UnicodeEncodeError",) if c[1] == ("g", "builtins.print") and c[2] == (P("value"),) else ()):
        a = [x for x in o.state.auto if x[0] == "print"]
        rep.check(o.kind == "return" and len(a) >= 1 and all(any_sub(x[1], lambda y: y == P("value")) and not x[2] for x in a), "default-prints", "reporting.default", loc(o), "the default reporter does not print the text to standard output")
    allowed = {RP + "report", RP + "verbose_report", RP + "debug_report", H + "internal.conjecture.engine.ConjectureRunner.debug"}
    for fn, c_ in call_sites(rep.p, "base_report"):
        rep.check(owned(rep, fn, allowed), "ungated", fn.qualname, nloc(fn, c_), f"{fn.qualname} reports whatever the verbosity is")
    for fn, c_ in call_sites(rep.p, "current_reporter"):
        rep.check(owned(rep, fn, {RP + "base_report"}), "ungated", f"{fn.qualname}:reporter", nloc(fn, c_), f"{fn.qualname} calls the reporter whatever the verbosity is")
    plugin = 0
    for m in rep.p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and rep.p.resolve_expr_fq(m, x) in (RP + "reporter", RP + "default") and m.name != RP[:-1]:
                plugin += 1
                rep.check(m.name.startswith("_hypothesis_pytestplugin"), "ungated", f"{m.name}:{x.lineno}", "", f"{m.name} reaches the reporter behind the verbosity levels")


BC = "_current_build_context.value"


def check_notes(rep):
    """notes and calls on generated random objects are shown in the final replay or at verbose levels, never else"""
    f = rep.func(H + "control.should_note")
    FINAL = ("g", H + "control." + BC + ".is_final")
    n = 0
    outs = rep.trace(f, None, lambda a: True, LOCAL, False)
    for o in outs:
        gs = {dm(a): v for a, v in o.state.guards}
        v = dm(o.value) if o.value else None
        none = gs.get(("cmp", "is", ("g", H + "control." + BC), NONE))
        if o.kind == "raise":
            rep.check(none is True and refused(o), "note-outside", "should_note", loc(o), "a note inside a test is refused")
            continue
        n += 1
        rep.check(none is False, "note-outside", "should_note:none", loc(o), "a note outside a test is not refused")
        for final in (True, False):
            if gs.get(FINAL, final) != final:
                continue
            for lv in range(4):
                if not at_level(o, lv):
                    continue
                t = least_level(v) if v[0] == "cmp" else None
                got = final if v == FINAL else t(lv) if t else True if v == TRUE else False if v in (FALSE, NONE) else None
                if v[0] == "or":
                    got = any(final if y == FINAL else (least_level(y) or (lambda q: None))(lv) for y in v[1])
                rep.check(got == (final or lv >= 2), "note-shown", f"should_note:{'final' if final else 'generating'}:{LEVELS[lv]}", loc(o), f"notes are {'hidden' if final or lv >= 2 else 'shown'} {'in the final replay' if final else 'while generating'} at verbosity {LEVELS[lv]}")
    rep.check(n > 0, "note-shown", "should_note:found", f.loc, "should_note never returns")
    g = rep.func(H + "control.note")
    n = 0
    SHOULD = nosite(("call", ("g", H + "control.should_note"), (), (), 0))
    say = lambda k, t, x: ("say", dm(t)[2][0]) if k == "call" and callee(t) in ("report", "base_report", "verbose_report", "debug_report") else None  # noqa
    for o in rep.trace(g, lambda k, t, x: ("say", callee(t), dm(t)[2][0]) if say(k, t, x) else None, lambda a: True, LOCAL, False):
        if o.kind != "return":
            continue
        n += 1
        on = {dm(a): v for a, v in o.state.guards}.get(SHOULD)
        a = list(o.state.auto)
        if on:
            ok = len(a) == 1 and a[0][1] == "report" and (a[0][2] == P("value") or is_call(a[0][2], "pretty") and a[0][2][2][0] == P("value"))
            rep.check(ok, "note-shown", "note", loc(o), "a note that should be shown is not reported exactly once")
        else:
            rep.check(on is False and not a, "note-shown", "note:hidden", loc(o), "a note is shown while generating")
    rep.check(n >= 2, "note-shown", "note:found", g.loc, "note was not analysed")
    q = rep.func(H + "strategies._internal.random.HypothesisRandom._hypothesis_log_random")
    for o in rep.trace(q, say, lambda a: any_sub(a, lambda y: is_call(y, "should_note") or y[0] == "a" and y[2] == "_note_method_calls"), LOCAL, False):
        if o.kind == "return" and o.state.auto:
            gs = {dm(a): v for a, v in o.state.guards}
            rep.check(gs.get(SHOULD) is True and gs.get(at(SELF, "_note_method_calls")) is True, "random-logged", "log_random", loc(o), "calls on a generated random object are printed unasked")
    # what counts as the final replay
    bc = rep.func(H + "control.BuildContext.__init__")
    for o in rep.trace(bc, lambda k, t, x: ("final", dm(x["value"])) if k == "setattr" and dm(t) == at(SELF, "is_final") else None, lambda a: False, LOCAL, False):
        if o.kind == "return":
            rep.check(list(o.state.auto) == [("final", P("is_final"))], "final-flag", "BuildContext", loc(o), "the build context does not remember whether this is the final replay")
    for fn, nd, how in attr_writes(rep.p, "is_final"):
        rep.check(owned(rep, fn, {bc.fq}), "final-flag", fn.qualname, nloc(fn, nd), "a test case becomes the final replay half-way")
    dflt = {a.arg: d for a, d in zip(bc.node.args.kwonlyargs, bc.node.args.kw_defaults)}
    dflt.update(zip([a.arg for a in bc.node.args.args[len(bc.node.args.args) - len(bc.node.args.defaults):]], bc.node.args.defaults))
    rep.check(isinstance(dflt.get("is_final"), ast.Constant) and dflt["is_final"].value is False, "final-flag", "BuildContext:default", bc.loc, "a build context is a final replay unless told otherwise")
    EX = CORE + "StateForActualGivenExecution.execute_once"
    ex = rep.func(EX)
    kd = {a.arg: d for a, d in zip(ex.node.args.kwonlyargs, ex.node.args.kw_defaults)}
    for nm in ("is_final", "print_example"):
        rep.check(isinstance(kd.get(nm), ast.Constant) and kd[nm].value is False, "final-flag", f"execute_once:{nm}", ex.loc, f"{nm} is on unless told otherwise")
    for fn, c in call_sites(rep.p, "BuildContext"):
        for k in c.keywords:
            if k.arg == "is_final":
                v = source(fn, k.value)
                ok = isinstance(v, ast.Name) and v.id == "is_final" and owned(rep, fn, {EX}) or isinstance(v, ast.Constant) and v.value is False
                rep.check(ok, "final-flag", f"{fn.qualname}:BuildContext", nloc(fn, c), f"{fn.qualname} starts a final replay of its own")
    finals = {CORE + "StateForActualGivenExecution.run_engine", CORE + "execute_explicit_examples", CORE + "given"}
    seen = set()
    for f_ in rep.p.functions.values():
        if f_.module.name != CORE[:-1]:
            continue
        for c in own_nodes(f_.node):
            if isinstance(c, ast.Call) and any(k.arg in ("is_final", "print_example") for k in c.keywords) and name_of(c.func) != "BuildContext":
                ok = owned(rep, f_, finals)
                seen |= {a for a in finals for o_ in owners(rep.p, f_) if o_.fq == a or o_.fq.startswith(a + ".")}
                fv = next((k.value for k in c.keywords if k.arg == "is_final"), None)
                rep.check(ok, "final-replay", f"{f_.qualname}", nloc(f_, c), f"{f_.qualname} runs a test case as the final replay")
                rep.check(fv is not None and isinstance(fv, ast.Constant) and fv.value is True, "final-replay", f"{f_.qualname}:flag", nloc(f_, c), "the falsifying example is printed without being the final replay")
    rep.check(seen == finals, "final-replay", "sites", "", f"final replays were found only in {sorted(x.rsplit('.', 1)[-1] for x in seen)}")
    eng = rep.func(CORE + "StateForActualGivenExecution._execute_once_for_engine")
    for c in own_nodes(eng.node):
        if isinstance(c, ast.Call) and name_of(c.func) == "execute_once":
            rep.check(not any(k.arg in ("is_final", "print_example") for k in c.keywords), "final-replay", "_execute_once_for_engine", nloc(eng, c), "every generated test case runs as the final replay")


def check_example_printed(rep):
    """the arguments are reported once, as falsifying in the replay and as tried at verbose levels, and not otherwise"""
    f = rep.func(CORE + "StateForActualGivenExecution.execute_once.<locals>.run")
    PE = P("print_example")

    def ev(k, t, x):
        if k != "call":
            return None
        n = callee(t)
        if n in ("report", "base_report", "verbose_report", "debug_report"):
            v = dm(t)[2][0]
            return ("report", n, is_call(v, "getvalue"))
        if n == "text" and t[2] and t[2][0][0] == "c" and isinstance(t[2][0][2], str) and "example" in t[2][0][2]:
            return ("head", t[2][0][2].split()[0])
        if n == "repr_call" and t[1][0] == "a":
            return "args"
        return None

    rel = lambda a: least_level(a) is not None or any_sub(a, lambda y: y[0] in ("p", "free") and "print_example" in y or y[0] == "a" and y[2] == "print_given_args")  # noqa
    n = 0
    for o in rep.trace(f, ev, rel, LOCAL, False, prune=rel, max_states=2000):
        gs = {dm(a): v for a, v in o.state.guards}
        pe = next((v for a, v in gs.items() if a[0] in ("p", "free") and "print_example" in a), None)
        a = list(o.state.auto)
        said = [x for x in a if isinstance(x, tuple) and x[0] == "report"]
        heads = [x[1] for x in a if isinstance(x, tuple) and x[0] == "head"]
        for lv in range(4):
            if not at_level(o, lv):
                continue
            n += 1
            for p_ in ([pe] if pe is not None else [True, False]):
                if p_ or lv >= 2:
                    rep.check(len(said) == 1 and said[0] == ("report", "report", True), "example-shown", f"{'replay' if p_ else 'generating'}:{LEVELS[lv]}", loc(o), "the arguments of the test are not reported exactly once")
                    rep.check(heads == ["Falsifying" if p_ else "Trying"], "example-labelled", f"{'replay' if p_ else 'generating'}:{LEVELS[lv]}", loc(o), f"the arguments are labelled {heads} {'in the final replay' if p_ else 'while generating'}")
                else:
                    rep.check(not said, "example-shown", f"hidden:{LEVELS[lv]}", loc(o), "the arguments of every test case are reported")
    rep.check(n > 0, "example-shown", "found", f.loc, "the printing of arguments was not analysed")


def G04(rep):
    """Reference audit of everything that can write to the standard streams, decision tables of the verbosity gates over all
    four levels, ownership of the ungated reporting functions and of the final-replay flag, and path analysis of the
    printing of arguments."""
    for fn in (check_printers, check_gates, check_notes, check_example_printed):
        rep.part(fn)


CHECKS["G04"] = G04
