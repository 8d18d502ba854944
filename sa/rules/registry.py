"""S06: types resolve to what is registered for them, and nothing resolved before a registration is served after it."""
from __future__ import annotations

from ..lib import *
from .bounds import CO, ST, paths
from .choices import NOTHING, P, SELF, extracted
from .tree import dm, eq, gd, inst, val

TY, UT = ST + "types.", ST + "utils."
GW = "hypothesis.extra.ghostwriter."
TABLE = "_global_type_lookup"
REFUSED, FAILED = "hypothesis.errors.InvalidArgument", "hypothesis.errors.ResolutionFailed"
ASSERT = "builtins.AssertionError"
THING = P("thing")
MUTATORS = {"update", "pop", "popitem", "setdefault", "clear", "__setitem__", "__delitem__"}


def is_table(t):
    return t[0] in ("g", "a") and last(t) == TABLE


def is_clear(t):
    n = last(t[1]) or ""
    return n.endswith("__clear_cache") or n == "clear_cache"


def asked(g, name, arg):
    """truth of name(arg) on this path"""
    return next((b for k, b in g.items() if is_call(k, name) and k[2][:1] == (arg,)), None)


def member(g, x, name):
    return next((b for k, b in g.items() if k[0] == "cmp" and k[1] == "in" and k[2] == x and last(k[3]) == name), None)


def check_register(rep):
    """a registration is refused without any effect, or stored and the caches discarded"""
    ct, s = P("custom_type"), P("strategy")

    def ev(k, t, x):
        if k == "setitem" and is_table(dm(t)[1]):
            return ("put", dm(t)[2], dm(x["value"]))
        if k == "del" and dm(t)[0] == "sub" and is_table(dm(t)[1]):
            return ("del",)
        if k == "call" and is_clear(dm(t)):
            return ("clear",)
        if k == "catch":
            return ("catch", str(x.get("type") or t))
        return None
    for exc in (False, True):
        f, outs = paths(rep, CO + "register_type_strategy", ev, exc=exc, raises=None if exc else NOTHING, cap=20)
        n = 0
        for o in outs:
            seq = [l for l in o.state.auto if isinstance(l, tuple) and l[0] in ("put", "del", "clear")]
            if o.kind == "raise":
                late = exc and seq == [("put", ct, s), ("clear",)]
                mid = exc and seq == [("put", ct, s)] and o.type == "*"  # discarding the caches does not fail
                rep.check(not seq or late or mid, "refused", "register_type_strategy", loc(o), "a refused registration has changed the registry")
                if not exc:
                    rep.check(o.type == REFUSED, "error", "register_type_strategy", loc(o), f"a registration is refused with {o.type}")
                continue
            n += 1
            g = gd(o)
            rep.check(seq == [("put", ct, s), ("clear",)], "stored", "register_type_strategy", loc(o), f"a registration does {[l[0] for l in seq]} instead of storing the strategy under the type and then discarding the caches")
            rep.check(asked(g, "is_a_type", ct) is True, "valid", "type", loc(o), "something that is not a type is registered")
            rep.check(member(g, ct, "NON_RUNTIME_TYPES") is False, "valid", "runtime", loc(o), "a type without runtime instances is registered")
            rep.check(asked(g, "has_type_arguments", ct) is False, "valid", "generic", loc(o), "a parametrised generic type is registered")
            strat = inst(g, s, "SearchStrategy")
            rep.check(strat is True or asked(g, "callable", s) is True, "valid", "strategy", loc(o), "something that is neither a strategy nor callable is registered")
            caught = any(isinstance(l, tuple) and l[0] == "catch" for l in o.state.auto)
            rep.check(strat is False or caught or val(g, ("a", s, "is_empty")) is False, "valid", "empty", loc(o), "an empty strategy is registered")
        rep.check(n > 0, "stored", f"register_type_strategy:{exc}", f.loc, "nothing is ever registered")


def check_writers(rep):
    """the registry changes only by a registration, while the module is imported, or where the caches are discarded too"""
    seen = 0
    for f in rep.p.functions.values():
        for n in own_nodes(f.node):
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                tgt = n.func.value
            elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n
            name = getattr(tgt, "attr", None) or getattr(tgt, "id", None)
            if name != TABLE:
                continue
            seen += 1
            os_ = {o.fq for o in owners(rep.p, f)} | {f.fq}
            ok = any(o == CO + "register_type_strategy" or o.startswith(TY + "register") or o == GW + "_with_any_registered" for o in os_)
            rep.check(ok, "writer", f.qualname, nloc(f, n), f"{f.qualname} changes the registry of types")
    rep.check(seen >= 3, "writer", TABLE, "", "the registry of types is never changed")

    def ev(k, t, x):
        if k == "setitem" and is_table(dm(t)[1]):
            return "put"
        if k == "del" and dm(t)[0] == "sub" and is_table(dm(t)[1]):
            return "del"
        if k == "call" and is_clear(dm(t)):
            return "clear"
        if k == "call" and dm(t)[1][0] == "a" and is_table(dm(t)[1][1]) and last(t[1]) in MUTATORS:
            return "del" if last(t[1]) == "pop" else "put"
        return None
    # the ghostwriter's temporary registration: undone on every exit, with the caches
    f, outs = paths(rep, GW + "_with_any_registered", ev, exc=True, raises=NOTHING, uniq=False)
    for o in outs:
        seq = [l for l in o.state.auto if l in ("put", "del", "clear")]
        ok = not seq or seq[:2] == ["put", "del"] and seq[-1] == "clear" or o.kind == "raise" and o.type == "*" and seq[:2] == ["put", "del"]
        rep.check(ok, "temporary", "_with_any_registered", loc(o), f"the temporary registration of Any ends as {seq}")


def check_caches(rep):
    """discarding the caches reaches every thread; a result is kept only in the cache that was current before it was computed"""
    mod = rep.p.modules[UT[:-1]]
    local = {t.id for n in mod.tree.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).endswith("local") for t in n.targets if isinstance(t, ast.Name)}
    get, clear = rep.func(UT + "get_cache"), rep.func(UT + "clear_cache")
    fresh = lambda t: t[0] == "call" and last(t[1]) in ("LRUReusedCache", "LRUCache", "dict", "object")  # noqa

    def root(t):
        while t[0] in ("a", "sub"):
            t = t[1]
        return t

    def per_thread(t):
        return any_sub(t, lambda y: y[0] == "g" and last(y) in local)

    # 1. what clear_cache() does on every path
    def ev(k, t, x):
        if k in ("setglobal", "setattr", "setitem"):
            return ("set", dm(t) if isinstance(t, tuple) else t, dm(x["value"]))
        if k == "call" and last(t[1]) == "clear" and t[1][0] == "a":
            return ("clear", dm(t)[1][1])
        return None
    gl = {n for x in own_nodes(clear.node) if isinstance(x, ast.Global) for n in x.names}
    assigned = {}
    for n in own_nodes(clear.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id in gl and t.id not in local:
                    assigned[t.id] = n
    outs = rep.trace(clear, ev, lambda a: True, extracted, raises=NOTHING)
    tokens = set(assigned)
    shared_cleared = False
    for o in outs:
        for l in o.state.auto:
            if isinstance(l, tuple) and l[0] == "clear" and not per_thread(l[1]) and not is_call(l[1], "get_cache"):
                shared_cleared = True
    # straight-line: the assignment is a statement of the function itself
    top = [n for n in clear.node.body if n in assigned.values()]
    rep.check(bool(top) or shared_cleared, "discards", "clear_cache", clear.loc, "clear_cache() only reaches the cache of the thread that calls it: other threads go on serving strategies resolved before a registration")
    for n in assigned.values():
        rep.check(isinstance(n.value, ast.Call) and not n.value.args, "discards", "clear_cache:new", nloc(clear, n), "the replaced value is not a new object, so that a cache from before may pass for a new one")
    # 2. get_cache() never returns a cache made under another token
    if tokens and not shared_cleared:
        tok = lambda t: t[0] == "g" and last(t) in tokens  # noqa

        def ev2(k, t, x):
            if k == "setattr":
                return ("set", dm(t), dm(x["value"]))
            return None
        outs = rep.trace(get, ev2, lambda a: True, extracted, raises=NOTHING)
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            n += 1
            g, v = gd(o), dm(o.value)
            sets = [(l[1], l[2]) for l in o.state.auto if isinstance(l, tuple) and l[0] == "set"]
            same = any(b and k[0] == "cmp" and k[1] in ("is", "==") and any(tok(z) for z in k[2:4]) and any(per_thread(z) for z in k[2:4]) for k, b in g.items())
            made = any(fresh(x) and per_thread(t) for t, x in sets)
            marked = any(tok(x) and per_thread(t) for t, x in sets)
            rep.check(same and not made or made and marked, "current", "get_cache", loc(o), "get_cache() returns a cache that may have been filled before the caches were discarded")
            ok = any(t == v for t, x in sets) or fresh(v) or per_thread(v) or not made
            rep.check(ok, "current", "get_cache:value", loc(o), f"get_cache() returns {show(v)[:60]}")
        rep.check(n > 0, "current", "get_cache:returns", get.loc, "get_cache() never returns")
        for f in rep.p.functions.values():
            for nd in own_nodes(f.node):
                if isinstance(nd, ast.Global) and set(nd.names) & tokens and f.module is mod:
                    rep.check(f is clear or f.fq not in __import__("sa.absint", fromlist=["x"]).BASELINE, "token", f.qualname, nloc(f, nd), f"{f.qualname} replaces the token of the caches")
    # 3. the wrapper: the cache it stores into was taken before the strategy function ran
    w = next((g for g in rep.p.functions.values() if g.parent is not None and g.parent.fq == UT + "cacheable" and any(isinstance(n, ast.Return) for n in own_nodes(g.node))), None)
    if rep.check(w is not None, "wrapper", "cacheable", "", "no caching wrapper found"):
        def ev3(k, t, x):
            if k == "call" and last(t[1]) == "get_cache":
                return "get"
            if k == "call" and (last(t[1]) == "fn" or t[1] == P("fn")):
                return "fn"
            if k == "setitem":
                return "store"
        n = 0
        for o in rep.trace(w, ev3, lambda a: True, extracted, raises=NOTHING, uniq=False):
            seq = [l for l in o.state.auto if l in ("get", "fn", "store")]
            if "store" in seq:
                n += 1
                i = seq.index("fn") if "fn" in seq else len(seq)
                rep.check("get" in seq[:i] and "get" not in seq[i:], "wrapper", "cached_strategy", loc(o), "a strategy resolved before a registration may be stored in the cache made after it: the cache is looked up after the strategy function ran")
        rep.check(n > 0, "wrapper", "cached_strategy:stores", w.loc, "nothing is ever cached")


def check_lookup(rep):
    """a registered type resolves to what was registered for it"""
    keys = (THING, ("call", ("g", "builtins.type"), (THING,), (), 0))

    def resolved(v):
        """as_strategy(lookup[key], thing): the key"""
        if v[0] == "call" and last(v[1]) == "as_strategy" and len(v[2]) == 2 and v[2][0][0] == "sub" and is_table(v[2][0][1]) and v[2][1] == THING:
            return v[2][0][2]
        return None

    def matters(a):
        return any_sub(a, lambda y: y[0] in ("g", "a") and last(y) in (TABLE, "NON_RUNTIME_TYPES", "is_a_union", "is_a_type", "NotImplemented")) or "NotImplemented" in show(a)
    f, outs = paths(rep, CO + "_from_type", None, relevant=matters, prune=matters, max_states=400, cap=8)
    n = 0
    for o in outs:
        g = gd(o)
        known = next((b for k, b in g.items() if k[0] == "cmp" and k[1] == "in" and k[2] == THING and is_table(k[3])), None)
        if o.kind == "raise":
            rep.check(o.type in (FAILED, REFUSED, ASSERT, "hypothesis.errors.RewindRecursive"), "error", "_from_type", loc(o), f"a type that is not resolved fails with {o.type}")
        if known is not True:
            continue
        v = dm(o.value) if o.kind == "return" else None
        declined = [resolved(z) for k, b in g.items() if b and k[0] == "cmp" and k[1] in ("is", "==") and any(z[0] in ("c", "g") and "NotImplemented" in show(z) for z in k[2:4]) for z in k[2:4] if resolved(z) is not None]
        if o.kind == "return" and resolved(v) in keys:
            n += 1
            nots = [b for k, b in g.items() if k[0] == "cmp" and k[1] in ("is", "==") and v in k[2:4] and "NotImplemented" in show(k)]
            rep.check(nots == [False], "resolved", "_from_type:declined", loc(o), "NotImplemented is returned as a strategy")
            continue
        # another way to resolve it: only if the registered function declined
        union = any(b and is_call(k, "is_a_union") for k, b in g.items())
        never = member(g, THING, "NON_RUNTIME_TYPES") is True or any(not b and is_call(k, "is_a_type") for k, b in g.items())
        rep.check(THING in declined or union or never, "resolved", "_from_type:registered", loc(o), f"a registered type is resolved as {show(v)[:60] if v else o.type}, not as what was registered")
    rep.check(n > 0, "resolved", "_from_type:some", f.loc, "the registry is never used")
    # what is registered: a strategy, or a function of the type
    a = next((g for g in rep.p.functions.values() if g.name == "as_strategy" and g.parent is not None and g.parent.fq == CO + "_from_type"), None)
    if rep.check(a is not None, "as-strategy", "as_strategy", f.loc, "the conversion of registered values is not found"):
        s, t = (P(x.arg) for x in a.node.args.args[:2])
        called = lambda v: v[0] == "call" and v[1] == s and v[2] == (t,)  # noqa
        kinds = set()
        for o in rep.trace(a, None, lambda a: True, extracted, raises=NOTHING):
            g = gd(o)
            strat = inst(g, s, "SearchStrategy")
            if o.kind == "raise":
                rep.check(o.type in (FAILED, ASSERT), "as-strategy", "error", loc(o), f"a bad registered function fails with {o.type}, not ResolutionFailed")
                continue
            v = dm(o.value)
            ni = [b for k, b in g.items() if k[0] == "cmp" and k[1] in ("is", "==") and "NotImplemented" in show(k)]
            if "NotImplemented" in show(v) and not called(v) or called(v) and ni == [True]:
                kinds.add("declined")
                rep.check(ni == [True], "as-strategy", "declined", loc(o), "a registered strategy counts as declined")
                continue
            kinds.add("function" if called(v) else "strategy")
            rep.check(v == s and strat is True or called(v) and strat is False, "as-strategy", "value", loc(o), f"a registered value becomes {show(v)[:60]}")
            rep.check(val(g, ("a", v, "is_empty")) is False, "as-strategy", "empty", loc(o), "an empty strategy is used to resolve a type")
            rep.check(inst(g, v, "SearchStrategy") is True, "as-strategy", "type", loc(o), "a registered function may return something that is no strategy")
            rep.check(not called(v) or ni == [False], "as-strategy", "declining", loc(o), "NotImplemented is not recognised")
        rep.check(kinds >= {"function", "strategy", "declined"}, "as-strategy", "kinds", a.loc, f"only {sorted(kinds)}")
    # recursion: what is pushed is popped on every exit, and only a rewind to this very type is absorbed
    r = next((g for g in rep.p.functions.values() if g.name == "from_type_guarded" and g.parent is not None and g.parent.fq == CO + "_from_type"), None)
    if r is not None:
        def ev(k, t, x):
            if k == "call" and t[1][0] == "a" and last(t[1]) in ("append", "pop") and not k == "x":
                return last(t[1])
            if k == "call" and last(t[1]) == "_from_type":
                return "resolve"
        for e in (None, "builtins.ValueError", "hypothesis.errors.RewindRecursive"):
            rz = NOTHING if e is None else (lambda c: (e,) if last(c[1]) == "_from_type" else ())
            for o in rep.trace(r, ev, lambda a: True, extracted, raises=rz, exc=e is not None, uniq=False):
                seq = [l for l in o.state.auto if l in ("append", "pop")]
                rep.check(seq in ([], ["append", "pop"]), "recursion", "from_type_guarded", loc(o), f"the types being resolved are left as {seq}: the next resolution is taken for a recursive one")
                if "resolve" in o.state.auto:
                    rep.check("append" in seq, "recursion", "from_type_guarded:guard", loc(o), "a type is resolved without being marked")
                if e is not None and o.kind == "return" and "resolve" not in o.state.auto:
                    g = gd(o)
                    own = any(b and k[0] == "cmp" and k[1] == "==" and any(z[0] == "a" and z[2] == "target" for z in k[2:4]) and P(r.node.args.args[0].arg) in k[2:4] for k, b in g.items())
                    rep.check(e.endswith("RewindRecursive") and own, "recursion", "from_type_guarded:absorbed", loc(o), "an error while a type is resolved is taken for a recursion to this type")


def check_s06(rep):
    """Path tables of registration and resolution; ownership of the registry; the cache protocol (who may discard it, for
    which threads, and into which cache a result goes) as typestate and provenance."""
    rep.part(check_register)
    rep.part(check_writers)
    rep.part(check_caches)
    rep.part(check_lookup)


CHECKS = {"S06": check_s06}
