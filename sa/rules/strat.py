"""S03 (sizes and uniqueness of collections) and S04 (combinators)."""
from __future__ import annotations

from .. import absint
from ..lib import *
from .choices import CD, DA, NOTHING, P, SELF, extracted, lt
from .tree import at, dm, eq, gd, inst, less, ln, sa, val

ST = "hypothesis.strategies._internal."
COL = ST + "collections."
STR = ST + "strategies."
MANY = "hypothesis.internal.conjecture.utils.many"
HP = "hypothesis.internal.conjecture.providers.HypothesisProvider."
IDENT = ("g", "hypothesis.internal.conjecture.utils.identity")


def kw(t, n, pos=None):
    """the argument `n` of a call term (by keyword or position)"""
    for k, v in t[3]:
        if k == n:
            return v
    if pos is not None and len(t[2]) > pos:
        return t[2][pos]
    return None


def closure(rep, t):
    """the function behind a closure or lambda term"""
    if t[0] == "fn":
        return rep.p.functions.get(t[1])
    if t[0] == "lambda":
        for n, f in rep.p.func_of_node.items():
            if (f.module.name, getattr(n, "lineno", 0), getattr(n, "col_offset", 0)) == t[1]:
                return f
    return None


def impossible(g):
    """path conditions that no run satisfies: a function of the library is None, not callable, or an itemgetter"""
    for k, v in g.items():
        if v and k[0] == "cmp" and k[1] == "is" and k[3] == NONE and k[2][0] == "g":
            return True
        if not v and is_call(k, "callable") and k[2][0][0] == "g":
            return True
        if v and is_call(k, "isinstance") and k[2][0][0] == "g" and any_sub(k[2][1], lambda y: last(y) == "itemgetter"):
            return True
    return False


def check_many(rep):
    """the size control says 'one more' only below the maximum, and 'stop' only at or above the minimum"""
    only_writers(rep, "force_stop", {MANY + ".__init__", MANY + ".reject"}, "size-writer", "only reject() may end a collection early")
    for a in ("count", "min_size", "max_size"):
        only_writers(rep, a, {MANY + ".__init__"} | ({MANY + ".more", MANY + ".reject"} if a == "count" else set()), "size-writer", "the size control owns it", module="hypothesis.internal.conjecture.utils", cls="many")
    cnt, mn, mx = sa("count"), sa("min_size"), sa("max_size")

    def ev(k, t, x):
        if k == "setattr" and t in (cnt, mn, mx, sa("force_stop"), sa("rejections")):
            return ("set", t[2], dm(x["value"]))
        if k == "call" and last(t[1]) == "mark_invalid":
            return ("invalid",)

    f = rep.func(MANY + ".__init__")
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        rep.check(w.get("min_size") == P("min_size") and w.get("max_size") == P("max_size"), "size-init", "bounds", loc(o), "the bounds given are not the bounds used")
        rep.check(w.get("count") == const(0) and w.get("force_stop") == FALSE, "size-init", "count", loc(o), "a collection does not start empty")
    one = ("bin", "+", cnt, const(1))
    f = rep.func(MANY + ".more")
    n = 0
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        g = gd(o)
        r = const_bool(o.value, g)
        rep.check(r is not None, "size-more", "result", loc(o), f"cannot tell what more() answers: {show(o.value)[:100]}")
        if r is None:
            continue
        dr = [(k, v) for k, v in g.items() if is_call(k, "draw_boolean")]
        forced = kw(dr[0][0], "forced", 1) if dr else None
        incs = [l[2] for l in o.state.auto if l[0] == "set" and l[1] == "count"]
        same = eq(g, mn, mx)
        below_min, below_max = less(g, cnt, mn), less(g, cnt, mx)
        if r:
            rep.check(len(incs) == 1 and poly(incs[0]) == poly(one), "size-more", "counted", loc(o), "an element is granted without being counted")
            if dr and dr[0][1] is True and forced == FALSE:
                continue  # a forced draw returns the forced value (C02)
            ok = below_max is True or below_min is True
            rep.check(ok, "size-more", "max", loc(o), "another element may be granted although the maximum size is reached")
        else:
            rep.check(not incs, "size-more", "counted", loc(o), "an element that was not granted is counted")
            if dr and dr[0][1] is False and forced == TRUE:
                continue
            if dr and dr[0][1] is True:
                continue
            ok = below_min is False or val(g, sa("force_stop")) is True
            rep.check(ok, "size-more", "min", loc(o), "the collection may end below its minimum size")
        n += 1
        if dr:
            rep.check(kw(dr[0][0], "forced", 1) is not None, "size-more", "forced", loc(o), "the draw is not forced at the bounds")
    rep.check(n >= 4, "size-more", "paths", f.loc, f"only {n} paths through more()")
    f = rep.func(MANY + ".reject")
    dec = ("bin", "-", cnt, const(1))
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        g = gd(o)
        w = [l for l in o.state.auto if l[0] == "set"]
        decs = [l[2] for l in w if l[1] == "count"]
        rep.check(len(decs) == 1 and poly(decs[0]) == poly(dec), "size-reject", "count", loc(o), "a rejected element stays counted")
        incs = [l[2] for l in w if l[1] == "rejections"]
        rep.check(len(incs) == 1 and poly(incs[0]) == poly(("bin", "+", sa("rejections"), const(1))), "size-reject", "rejections", loc(o), "a rejection is not recorded: the draw loop need not end")
        stop = [l for l in w if l[1] == "force_stop" and l[2] != FALSE]
        small = less(g, dec, mn)
        if stop:
            rep.check(small is False, "size-reject", "early stop", loc(o), "the collection is ended early although it is below its minimum size")
        inv = ("invalid",) in o.state.auto
        many_ = next((v for k, v in g.items() if k[0] == "cmp" and k[1] == "<" and any_sub(k[3], lambda y: y == sa("rejections"))), None)
        if many_ is not False:
            rep.check(bool(stop) or inv, "size-reject", "endless", loc(o), "after many rejections neither the collection ends nor is the test case rejected")


def const_bool(t, g=None):
    if t == TRUE:
        return True
    if t in (FALSE, NONE):
        return False
    if g and dm(t) in g:
        return g[dm(t)]
    return None


USERS = {  # function -> (min, max) it must hand to many()
    COL + "ListStrategy.do_draw": (sa("min_size"), sa("max_size")),
    COL + "UniqueListStrategy.do_draw": (sa("min_size"), sa("max_size")),
    COL + "UniqueSampledListStrategy.do_draw": (sa("min_size"), sa("max_size")),
    HP + "draw_string": (P("min_size"), P("max_size")),
    HP + "draw_bytes": (P("min_size"), P("max_size")),
}


def is_zip(t):
    return is_call(t, "zip")


def check_users(rep):
    """every size-controlled loop adds exactly one element per grant, or gives the grant back"""
    for fq, (mn, mx) in USERS.items():
        f = rep.func(fq)
        seen = {"many": 0, "add": 0}

        def ev(k, t, x):
            if k == "branch" and is_call(t, "more"):
                return "step" if x["val"] else "stop"
            if k != "call":
                return None
            n = last(t[1])
            if n == "many":
                seen["many"] += 1
                c = dm(t)
                rep.check(kw(c, "min_size", 1) == mn and kw(c, "max_size", 2) == mx, "size-bounds", f.qualname, nloc(f, x["node"]),
                          f"sizes {show(kw(c, 'min_size', 1) or NONE)}..{show(kw(c, 'max_size', 2) or NONE)} are used instead of the bounds asked for")
                return None
            if n in ("append", "add", "extend", "insert") and t[1][0] == "a" and not (n == "add" and any_sub(t[1][1], lambda y: is_call(y, "set") or y[0] == "comp")):
                seen["add"] += 1
                return "add" if n in ("append", "add") else "extend"
            if n == "randbytes":
                seen["add"] += 1
                return "add" if t[2] == (const(1),) else "extend"
            if n == "reject":
                return "reject"

        segs, outs = rep.segments(f, ev, ("step", "stop"), lambda a: is_call(a, "more") or a == P("intervals") or a[0] == "cmp" and a[1] in ("is", "=="), lambda g, c, r: g.fq not in absint.BASELINE and not g.qualname.endswith("more"),
                                  raises=NOTHING, max_states=60, rounds=3)
        for head, labs, how in segs:
            if how == "raise":
                continue
            a, r = labs.count("add"), labs.count("reject")
            if head == "step":
                rep.check(a + r == 1 and "extend" not in labs, "size-step", f.qualname, f.loc, f"a granted element leads to {a} additions and {r} rejections")
            else:
                rep.check(not a and "extend" not in labs, "size-step", f"{f.qualname}:outside", f.loc, "an element is added without being granted")
        rep.check(seen["many"] > 0 and seen["add"] > 0, "size-step", f"{f.qualname}:loop", f.loc, "no size-controlled loop")
        emptyelem = at(sa("element_strategy"), "is_empty")
        for o in outs:
            if o.kind != "return":
                continue
            g = gd(o)
            v = dm(o.value)
            if is_call(v, "join", "bytes", "tuple", "list"):
                v = v[2][0] if v[2] else ("list", ())
            fine = v[0] in ("phi", "list") and (v[0] != "list" or not v[1]) or v[0] == "opq"
            fine = fine or is_call(v, "_maybe_draw_constant") and eq(g, v, NONE) is False  # C01/C06 decide those
            fine = fine or v == const("") and (eq(g, ln(P("intervals")), const(0)) is True or val(g, P("intervals")) is False)
            rep.check(fine, "size-result", f.qualname, loc(o), f"something other than the collected elements is returned: {show(v)[:100]}")


def uniq_test(t):
    """is t the test 'no key of the value is among the seen ones'? -> the value tested"""
    if not is_call(t, "all") or not t[2] or t[2][0][0] != "comp":
        return None
    c = t[2][0]
    e = c[2]
    if c[4] or not (e[0] == "not" and e[1][0] == "cmp" and e[1][1] == "in" or e[0] == "cmp" and e[1] == "not in"):
        return None
    e = e[1] if e[0] == "not" else e
    return keyed(e[2], e[3])


def keyed(k, s):
    """k is each-key(value), s is the seen-set of that key -> value"""
    if k[0] == "call" and k[1] == ("elem", sa("keys")) and len(k[2]) == 1 and s[0] == "elem" and any_sub(s[1], lambda y: y == sa("keys") or is_call(y, "set") or y[0] == "phi"):
        return k[2][0]
    return None


def check_unique(rep):
    """an element joins a unique collection only after its keys were tested and are recorded"""
    for cls in ("UniqueListStrategy", "UniqueSampledListStrategy"):
        f = rep.func(COL + cls + ".do_draw")
        nonempty = lambda it: any_sub(it, lambda y: y == sa("keys"))  # noqa
        stats = {"add": 0}

        def closure_ok(t):
            """X.do_filtered_draw(data) with X filtered by the uniqueness test"""
            t = dm(t)
            if not is_call(t, "do_filtered_draw") or t[1][0] != "a" or not is_call(t[1][1], "_filter_for_filtered_draw", "filter"):
                return False
            fn = t[1][1][2][0]
            g = closure(rep, fn)
            if g is None:
                return False
            rep.analysed.add(g.fq)
            p0 = g.node.args.args[0].arg
            ok = False
            for o in rep.trace(g, None, lambda a: True, None, raises=NOTHING, nonempty=nonempty):
                if o.kind != "return":
                    continue
                v = dm(o.value)
                if v == FALSE:
                    continue
                ok = True
                if v == TRUE:
                    ins = [(k, b) for k, b in gd(o).items() if k[0] == "cmp" and k[1] == "in"]
                    if not any(b is False and inner_key(k[2], p0) for k, b in ins):
                        return False
                    continue
                if not (is_call(v, "all") and v[2] and v[2][0][0] == "comp"):
                    return False
                c = v[2][0]
                e = c[2]
                if e[0] == "not" and e[1][0] == "cmp" and e[1][1] == "in":
                    e = ("cmp", "not in") + e[1][2:]
                if c[4] or not (e[0] == "cmp" and e[1] == "not in" and inner_key(e[2], p0)):
                    return False
            return ok

        def inner_key(k, p0):
            return k[0] == "call" and k[1][0] == "elem" and any_sub(k[1], lambda y: y[0] == "a" and y[2] == "keys") and k[2] == (P(p0),)

        def ev(k, t, x):
            if k == "branch":
                if is_call(t, "more"):
                    return "step" if x["val"] else "stop"
                u = uniq_test(dm(t))
                if u is not None:
                    return ("tested", u) if x["val"] else None
                if t[0] == "cmp" and t[1] == "in":
                    u = keyed(dm(t)[2], dm(t)[3])
                    if u is not None and not x["val"]:
                        return ("tested", u)
                if t[0] == "cmp" and t[1] in ("is", "==") and any("filter_not_satisfied" == last(y) for y in t[2:]):
                    other = t[2] if last(t[3]) == "filter_not_satisfied" else t[3]
                    return ("passed" if not x["val"] else "failed", dm(other))
            if k == "call":
                n = last(t[1])
                if n == "add" and t[1][0] == "a" and len(t[2]) == 1:
                    u = keyed(dm(t)[2][0], dm(t)[1][1])
                    if u is not None:
                        return ("seen", u)
                if n == "append":
                    return ("append", dm(t)[2][0])

        segs, outs = rep.segments(f, ev, ("step", "stop"), lambda a: is_call(a, "more"), lambda g, c, r: g.fq not in absint.BASELINE and not g.qualname.endswith("more"),
                                  raises=NOTHING, max_states=60, rounds=3, nonempty=nonempty)
        for head, labs, how in segs:
            if how == "raise":
                continue
            for i, l in enumerate(labs):
                if l[0] != "append":
                    continue
                stats["add"] += 1
                v = l[1]
                if v[0] == "tuple" and v[1]:
                    rest = v[1][1:]
                    rep.check(len(rest) == 1 and any_sub(rest[0], lambda y: is_call(y, "draw") and y[2] == (sa("tuple_suffixes"),)), "unique-value", cls, f.loc, f"the element is {show(v)[:90]}")
                    v = v[1][0]
                before = labs[:i]
                passed = ("passed", v) in before
                rep.check(passed, "unique-filtered", cls, f.loc, "a value that failed its filters may join the collection")
                tested = ("tested", v) in before or closure_ok(v)
                rep.check(tested, "unique-tested", cls, f.loc, f"{show(v)[:80]} joins the collection without being compared with the values already in it")
                rep.check(("seen", v) in labs, "unique-recorded", cls, f.loc, f"{show(v)[:80]} joins the collection but later values are not compared with it")
        rep.check(stats["add"] > 0, "unique-tested", f"{cls}:append", f.loc, "no elements are collected")
    # below the minimum the test case is rejected before the result is returned
    f = rep.func(COL + "UniqueSampledListStrategy.do_draw")

    def ev2(k, t, x):
        if k == "call" and last(t[1]) == "mark_invalid":
            return ("invalid",)
        if k == "branch" and is_call(t, "more"):
            return ("more", x["val"])

    n = 0
    for o in rep.trace(f, ev2, lambda a: a[0] == "cmp" and a[1] == "<" and any_sub(a, lambda y: is_call(y, "len")), extracted, raises=NOTHING, max_states=80, rounds=3,
                       noreturn=lambda c, g: last(c[1]) == "mark_invalid"):
        if o.kind == "return":
            n += 1
            g = gd(o)
            v = dm(o.value)
            rep.check(less(g, ln(v), sa("min_size")) is False, "unique-minimum", f.qualname, loc(o), "a unique list below its minimum size is returned instead of rejecting the test case")
        elif o.type == "builtins.AssertionError":
            g = gd(o)
            short = any(v and k[0] == "cmp" and k[1] == "<" and is_call(k[2], "len") and k[3] == sa("min_size") for k, v in g.items())
            rep.check(not short, "unique-minimum", f"{f.qualname}:assert", loc(o), "running out of elements below the minimum size is an assertion failure instead of a rejected test case")
    rep.check(n > 0, "unique-minimum", f"{f.qualname}:return", f.loc, "no return")
    # drawn positions are removed, so that no position is used twice
    ss, _ = rep.sites(f, lambda k, t, x: "pop" if k == "call" and last(t[1]) == "pop" and t[1][0] == "a" and is_call(t[1][1], "LazySequenceCopy") else None, lambda a: False, extracted,
                      raises=NOTHING, max_states=60, rounds=2)
    rep.check(bool(ss), "unique-position", f.qualname, f.loc, "drawn elements stay available")
    for s in ss:
        t = dm(s.term)
        i = t[2][0] if t[2] else None
        rem = t[1][1]
        ok = i is not None and is_call(i, "draw_integer") and kw(i, "min_value", 0) == const(0) and lt(kw(i, "max_value", 1), ("bin", "-", ln(rem), const(1))) == lt(const(0), const(0))
        rep.check(ok, "unique-position", f.qualname, s.loc, f"the position {show(i)[:80] if i else '?'} is not one of the remaining ones")


def check_lists(rep):
    """lists() hands its bounds and keys to the strategy that honours them"""
    f = rep.func(ST + "core.lists")
    el, mn, mx, ub, un = P("elements"), P("min_size"), P("max_size"), P("unique_by"), P("unique")
    outs = rep.trace(f, None, lambda a: True, extracted, raises=NOTHING, max_states=4000, rounds=1, cap=2)
    kinds = {"ListStrategy": 0, "UniqueListStrategy": 0, "UniqueSampledListStrategy": 0}
    first = ("sub", at(el, "element_strategies"), const(0))
    for o in outs:
        if o.kind != "return":
            continue
        g = gd(o)
        if impossible(g):
            continue
        t = dm(o.value)
        n = last(t[1]) if t[0] == "call" else None
        plain = eq(g, ub, NONE) is True and val(g, un) is False
        if n == "builds":
            rep.check(eq(g, mx, const(0)) is True, "lists-bounds", "builds(list)", loc(o), "an empty list is produced although elements are allowed")
            continue
        if not rep.check(n in kinds, "lists-kind", "lists", loc(o), f"lists() returns {show(t)[:80]}"):
            continue
        kinds[n] += 1
        rep.check(kw(t, "min_size", 1) == mn, "lists-bounds", f"{n}:min_size", loc(o), f"min_size becomes {show(kw(t, 'min_size', 1) or NONE)[:60]}")
        e, m = kw(t, "elements", 0), kw(t, "max_size", 2)
        if n == "ListStrategy":
            rep.check(plain, "lists-unique", n, loc(o), "uniqueness was asked for but is not enforced")
            rep.check(m == mx and e == el, "lists-bounds", f"{n}:max_size", loc(o), "max_size or elements are replaced")
            continue
        size = ln(at(e, "elements"))
        okm = m == mx
        if n == "UniqueSampledListStrategy":
            okm = is_call(m, "min") and set(m[2]) == {mx, size} or m == size and eq(g, mx, NONE) is True or m == mx and less(g, size, mx) is False
        rep.check(okm, "lists-bounds", f"{n}:max_size", loc(o), f"max_size becomes {show(m)[:80]}")
        keys, suf = kw(t, "keys", 3), kw(t, "tuple_suffixes", 4)
        given = [("tuple", (ub,))] if val(g, ("call", ("g", "builtins.callable"), (ub,), (), 0)) is True else [ub] if val(g, ("call", ("g", "builtins.callable"), (ub,), (), 0)) is False else [ub, ("tuple", (ub,))]
        if val(g, un) is True:
            given = [("tuple", (IDENT,)), ("tuple", (("g", ST + "utils.identity"),))]
        ident = keys[0] == "tuple" and len(keys[1]) == 1 and last(keys[1][0]) == "identity"
        if suf is not None and suf != NONE:
            ok = ident and inst(g, el, "TupleStrategy") is True and is_call(suf, "TupleStrategy") and suf[2] == (("sub", at(el, "element_strategies"), ("slice", const(1), None, None)),)
            rep.check(ok, "lists-suffix", n, loc(o), f"keys {show(keys)[:60]} with suffixes {show(suf)[:80]}")
            base = first
            one_key = any(v and k[0] == "cmp" and k[1] == "==" and is_call(k[2], "len") and k[3] == const(1) for k, v in g.items()) or val(g, un) is True or keys in given
            getter = any(v and (is_call(k, "isinstance") and any(last(c) == "itemgetter" for c in (k[2][1][1] if k[2][1][0] == "tuple" else (k[2][1],))) or is_call(k, "fullmatch")) for k, v in g.items())
            rep.check(getter, "lists-suffix", f"{n}:key", loc(o), "only the first items are compared although the key was not item 0")
        else:
            base = el
            rep.check(keys in given or ident and val(g, un) is True, "lists-unique", f"{n}:keys", loc(o), f"the keys compared are {show(keys)[:80]}")
        if e == base:
            continue
        # small integer ranges are sampled instead: every integer of the range, once
        lo, hi = at(base, "start"), at(base, "end")
        ok = is_call(e, "SampledFromStrategy") and inst(g, base, "IntegersStrategy") is True and eq(g, lo, NONE) is False and eq(g, hi, NONE) is False
        ok = ok and int_range(e[2][0], lo, hi, g)
        rep.check(ok, "lists-elements", n, loc(o), f"the elements become {show(e)[:120]}")
    for k, v in kinds.items():
        rep.check(v > 0, "lists-kind", k, f.loc, f"lists() never builds a {k}")


def fz(t):
    return frozen(poly(t))


def int_range(x, lo, hi, g):
    """x lists exactly the integers lo..hi"""
    def rng(t):
        if is_call(t, "sorted", "list", "tuple") and t[2]:
            t = t[2][0]
        if not is_call(t, "range"):
            return None
        a = t[2]
        a = (const(0),) + a if len(a) == 1 else a
        if len(a) == 2 or a[2] == const(1):
            return fz(a[0]), fz(("bin", "-", a[1], const(1)))
        if a[2] in (const(-1), ("un", "-", const(1))):
            return fz(("bin", "+", a[1], const(1))), fz(a[0])
        return None

    whole = rng(x)
    if whole:
        return whole == (fz(lo), fz(hi))
    if x[0] == "bin" and x[1] == "+":
        a, b = rng(x[2]), rng(x[3])
        if a and b:
            inside = less(g, hi, const(0)) is False and less(g, const(0), lo) is False
            return inside and {a, b} == {(fz(const(0)), fz(hi)), (fz(lo), fz(const(-1)))}
    return False


def check_wrappers(rep):
    """sets, frozensets, iterables and dictionaries forward their bounds and uniqueness"""
    for name, un in (("sets", True), ("frozensets", True), ("iterables", None), ("dictionaries", "key")):
        f = rep.func(ST + "core." + name)
        n = 0
        for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
            if o.kind != "return":
                continue
            g = gd(o)
            t = dm(o.value)
            if eq(g, P("max_size"), const(0)) is True and is_call(t, "fixed_dictionaries", "builds", "just"):
                continue
            inner = t[1][1] if is_call(t, "map") and t[1][0] == "a" else None
            if not rep.check(inner is not None and is_call(inner, "lists"), "wrapper", name, loc(o), f"{name}() is not a mapped list: {show(t)[:80]}"):
                continue
            n += 1
            rep.check(kw(inner, "min_size") == P("min_size") and kw(inner, "max_size") == P("max_size"), "wrapper-bounds", name, loc(o), f"{name}() does not forward its size bounds")
            if un is True:
                rep.check(kw(inner, "unique") == TRUE, "wrapper-unique", name, loc(o), f"{name}() does not ask for unique elements, so the result can be smaller than min_size")
            elif un is None:
                rep.check(kw(inner, "unique") == P("unique") and kw(inner, "unique_by") == P("unique_by"), "wrapper-unique", name, loc(o), f"{name}() does not forward its uniqueness")
            else:
                ub = kw(inner, "unique_by")
                ok = ub is not None and (is_call(ub, "itemgetter") and ub[2] == (const(0),) or first_item(rep, ub))
                rep.check(ok, "wrapper-unique", name, loc(o), "the keys of a dictionary are not unique, so it can be smaller than min_size")
                e = kw(inner, "elements", 0)
                rep.check(is_call(e, "tuples") and e[2] == (P("keys"), P("values")), "wrapper-elements", name, loc(o), "dictionaries() does not draw (key, value) pairs")
            if un is not None and un != "key":
                rep.check(kw(inner, "elements", 0) == P("elements"), "wrapper-elements", name, loc(o), "other elements are drawn")
        rep.check(n > 0, "wrapper", f"{name}:return", f.loc, f"{name}() returns nothing recognised")
    f = rep.func(COL + "ListStrategy.__init__")

    def ev(k, t, x):
        if k == "setattr" and t in (sa("min_size"), sa("max_size"), sa("element_strategy")):
            return ("set", t[2], dm(x["value"]))

    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        g = gd(o)
        w = {l[1]: l[2] for l in o.state.auto}
        a, b = w.get("min_size"), w.get("max_size")
        rep.check(a == P("min_size") or a == const(0) and val(g, P("min_size")) is False or a is not None and a[0] in ("or", "bool") and P("min_size") in fields_of(a), "list-init", "min_size", loc(o), f"min_size becomes {show(a)[:60] if a else '?'}")
        none = eq(g, P("max_size"), NONE)
        ok = b == P("max_size") and none is not True or none is True and b is not None and last(b) in ("inf",)
        ok = ok or b is not None and b[0] == "ite"
        rep.check(ok, "list-init", "max_size", loc(o), f"max_size becomes {show(b)[:60] if b else '?'}")
        rep.check(w.get("element_strategy") == P("elements"), "list-init", "elements", loc(o), "other elements are drawn")
    f = rep.func(COL + "UniqueListStrategy.__init__")

    def ev3(k, t, x):
        if k == "setattr" and t in (sa("keys"), sa("tuple_suffixes")):
            return ("set", t[2], dm(x["value"]))
        if k == "call" and last(t[1]) == "__init__":
            return ("super", dm(t))

    for o in rep.trace(f, ev3, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        rep.check(w.get("keys") == P("keys") and w.get("tuple_suffixes") == P("tuple_suffixes"), "list-init", "keys", loc(o), "the uniqueness keys are not kept")
        sup = [l[1] for l in o.state.auto if l[0] == "super"]
        ok = len(sup) == 1 and [kw(sup[0], n, i) for i, n in enumerate(("elements", "min_size", "max_size"))] == [P("elements"), P("min_size"), P("max_size")]
        rep.check(ok, "list-init", "unique bounds", loc(o), "a unique list does not keep its bounds")


def first_item(rep, t):
    f = closure(rep, t)
    if f is None:
        return False
    p0 = P(f.node.args.args[0].arg)
    return all(dm(o.value) == ("sub", p0, const(0)) for o in rep.trace(f, None, lambda a: True, None, raises=NOTHING) if o.kind == "return")


def fields_of(t):
    return {y for y in subterms(t)}


def check_dict(rep):
    """fixed_dictionaries: every required key, each optional key at most once, values from their own strategy"""
    f = rep.func(COL + "FixedDictStrategy.do_draw")

    def m(k, t, x):
        if k == "setitem":
            b = dm(t)[1]
            if is_call(b, "draw"):
                return "put"

    ss, outs = rep.sites(f, m, lambda a: True, extracted, raises=NOTHING, rounds=2)
    base = nosite(("call", at(P("data"), "draw"), (sa("fixed"),), (), 0))
    rep.check(bool(ss), "dict-optional", "store", f.loc, "optional keys are never added")
    for s in ss:
        t, v = dm(s.term), dm(s.value)
        key = t[2]
        popped = is_call(key, "pop")
        rep.check(popped, "dict-once", "key", s.loc, f"the optional key {show(key)[:60]} is not removed from the remaining ones")
        ok = is_call(v, "draw") and v[2] == (("sub", sa("optional"), key),)
        rep.check(ok, "dict-value", "optional", s.loc, f"the value of an optional key is {show(v)[:80]}")
    for o in outs:
        if o.kind == "return":
            v = dm(o.value)
            rep.check(v == base or v[0] == "phi", "dict-fixed", "result", loc(o), f"the result is {show(v)[:60]}")


def run_s03(rep):
    """S03: the size controller (many.more/reject) is decided path by path (grants only below the maximum,
    stops only at the minimum, forced draws at the bounds); every size-controlled loop is checked per
    iteration for exactly one addition or rejection; unique collections for test-before-add, record-after-add
    and rejection below the minimum; lists() and its wrappers for forwarding bounds and keys."""
    for fn in (check_many, check_users, check_unique, check_lists, check_wrappers, check_dict):
        rep.part(fn)


CHECKS = {"S03": run_s03}


# ---------------------------------------------------------------------------------------------
# S04

SPLIT = STR + "SampledFromStrategy."
UNSAT = lambda t: last(t) == "filter_not_satisfied"  # noqa
DATA = P("data")


def drawn(t, strategy, once=True):
    """t is data.draw(strategy)"""
    t = dm(t)
    return is_call(t, "draw") and t[1][0] == "a" and t[1][1] == DATA and t[2] == (strategy,) and not t[3]


def isnot_unsat(g, t):
    for k, v in g.items():
        if k[0] == "cmp" and k[1] in ("is", "==") and (UNSAT(k[2]) and k[3] == t or UNSAT(k[3]) and k[2] == t):
            return not v
    return None


def returns(rep, fq, ev=None, **kw_):
    f = rep.func(fq)
    kw_.setdefault("raises", NOTHING)
    kw_.setdefault("inline", extracted)
    outs = rep.trace(f, ev, kw_.pop("relevant", lambda a: True), kw_.pop("inline"), **kw_)
    got = [o for o in outs if o.kind == "return"]
    rep.check(bool(got), "returns", f.qualname, f.loc, f"{f.qualname} never returns")
    return f, got, outs


def check_mapped(rep):
    """map(): the function applied to one drawn base value, retried only when a precondition failed"""
    f, rets, outs = returns(rep, STR + "MappedStrategy.do_draw", max_states=80, rounds=2)
    for o in rets:
        v = dm(o.value)
        ok = v[0] == "call" and v[1] == sa("pack") and len(v[2]) == 1 and not v[3] and drawn(v[2][0], sa("mapped_strategy"))
        rep.check(ok, "map-value", "MappedStrategy.do_draw", loc(o), f"the mapped value is {show(v)[:100]}")
    # the exception edges: only an unsatisfied assumption is retried, and the retries end in one
    for exc in ("hypothesis.errors.UnsatisfiedAssumption", "builtins.ValueError", "hypothesis.errors.StopTest", "hypothesis.errors.UnsatisfiedAssumption*"):
        def ev(k, t, x):
            if k == "call" and last(t[1]) == "draw":
                return "draw"
            if k == "catch":
                return "caught"

        outs = rep.trace(f, ev, lambda a: False, extracted, True, raises=lambda c: (exc.rstrip("*"),) if last(c[1]) == "pack" or exc.endswith("*") and last(c[1]) == "draw" else (),
                         nonempty=lambda it: is_call(it, "range"), max_states=60)
        for o in outs:
            if o.kind == "return":
                continue
            if exc.rstrip("*").endswith("UnsatisfiedAssumption"):
                rep.check(o.type == "hypothesis.errors.UnsatisfiedAssumption" and "caught" in o.state.auto, "map-retry", exc, loc(o), f"an unmet assumption while mapping becomes {o.type}")
            else:
                rep.check(o.type == exc and "caught" not in o.state.auto, "map-retry", exc, loc(o), f"{exc} raised by the mapped function is swallowed")
    rng = [t for t in f_calls(rep, f, "range")]
    rep.check(bool(rng), "map-retry", "bounded", f.loc, "the retries of map() are not bounded by a range")


def f_calls(rep, f, name):
    out = []
    rep.trace(f, lambda k, t, x: out.append(dm(t)) if k == "call" and last(t[1]) == name else None, lambda a: False, extracted, raises=NOTHING, max_states=40, rounds=1)
    return out


def check_filtered(rep):
    """filter(): a drawn value that satisfied every condition, or a rejected test case"""
    F = STR + "FilteredStrategy."
    f, rets, _ = returns(rep, F + "do_filtered_draw", max_states=80, rounds=2)
    some = False
    for o in rets:
        v = dm(o.value)
        if UNSAT(v):
            continue
        some = True
        ok = drawn(v, sa("filtered_strategy"))
        rep.check(ok, "filter-value", "do_filtered_draw", loc(o), f"the filtered value is {show(v)[:80]}")
        c = nosite(("call", sa("condition"), (v,), (), 0))
        rep.check(gd(o).get(c) is True, "filter-checked", "do_filtered_draw", loc(o), "a value is returned without satisfying the condition")
    rep.check(some, "filter-value", "any", f.loc, "no value is ever returned")
    for cls in ("FilteredStrategy", "SampledFromStrategy"):
        f, rets, _ = returns(rep, STR + cls + ".do_draw", max_states=80, noreturn=lambda c, g: last(c[1]) == "mark_invalid")
        want = nosite(("call", sa("do_filtered_draw"), (DATA,), (), 0))
        for o in rets:
            rep.check(dm(o.value) == want and isnot_unsat(gd(o), want) is True, "filter-rejects", cls, loc(o), "an unsatisfied filter does not reject the test case")
    # the combined condition
    f, rets, _ = returns(rep, F + "condition")
    fc, memo = sa("flat_conditions"), sa("__condition")
    one, none = [], []
    for o in rets:
        g = gd(o)
        v = dm(o.value)
        n = next((k[3][2] for k, b in g.items() if k[0] == "cmp" and k[1] == "==" and k[2] == ln(fc) and b and k[3][0] == "c"), None)
        if v == memo:
            rep.check(eq(g, memo, NONE) is False, "filter-condition", "memo", loc(o), "an unset condition is returned")
        elif v == ("sub", fc, const(0)):
            rep.check(n == 1, "filter-condition", "single", loc(o), "only the first of several conditions is applied")
        elif v[0] in ("fn", "lambda"):
            h = closure(rep, v)
            vals = set()
            if h is not None:
                rep.analysed.add(h.fq)
                p0 = h.node.args.args[0].arg
                for r in rep.trace(h, None, lambda a: True, None, raises=NOTHING, nonempty=lambda it: dm(it) == fc):
                    if r.kind == "return":
                        vals.add(cond_kind(r, fc, P(p0)))
            empty = n == 0 or val(g, fc) is False
            ok = vals == {"all"} or vals <= {"true"} and empty and bool(vals) or vals and vals <= {"loop-true", "false"}
            rep.check(bool(ok), "filter-condition", "combined", loc(o), f"the combined condition is not the conjunction of all conditions ({', '.join(sorted(map(str, vals)))})")
        else:
            rep.check(False, "filter-condition", "unknown", loc(o), f"the condition is {show(v)[:80]}")
    # nested filters keep every condition
    def ev(k, t, x):
        if k == "setattr" and dm(t) in (fc, sa("filtered_strategy"), memo):
            return ("set", dm(t)[2], dm(x["value"]))

    f, rets, _ = returns(rep, F + "__init__", ev)
    for o in rets:
        g = gd(o)
        w = {l[1]: l[2] for l in o.state.auto}
        nested = inst(g, P("strategy"), "FilteredStrategy")
        if nested:
            both = (at(P("strategy"), "flat_conditions"), P("conditions"))
            ok = concat(w.get("flat_conditions")) == both and w.get("filtered_strategy") == at(P("strategy"), "filtered_strategy")
        else:
            ok = w.get("flat_conditions") == P("conditions") and w.get("filtered_strategy") == P("strategy") and nested is False
        rep.check(ok, "filter-nested", "FilteredStrategy.__init__", loc(o), f"conditions become {show(w.get('flat_conditions') or NONE)[:80]}")
        rep.check(w.get("__condition") == NONE, "filter-memo", "FilteredStrategy.__init__", loc(o), "the memoised condition survives a change of the conditions")
    f, rets, _ = returns(rep, F + "filter")
    out = nosite(("call", at(sa("filtered_strategy"), "filter"), (P("condition"),), (), 0))
    for o in rets:
        g, v = gd(o), dm(o.value)
        s, c = (kw(v, "strategy", 0), kw(v, "conditions", 1)) if is_call(v, "FilteredStrategy") else (None, None)
        if v == nosite(("call", at(("call", ("g", "builtins.super"), (), (), 0), "filter"), (P("condition"),), (), 0)):
            continue
        nested = inst(g, out, "FilteredStrategy")
        ok = nested is True and s == at(out, "filtered_strategy") and set(concat(c) or ()) == {fc, at(out, "flat_conditions")} or nested is not True and s == out and c == fc or s == out and c == fc
        rep.check(ok, "filter-again", "FilteredStrategy.filter", loc(o), f"filtering again gives {show(v)[:140]}")
    f, rets, _ = returns(rep, F + "do_validate", lambda k, t, x: ("init", dm(t)) if k == "call" and last(t[1]) == "__init__" else ("filter", dm(t)) if k == "call" and last(t[1]) == "filter" else None,
                         nonempty=lambda it: dm(it) == fc)
    for o in rets:
        g = gd(o)
        ini = [l[1] for l in o.state.auto if l[0] == "init"]
        fl = [l[1] for l in o.state.auto if l[0] == "filter"]
        for t in fl:
            rep.check(t[2] == (("elem", fc),), "filter-validate", "conditions", loc(o), "re-filtering during validation uses another condition")
        rep.check(bool(fl), "filter-validate", "conditions", loc(o), "conditions are not re-applied during validation")
        for t in ini:
            a = t[2][1:] if t[2] and t[2][0] == SELF else t[2]
            if len(a) < 2:
                rep.check(False, "filter-validate", "init", loc(o), f"re-initialised as {show(t)[:80]}")
                continue
            if a[1] == ("tuple", ()):
                ok = a[0][0] == "phi" or is_call(a[0], "filter")
                ok = ok and inst(g, a[0], "FilteredStrategy") is False
            else:
                ok = a[1][0] == "a" and a[1][2] == "flat_conditions" and a[0] == at(a[1][1], "filtered_strategy") and inst(g, a[1][1], "FilteredStrategy") is True
            rep.check(ok, "filter-validate", "init", loc(o), f"validation drops conditions: {show(t)[:120]}")
    f, rets, _ = returns(rep, STR + "SearchStrategy.filter")
    for o in rets:
        v = dm(o.value)
        ok = is_call(v, "FilteredStrategy") and kw(v, "strategy", 0) == SELF and kw(v, "conditions", 1) == ("tuple", (P("condition"),))
        rep.check(ok, "filter-base", "SearchStrategy.filter", loc(o), f"filter() returns {show(v)[:100]}")
    f, rets, _ = returns(rep, STR + "SearchStrategy._filter_for_filtered_draw")
    for o in rets:
        v = dm(o.value)
        ok = is_call(v, "FilteredStrategy") and kw(v, "strategy", 0) == SELF and kw(v, "conditions", 1) == ("tuple", (P("condition"),))
        rep.check(ok, "filter-base", "_filter_for_filtered_draw", loc(o), f"filter() returns {show(v)[:100]}")
    f, rets, _ = returns(rep, STR + "SearchStrategy.map")
    for o in rets:
        v, g = dm(o.value), gd(o)
        idf = nosite(("call", ("g", "hypothesis.internal.reflection.is_identity_function"), (P("pack"),), (), 0))
        ok = is_call(v, "MappedStrategy") and kw(v, "strategy", 0) == SELF and kw(v, "pack", 1) == P("pack") or v == SELF and g.get(idf) is True
        rep.check(ok, "map-base", "SearchStrategy.map", loc(o), f"map() returns {show(v)[:100]}")
    f, rets, _ = returns(rep, STR + "SearchStrategy.flatmap")
    for o in rets:
        v = dm(o.value)
        ok = is_call(v, "FlatMapStrategy") and kw(v, "base", 0) == SELF and kw(v, "expand", 1) == P("expand")
        rep.check(ok, "flatmap-base", "SearchStrategy.flatmap", loc(o), f"flatmap() returns {show(v)[:100]}")


def concat(t):
    """the parts of a tuple concatenation"""
    if t is None:
        return None
    if t[0] == "bin" and t[1] == "+":
        a, b = concat(t[2]), concat(t[3])
        return a + b if a and b else None
    if t[0] == "tuple" and t[1] and all(x[0] == "star" for x in t[1]):
        return tuple(x[1] for x in t[1])
    return (t,)


def cond_kind(r, fc, x):
    v = dm(r.value)
    if is_call(v, "all") and v[2] and v[2][0][0] == "comp":
        c = v[2][0]
        if c[3] == (fc,) and not c[4] and c[2] == nosite(("call", ("elem", fc), (x,), (), 0)):
            return "all"
        return "partial"
    if v == TRUE:
        each = nosite(("call", ("elem", fc), (x,), (), 0))
        g = gd(r)
        return "loop-true" if g.get(each) is True else "true"
    if v == FALSE:
        return "false"
    return show(v)[:40]


def check_flow(rep):
    """flatmap, one_of, shared, deferred, lazy, tuples, permutations, builds: where the drawn value comes from"""
    f, rets, _ = returns(rep, ST + "flatmapped.FlatMapStrategy.do_draw", lambda k, t, x: ("check", dm(t)[2]) if k == "call" and last(t[1]) == "check_strategy" else ("draw",) if k == "call" and last(t[1]) == "draw" else None)
    for o in rets:
        v = dm(o.value)
        base = nosite(("call", at(DATA, "draw"), (sa("base"),), (), 0))
        ex = nosite(("call", sa("expand"), (base,), (), 0))
        rep.check(drawn(v, ex), "flatmap-value", "do_draw", loc(o), f"flatmap returns {show(v)[:100]}")
        rep.check(o.state.auto.count(("draw",)) == 2, "flatmap-draws", "do_draw", loc(o), "flatmap draws more or less than one base value and one result")
        rep.check(("check", (ex,)) in o.state.auto, "flatmap-check", "do_draw", loc(o), "a non-strategy returned by the expansion is not refused")
    f, rets, _ = returns(rep, STR + "OneOfStrategy.do_draw")
    for o in rets:
        v = dm(o.value)
        ok = is_call(v, "draw") and len(v[2]) == 1 and is_call(v[2][0], "draw")
        src = v[2][0][2][0] if ok else None
        while src is not None and is_call(src, "filter") and src[1][0] == "a":
            src = src[1][1]
        ok = ok and is_call(src, "SampledFromStrategy") and src[2][0] == sa("element_strategies")
        rep.check(ok, "oneof-value", "do_draw", loc(o), f"one_of returns {show(v)[:100]}")
    # every branch that can produce a value stays reachable
    es = sa("__element_strategies")
    elem = ("elem", sa("original_strategies"))
    leaf = ("elem", at(elem, "branches"))

    def ev(k, t, x):
        if k == "call" and last(t[1]) == "append":
            return ("append", dm(t)[2][0])
        if k == "branch":
            a = dm(t)
            if a == at(elem, "is_empty"):
                return ("empty", x["val"])
            if a == at(leaf, "is_empty"):
                return ("leaf-empty", x["val"])
            if a[0] == "cmp" and a[1] == "in" and a[2] == leaf:
                return ("seen", x["val"])
        if k == "loop" and dm(t) == at(elem, "branches"):
            return ("leaf",)
        if k == "loop" and dm(t) == sa("original_strategies"):
            return ("branch",)
        if k == "setattr" and dm(t) == es:
            return ("set", dm(x["value"])[0])

    f = rep.func(STR + "OneOfStrategy.element_strategies")
    segs, outs = rep.segments(f, ev, (("branch",), ("leaf",)), lambda a: True, extracted, raises=NOTHING, max_states=100, rounds=3, nonempty=lambda it: True)
    heads = set()
    for head, labs, how in segs:
        if how == "raise":
            continue
        heads.add(head)
        if head == ("branch",):
            labs_ = [l for l in labs if l[0] != "set"]
            rep.check(("empty", True) in labs_ or not labs_ and False or labs_ == [] or ("empty", False) in labs_, "oneof-branches", "branch", f.loc, "a branch is skipped although it is not empty")
            rep.check(("empty", False) not in labs_ or how == "next", "oneof-branches", "branch leaves", f.loc, "a non-empty branch contributes nothing")
        if head == ("leaf",):
            app = [l[1] for l in labs if l[0] == "append"]
            if app:
                rep.check(app == [leaf], "oneof-branches", "leaf", f.loc, "something other than the branch is drawn from")
            else:
                rep.check(("seen", True) in labs or ("leaf-empty", True) in labs, "oneof-branches", "leaf", f.loc, "a branch that can produce values is dropped")
    rep.check({("branch",), ("leaf",)} <= heads, "oneof-branches", "loops", f.loc, "the branches are not all visited")
    f, rets, _ = returns(rep, STR + "OneOfStrategy.filter")
    each = nosite(("call", at(elem, "filter"), (P("condition"),), (), 0))
    for o in rets:
        v = dm(o.value)
        if is_call(v, "FilteredStrategy"):
            s, c = kw(v, "strategy", 0), kw(v, "conditions", 1)
            ok = is_call(s, "OneOfStrategy") and s[2][0][0] == "comp" and s[2][0][2] == each and s[2][0][3] == (sa("original_strategies"),) and not s[2][0][4] and c == ("tuple", ())
            ok = ok or s == SELF and c == ("tuple", (P("condition"),))
        else:
            ok = is_call(v, "OneOfStrategy") and v[2][0][0] == "comp" and v[2][0][2] == each and v[2][0][3] == (sa("original_strategies"),) and not v[2][0][4]
        rep.check(ok, "oneof-filter", "OneOfStrategy.filter", loc(o), f"filtering one_of gives {show(v)[:140]}")
    f, rets, _ = returns(rep, STR + "OneOfStrategy.__init__", lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and dm(t) == sa("original_strategies") else None)
    for o in rets:
        w = [l[1] for l in o.state.auto]
        rep.check(w == [nosite(("call", ("g", "builtins.tuple"), (P("strategies"),), (), 0))] or w == [P("strategies")], "oneof-init", "original_strategies", loc(o), "the branches are not the ones given")
    f, rets, _ = returns(rep, STR + "one_of", inline=extracted)
    ar = P("args")
    for o in rets:
        v, g = dm(o.value), gd(o)
        seqs = (ar, nosite(("call", ("g", "builtins.tuple"), (("sub", ar, const(0)),), (), 0)))
        ok = is_call(v, "OneOfStrategy") and v[2][0] in seqs
        for s in seqs:
            ok = ok or v == ("sub", s, const(0)) and eq(g, ln(s), const(1)) is True and inst(g, v, "SearchStrategy") is True
        rep.check(ok, "oneof-args", "one_of", loc(o), f"one_of() returns {show(v)[:100]}")
    f, rets, _ = returns(rep, STR + "SearchStrategy.__or__", lambda k, t, x: ("extend", dm(t)[2][0]) if k == "call" and last(t[1]) == "extend" else None)
    for o in rets:
        g = gd(o)
        parts = [l[1] for l in o.state.auto]
        want = [at(x, "original_strategies") if inst(g, x, "OneOfStrategy") is True else ("list", (x,)) for x in (SELF, P("other"))]
        v = dm(o.value)
        ok = is_call(v, "OneOfStrategy") and (parts == want or not parts)
        rep.check(ok, "or-branches", "__or__", loc(o), f"s | t offers {', '.join(show(x)[:40] for x in parts)}")
    # branches of wrapped strategies wrap every branch
    for fq, ctor, base, kw_ in ((STR + "MappedStrategy.branches", "MappedStrategy", sa("mapped_strategy"), ("pack", sa("pack"))),
                               (STR + "FilteredStrategy.branches", "FilteredStrategy", sa("filtered_strategy"), ("conditions", sa("flat_conditions"))),
                               (ST + "flatmapped.FlatMapStrategy.branches", "FlatMapStrategy", sa("base"), ("expand", sa("expand")))):
        f, rets, _ = returns(rep, fq)
        for o in rets:
            v = dm(o.value)
            if v[0] == "phi" or v == ("list", ()):
                continue
            ok = v[0] == "comp" and v[3] == (at(base, "branches"),) and not v[4] and is_call(v[2], ctor)
            ok = ok and ("elem", at(base, "branches")) in (kw(v[2], "strategy", 0), kw(v[2], "base", 0)) and kw(v[2], kw_[0], 1) == kw_[1]
            rep.check(ok, "branches", f.qualname, loc(o), f"the branches are {show(v)[:120]}")
    f, rets, _ = returns(rep, STR + "OneOfStrategy.branches")
    for o in rets:
        v = dm(o.value)
        rep.check(v == sa("element_strategies") or v == ("list", (SELF,)), "branches", f.qualname, loc(o), f"the branches are {show(v)[:120]}")
    # shared: one draw per key
    f, rets, _ = returns(rep, ST + "shared.SharedStrategy.do_draw", lambda k, t, x: ("store", dm(t)[2], dm(x["value"])) if k == "setitem" else None)
    pool = at(DATA, "_shared_strategy_draws")
    for o in rets:
        v, g = dm(o.value), gd(o)
        st = [l for l in o.state.auto if l[0] == "store"]
        key = v[2] if v[0] == "sub" and v[1] == pool else st[0][1] if st and st[0][2] == v else None
        if not rep.check(key is not None, "shared-value", "do_draw", loc(o), f"shared() returns {show(v)[:80]}"):
            continue
        isn = eq(g, sa("key"), NONE)
        rep.check(key == SELF and isn is True or key == sa("key") and isn is False, "shared-key", "do_draw", loc(o), f"values are shared under {show(key)[:40]} when key {'is' if isn else 'may not be'} None")
        known = g.get(("cmp", "in", key, pool))
        if st:
            rep.check(known is False and len(st) == 1 and st[0][1] == key and drawn(st[0][2], sa("base")), "shared-once", "do_draw", loc(o), "a shared value is drawn again or under another key")
        else:
            rep.check(known is True, "shared-once", "do_draw", loc(o), "a shared value is read before it is drawn")
    only_writers(rep, "_shared_strategy_draws", {CD + "__init__", ST + "shared.SharedStrategy.do_draw"}, "shared-writer", "shared values live for one test case")
    for fq in (ST + "deferred.DeferredStrategy.do_draw", ST + "lazy.LazyStrategy.do_draw"):
        f, rets, _ = returns(rep, fq)
        for o in rets:
            rep.check(drawn(o.value, sa("wrapped_strategy")), "wrapper-value", f.qualname, loc(o), f"{f.qualname} returns {show(o.value)[:80]}")
    # transformations recorded on a lazy strategy are applied in order
    f, rets, _ = returns(rep, ST + "lazy.LazyStrategy.wrapped_strategy", lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and dm(t)[2] == "__wrapped_strategy" else None, max_states=80, rounds=2,
                         nonempty=lambda it: dm(it) == sa("_transformations"))
    tr = ("elem", sa("_transformations"))
    for o in rets:
        w = [l[1] for l in o.state.auto if l[0] == "set"]
        if not w:
            continue
        ap = [x for x in w if x[0] == "call" and is_call(x[1], "getattr")]
        ok = bool(ap) and all(x[1][2][1] == ("sub", tr, const(0)) and x[2] == (("sub", tr, const(1)),) for x in ap)
        rep.check(ok, "lazy-transforms", "applied", loc(o), "a recorded map or filter is not applied")
    for name, par in (("map", "pack"), ("filter", "condition")):
        f = rep.func(ST + "lazy.LazyStrategy." + name)
        for o in rep.trace(f, None, lambda a: True, lambda g, c, r: g.qualname.startswith("LazyStrategy._"), raises=NOTHING):
            if o.kind != "return":
                continue
            v = dm(o.value)
            t = kw(v, "transforms") if is_call(v, "LazyStrategy") else None
            ok = t is not None and (t[0] == "tuple" and t[1] == (("star", sa("_transformations")), ("tuple", (const(name), P(f.node.args.args[1].arg)))) or concat(t) == (sa("_transformations"), ("tuple", (("tuple", (const(name), P(f.node.args.args[1].arg))),))))
            rep.check(ok, "lazy-transforms", name, loc(o), f"the transformations become {show(t or NONE)[:100]}")
            if is_call(v, "LazyStrategy"):
                a = [dm(x) for x in v[2]]
                rep.check(a[:3] == [sa("function"), sa("__args"), sa("__kwargs")], "lazy-args", name, loc(o), "the transformed strategy is built from other arguments")
    # tuples, permutations
    f, rets, _ = returns(rep, COL + "TupleStrategy.do_draw")
    for o in rets:
        v = dm(o.value)
        e = ("elem", sa("element_strategies"))
        ok = is_call(v, "tuple") and v[2][0][0] == "comp" and v[2][0][3] == (sa("element_strategies"),) and not v[2][0][4] and drawn(v[2][0][2], e)
        rep.check(ok, "tuple-value", "do_draw", loc(o), f"the tuple is {show(v)[:100]}")
    f, rets, _ = returns(rep, ST + "core.BuildsStrategy.do_draw")
    for o in rets:
        v = dm(o.value)
        a = v[2][0][1] if v[0] == "call" and v[2] and v[2][0][0] == "star" else None
        k = v[3][0][1] if v[0] == "call" and v[3] else None
        ok = v[0] == "call" and v[1] == sa("target") and a is not None and a[0] == "comp" and a[3] == (sa("args"),) and not a[4] and drawn(a[2], ("elem", sa("args")))
        rep.check(ok, "builds-value", "args", loc(o), f"builds() calls {show(v)[:120]}")
        it = nosite(("call", at(sa("kwargs"), "items"), (), (), 0))
        ok = k is not None and k[0] == "comp" and k[3] == (it,) and not k[4] and k[2][0] == "tuple" and k[2][1][0] == ("sub", ("elem", it), const(0)) and drawn(k[2][1][1], ("sub", ("elem", it), const(1)))
        rep.check(ok, "builds-value", "kwargs", loc(o), f"builds() draws keyword arguments as {show(k or NONE)[:120]}")
    f, rets, _ = returns(rep, ST + "core.CompositeStrategy.do_draw")
    for o in rets:
        v = dm(o.value)
        ok = v[0] == "call" and v[1] == sa("definition") and v[2] == (at(DATA, "draw"), ("star", sa("args"))) and [x[1] for x in v[3]] == [sa("kwargs")]
        rep.check(ok, "composite-value", "do_draw", loc(o), f"composite calls {show(v)[:100]}")


def check_sampled(rep):
    """sampled_from(): an element of the collection, transformed in order, at the recorded index"""
    f, rets, _ = returns(rep, SPLIT + "get_element")
    for o in rets:
        v = dm(o.value)
        rep.check(v == nosite(("call", sa("_transform"), (("sub", sa("elements"), P("i")),), (), 0)), "sampled-element", "get_element", loc(o), f"element i is {show(v)[:80]}")
    f = rep.func(SPLIT + "_transform")
    tr = ("elem", sa("_transformations"))
    name, fn = ("sub", tr, const(0)), ("sub", tr, const(1))

    def cur(t):
        return t == P("element") or t[0] == "phi" and t[1] == "element" or t[0] == "phi"

    def ev(k, t, x):
        if k == "call" and dm(t)[1] == fn:
            return ("apply", dm(t))
        if k == "loop":
            return ("next",)
        if k == "branch":
            a = dm(t)
            if a[0] == "cmp" and a[1] == "==" and name in a[2:]:
                c = a[3] if a[2] == name else a[2]
                return ("is", c[2], x["val"])
            if a[0] == "call" and a[1] == fn:
                return ("holds", x["val"])
        if k == "return":
            return ("ret", dm(t))

    segs, _ = rep.segments(f, ev, (("next",),), lambda a: True, extracted, raises=NOTHING, max_states=100, rounds=3, nonempty=lambda it: True)
    kinds = set()
    for head, labs, how in segs:
        if head != ("next",) or how == "raise":
            continue
        ap = [l[1] for l in labs if l[0] == "apply"]
        kind = "map" if ("is", "map", True) in labs or ("is", "filter", False) in labs else "filter" if ("is", "map", False) in labs or ("is", "filter", True) in labs else None
        kinds.add(kind)
        rep.check(len(ap) == 1 and cur(ap[0][2][0]), "sampled-transform", str(kind), f.loc, "a transformation is not applied exactly once to the current value")
        ret = [l[1] for l in labs if l[0] == "ret"]
        if kind == "filter":
            if ("holds", False) in labs:
                rep.check(ret and UNSAT(ret[0]), "sampled-transform", "filter", f.loc, "a value that fails its filter passes")
            else:
                rep.check(("holds", True) in labs, "sampled-transform", "filter", f.loc, "the filter's verdict is ignored")
        elif kind == "map" and ret and ap:
            rep.check(ret[0] == ap[0] or ret[0][0] == "phi", "sampled-transform", "map", f.loc, f"the mapped value is dropped: {show(ret[0])[:60]}")
        if how == "end":
            rep.check(bool(ret), "sampled-transform", "end", f.loc, "no value is returned")
    rep.check({"map", "filter"} <= kinds, "sampled-transform", "kinds", f.loc, "map and filter are not both handled")
    f = rep.func(SPLIT + "do_filtered_draw")
    n = ln(sa("elements"))
    top = ("bin", "-", n, const(1))
    stats = {"append": 0}

    def ev2(k, t, x):
        if k == "call":
            c = dm(t)
            if last(c[1]) == "draw_integer":
                return ("draw", c)
            if last(c[1]) == "append":
                return ("append", c[2][0])

    # elements kept for later are satisfying ones, with their index
    ss, outs = rep.sites(f, lambda k, t, x: "append" if k == "call" and last(t[1]) == "append" else None, lambda a: True, extracted, raises=NOTHING, ev=ev2, max_states=120, rounds=2, cap=20)
    for s in ss:
        v = dm(s.term)[2][0]
        g = {dm(k): b for k, b in s.guards.items()}
        e = v[1][1] if v[0] == "tuple" and len(v[1]) == 2 else None
        ok = e is not None and is_call(e, "get_element") and e[2] == (v[1][0],) and isnot_unsat(g, e) is True
        rep.check(ok, "sampled-allowed", "append", s.loc, f"an element that fails the filters is offered: {show(v)[:80]}")
    for o in outs:
        if o.kind != "return":
            continue
        v, g = dm(o.value), gd(o)
        if UNSAT(v):
            continue
        ds = [l[1] for l in o.state.auto if l[0] == "draw"]
        lastd = ds[-1] if ds else None
        forced = kw(lastd, "forced") if lastd is not None else None
        if is_call(v, "get_element"):
            i = v[2][0]
            rep.check(isnot_unsat(g, v) is True, "sampled-checked", "get_element", loc(o), "an element that fails the filters is returned")
            rep.check(i == lastd or forced == i or any(i == d for d in ds) or "..." in o.state.auto, "sampled-recorded", "index", loc(o), "the index of the returned element is not recorded")
        else:
            ok = v[0] == "sub" and is_call(v[1], "choice") and v[2] == const(1)
            rep.check(ok, "sampled-value", "choice", loc(o), f"sampled_from returns {show(v)[:80]}")
            if ok:
                rep.check(forced == ("sub", v[1], const(0)) or "..." in o.state.auto, "sampled-recorded", "choice", loc(o), "the index of the returned element is not recorded")
        for d in ds:
            a, b = kw(d, "min_value", 0), kw(d, "max_value", 1)
            rep.check(a == const(0), "sampled-index", "lower", loc(o), "the first element is never drawn")
            if kw(d, "forced") is not None or d == (v[2][0] if is_call(v, "get_element") else None):
                rep.check(fz(b) == fz(top), "sampled-index", "upper", loc(o), f"an index up to {show(b)[:60]} is drawn")
    for nm, par in (("map", "pack"), ("filter", "condition")):
        f, rets, _ = returns(rep, SPLIT + nm)
        for o in rets:
            v = dm(o.value)
            v = v[2][1] if is_call(v, "cast") else v
            t = kw(v, "transformations") if v[0] == "call" else None
            new = ("tuple", (const(nm), P(par)))
            ok = t is not None and (t == ("tuple", (("star", sa("_transformations")), new)) or concat(t) == (sa("_transformations"), ("tuple", (new,))))
            rep.check(ok and kw(v, "elements", 0) == sa("elements"), "sampled-chain", nm, loc(o), f"{nm}() gives {show(v)[:120]}")
    f, rets, _ = returns(rep, ST + "misc.JustStrategy.do_filtered_draw")
    for o in rets:
        rep.check(dm(o.value) in (nosite(("call", sa("_transform"), (sa("value"),), (), 0)), nosite(("call", sa("_transform"), (("sub", sa("elements"), const(0)),), (), 0))), "just-value", "do_filtered_draw", loc(o), "just() returns something else")


def check_recursive(rep):
    """recursive(): leaves are drawn only through the counting wrapper, whose budget is the leaf bound"""
    R = ST + "recursive."
    f, rets, outs = returns(rep, R + "LimitedStrategy.do_draw", lambda k, t, x: ("set", dm(x["value"])) if k == "setattr" and dm(t) == sa("marker") else ("draw", dm(t)[2]) if k == "call" and last(t[1]) == "draw" else None)
    m = sa("marker")
    for o in rets:
        g = gd(o)
        rep.check(less(g, const(0), m) is True, "leaf-budget", "guard", loc(o), "a leaf is drawn although the budget is used up")
        rep.check([fz(l[1]) for l in o.state.auto if l[0] == "set"] == [fz(("bin", "-", m, const(1)))], "leaf-budget", "count", loc(o), "drawing a leaf does not use up exactly one of the budget")
        rep.check([l[1] for l in o.state.auto if l[0] == "draw"] == [(sa("base_strategy"),)] and drawn(o.value, sa("base_strategy")), "leaf-value", "draw", loc(o), "the leaf is not one value of the base strategy")
    for o in outs:
        if o.kind == "raise":
            g = gd(o)
            rep.check(o.type.endswith("LimitReached") and less(g, const(0), m) is False or o.type == "builtins.AssertionError", "leaf-budget", "raise", loc(o), f"running out of leaves raises {o.type}")
    f = rep.func(R + "LimitedStrategy.capped")
    for o in rep.trace(f, lambda k, t, x: ("set", dm(t)[2], dm(x["value"])) if k == "setattr" else ("yield",) if k == "yield" else None, lambda a: True, extracted, True, raises=NOTHING):
        labs = list(o.state.auto)
        if o.kind == "raise" and ("yield",) not in labs:
            rep.check(labs[-1:] == [("set", "currently_capped", sa("currently_capped"))], "leaf-capped", "restored", loc(o), "the capped flag is not restored when drawing fails")
            continue
        i = labs.index(("yield",)) if ("yield",) in labs else None
        if not rep.check(i is not None, "leaf-budget", "capped", loc(o), "capped() never yields"):
            continue
        rep.check(("set", "marker", P("max_templates")) in labs[:i], "leaf-budget", "capped", loc(o), "the budget is not reset before drawing")
        rep.check(("set", "currently_capped", TRUE) in labs[:i] and labs[i + 1:][-1:] == [("set", "currently_capped", sa("currently_capped"))], "leaf-capped", "restored", loc(o), "the capped flag is not restored")
    f, rets, _ = returns(rep, R + "RecursiveStrategy.do_draw", lambda k, t, x: ("with", dm(t)) if k == "with-enter" else ("draw", dm(t)[2]) if k == "call" and last(t[1]) == "draw" else None)
    cap = nosite(("call", at(sa("limited_base"), "capped"), (sa("max_leaves"),), (), 0))
    for o in rets:
        labs = list(o.state.auto)
        rep.check(drawn(o.value, sa("strategy")), "recursive-value", "do_draw", loc(o), f"recursive() returns {show(o.value)[:80]}")
        ok = any(l[0] == "with" and l[1] == cap for l in labs) and all(any(x[0] == "with" for x in labs[:i]) for i, l in enumerate(labs) if l[0] == "draw")
        rep.check(ok, "leaf-budget", "do_draw", loc(o), "the values are drawn without the leaf budget")
    outs = rep.trace(f, lambda k, t, x: "caught" if k == "catch" else None, lambda a: True, extracted, True, raises=lambda c: (R + "LimitReached", "builtins.ValueError") if last(c[1]) == "draw" else (), max_states=60)
    for o in outs:
        if o.kind == "raise":
            rep.check(o.type == "builtins.ValueError", "recursive-limit", "do_draw", loc(o), f"{o.type} escapes")
    # the base strategy is reachable only through the counting wrapper
    f = rep.func(R + "RecursiveStrategy.__init__")

    def ev(k, t, x):
        if k == "setattr":
            return ("set", dm(t)[2], dm(x["value"]))
        if k == "call":
            return ("call", dm(t))

    raw = set()
    for o in rep.trace(f, ev, lambda a: False, extracted, raises=NOTHING, max_states=60, rounds=2, cap=40):
        w = {l[1]: l[2] for l in o.state.auto if l[0] == "set"}
        rep.check(is_call(w.get("limited_base", NONE), "LimitedStrategy") and w["limited_base"][2] == (P("base"),), "leaf-wrapper", "limited_base", loc(o), "the counting wrapper does not wrap the base strategy")
        rep.check(w.get("max_leaves") == P("max_leaves"), "leaf-wrapper", "max_leaves", loc(o), "the leaf bound is changed")
        for l in o.state.auto:
            if l[0] == "call" and last(l[1][1]) in ("extend", "OneOfStrategy", "append", "tuple"):
                for a in l[1][2]:
                    if escapes(a, P("base")):
                        raw.add(show(l[1])[:80])
        if "strategy" in w:
            rep.check(not escapes(w["strategy"], P("base")), "leaf-wrapper", "strategy", loc(o), "leaves can be drawn without being counted")
            has = any_sub(w["strategy"], lambda y: is_call(y, "LimitedStrategy")) or w["strategy"][0] == "call" and w["strategy"][2] and w["strategy"][2][0][0] == "phi"
            rep.check(has, "leaf-wrapper", "strategy", loc(o), "the recursive strategy does not contain the leaves")
    rep.check(not raw, "leaf-wrapper", "uses", f.loc, f"the uncounted base strategy is used: {', '.join(sorted(raw))}")


def escapes(t, base):
    """does `base` occur in t outside LimitedStrategy(base)?"""
    if t == base or t == sa("base"):
        return True
    if not isinstance(t, tuple) or not t or is_call(t, "LimitedStrategy"):
        return False
    return any(escapes(x, base) for x in t if isinstance(x, tuple))


def run_s04(rep):
    """S04: for every combinator the value each path of do_draw returns is traced back to the draws it came
    from: map applies its function once to one drawn value, filter returns only values that passed all
    conditions (and nested filters keep all of them), flatmap/one_of/shared/deferred/lazy/builds/composite
    draw from exactly the strategy they were given, sampled_from records the index it returns, recursive
    reaches its base only through the leaf counter."""
    for fn in (check_mapped, check_filtered, check_flow, check_sampled, check_recursive):
        rep.part(fn)


CHECKS["S04"] = run_s04
