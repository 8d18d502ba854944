"""S02: filters rewritten into bounds accept exactly what the predicate accepts."""
from __future__ import annotations

import math

from ..lib import *
from .choices import NOTHING, P, SELF, extracted, lt
from .tree import at, dm, eq, gd, inst, less, ln, sa, val

FI = "hypothesis.internal.filtering."
ST = "hypothesis.strategies._internal."
RF = "hypothesis.internal.reflection."
COND = P("condition")
INF = ("g", "math.inf")
NINF = ("un", "-", INF)


def call_(fn, *args, **kws):
    return nosite(("call", fn if isinstance(fn, tuple) else ("g", fn), tuple(args), tuple(sorted(kws.items())), 0))


def sub(b, k):
    return ("sub", b, const(k) if isinstance(k, (str, int)) else k)


def is_inf(t, sign):
    """a spelling of plus or minus infinity"""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return False
    if t[0] == "un" and t[1] == "-":
        return is_inf(t[2], -sign)
    if t[0] == "c" and isinstance(t[2], float):
        return t[2] == sign * math.inf
    if is_call(t, "float") and t[2] and t[2][0][0] == "c":
        s = str(t[2][0][2]).lower().lstrip("+")
        return s in (("inf", "infinity") if sign > 0 else ("-inf", "-infinity"))
    return sign > 0 and t == INF


def truth(g, t):
    """is t truthy on this path, however that was asked"""
    v = val(g, t)
    if v is not None:
        return v
    for k, b in g.items():
        if k[0] == "cmp" and k[1] in ("==", "is") and t in (k[2], k[3]):
            o = k[3] if k[2] == t else k[2]
            if o in (const(0), const(0.0), FALSE) and o[0] == "c":
                return not b
            if o == TRUE and b:
                return True
    return None


def eq_inf(g, t, sign):
    for k, b in g.items():
        if k[0] == "cmp" and k[1] in ("==", "is"):
            for a, c in ((k[2], k[3]), (k[3], k[2])):
                if a == t and is_inf(c, sign):
                    return b
        if is_call(k, "isinf") and k[2] == (t,) and not b:
            return False
        if is_call(k, "isfinite") and k[2] == (t,) and b:
            return False
    return None


def has(g, k, b):
    """is key k in mapping b on this path"""
    v = val(g, ("cmp", "in", const(k), b))
    if v is None:
        v = val(g, ("cmp", "in", const(k), call_(at(b, "keys"))))
    if v is None:
        for d in (NONE,):
            w = eq(g, call_(at(b, "get"), const(k)), d)
            if w is not None:
                v = not w
    return v


def flag(g, b, k):
    """truth of the optional entry k of mapping b on this path"""
    for t in (call_(at(b, "get"), const(k), FALSE), call_(at(b, "get"), const(k)), sub(b, k)):
        v = val(g, t)
        if v is not None:
            return v
    if has(g, k, b) is False:
        return False
    return None


def absurd(g):
    """path conditions no run satisfies: x == x is false for a bound, or x < x"""
    return any(k[0] == "cmp" and k[2] == k[3] and v is (k[1] == "<") for k, v in g.items())


def entries(t):
    """a dict display as {constant key: value}, through spreads; None if not understood"""
    if t is None or t[0] != "dict":
        return None
    r = {}
    for k, v in t[1]:
        if k == const("**") or k is None or k == "**" or (k[0] == "c" and k[2] == "**"):
            e = entries(v)
            if e is None:
                return None
            r.update(e)
        elif k[0] == "c":
            r[k[2]] = v
        else:
            return None
    return r


OPS = {  # operator -> side of the bound, and whether the bound itself is excluded, for `arg OP bound`
    "Lt": ("max", True), "LtE": ("max", False), "Gt": ("min", True), "GtE": ("min", False), "Eq": ("both", False),
}
OTHER = {"min": "max", "max": "min", "both": "both"}


def wanted(side, excl, v):
    r = {}
    for s in ("min", "max"):
        if side in (s, "both"):
            r[s + "_value"] = v
            if excl:
                r["exclude_" + s] = TRUE
    return r


def check_comparison(rep):
    """one comparison to its bounds: every operator on either side"""
    f = rep.func(FI + "comp_to_constraints")
    ARG = ("g", FI + "ARG")
    x, y, op = P("x"), P("y"), P("op")
    cx, cy = (call_(FI + "convert", v, P("argname")) for v in (x, y))
    seen = set()
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        g = gd(o)
        if absurd(g):
            continue
        if o.kind == "raise":
            rep.check(o.type == "builtins.ValueError", "comparison", "refusal", loc(o), f"a comparison that is not understood raises {o.type}, which the caller does not expect")
            continue
        if o.kind != "return":
            continue
        got = entries(dm(o.value))
        if not rep.check(got is not None, "comparison", "table", loc(o), f"the bounds are {show(o.value)[:80]}"):
            continue
        ax, ay = eq(g, cx, ARG), eq(g, cy, ARG)
        if ax and (ay or inst(g, cx, "int", "float")):
            continue  # the marker for the argument is no number
        left = True if ax else False if ay else None
        other = cy if left else cx
        names = {n for n in OPS if inst(g, op, n)}
        if not rep.check(left is not None and len(names) == 1, "comparison", "understood", loc(o), "bounds are returned without knowing the operator and which side is the argument"):
            continue
        num = inst(g, other, "int", "float")
        rep.check(num is True, "comparison", "number", loc(o), "a bound is used without checking that it is a number")
        n = names.pop()
        side, excl = OPS[n]
        seen.add((n, left))
        ln_ = got.pop("len", None)
        called = inst(g, x, "Call") is True or inst(g, y, "Call") is True
        free = inst(g, x, "Call") is False and inst(g, y, "Call") is False
        rep.check(ln_ == TRUE if called else ln_ is None if free else False, "comparison", "len", loc(o), "bounds on the length and bounds on the value are confused")
        rep.check(got == wanted(side if left else OTHER[side], excl, other), "comparison", f"{n}:{'left' if left else 'right'}", loc(o), f"`{'x ' + n + ' bound' if left else 'bound ' + n + ' x'}` becomes {show(o.value)[:80]}")
    rep.check(len(seen) >= 8, "comparison", "coverage", f.loc, f"only {sorted(seen)} are understood")
    # what counts as the argument
    f = rep.func(FI + "convert")
    node = P("node")
    for o in rep.trace(f, None, lambda a: True, lambda *a: False, raises=NOTHING):
        g = gd(o)
        if o.kind == "raise":
            rep.check(o.type == "builtins.ValueError", "operand", "refusal", loc(o), f"an operand that is not understood raises {o.type}")
            continue
        if o.kind != "return":
            continue
        v = dm(o.value)
        if v == ARG:
            rep.check(inst(g, node, "Name") is True and eq(g, at(node, "id"), P("argname")) is True, "operand", "argument", loc(o), "an operand counts as the argument although its name is not the argument's")
        elif is_call(v, "convert"):
            a = sub(at(node, "args"), 0)
            fn = at(node, "func")
            ok = inst(g, node, "Call") is True and eq(g, at(fn, "id"), const("len")) is True and inst(g, fn, "Name") is True and eq(g, ln(at(node, "args")), const(1)) is True
            rep.check(ok and v[2][:1] == (a,), "operand", "len", loc(o), "a call other than len(arg) is read as the length of the argument")
        else:
            rep.check(is_call(v, "literal_eval") and v[2] == (node,), "operand", "literal", loc(o), f"an operand is evaluated as {show(v)[:60]}")
            rep.check(inst(g, node, "Name") is False, "operand", "name", loc(o), "a name is evaluated as a literal")


def check_expression(rep):
    """an expression to the bounds it implies: conjunctions and chained comparisons only, the rest kept"""
    f = rep.func(FI + "numeric_bounds_from_ast")
    tree, fb = P("tree"), P("fallback")

    def ev(k, t, x):
        if k == "call" and last(t[1]) in ("append", "extend", "comp_to_constraints", "numeric_bounds_from_ast", "merge_preds"):
            return (last(t[1]), dm(t), frozenset(gd_of(x["st"]).items()))
        if k == "loop":
            return ("loop",)
        if k == "catch":
            return ("catch",)

    for exc in (False, True):
        outs = rep.trace(f, ev, lambda a: True, extracted, exc, raises=(lambda c: ("builtins.ValueError",) if last(c[1]) == "comp_to_constraints" else ()), rounds=2, max_states=3000)
        for o in outs:
            if o.kind == "raise":
                rep.check(False, "expression", "refusal", loc(o), f"a comparison that is not understood escapes as {o.type} instead of keeping the predicate")
            if o.kind != "return":
                continue
            g = gd(o)
            v = dm(o.value)
            if v == fb:
                continue
            comp = inst(g, tree, "Compare") is True
            conj = inst(g, tree, "BoolOp") is True and inst(g, at(tree, "op"), "And") is True
            if not rep.check(is_call(v, "merge_preds") and (comp or conj), "expression", "kind", loc(o), f"an expression that is neither a comparison nor a conjunction becomes {show(v)[:60]}"):
                continue
            if conj:
                a = v[2][0] if len(v[2]) == 1 else None
                want = call_(FI + "numeric_bounds_from_ast", ("elem", at(tree, "values")), P("argname"), fb)
                if a and a[0] == "star" and a[1][0] == "comp":
                    c = a[1]
                    ok = c[3] == (at(tree, "values"),) and not c[4] and c[2] == want
                else:
                    adds = [l for l in o.state.auto if l[0] == "append"]
                    loops = [l for l in o.state.auto if l[0] == "loop"]
                    ok = len(adds) == len(loops) and all(l[1][2] == (want,) for l in adds)
                rep.check(ok, "expression", "conjunction", loc(o), "a part of the conjunction is left out")
            else:
                labs = [l for l in o.state.auto if l[0] in ("loop", "append", "catch", "comp_to_constraints")]
                pend = False
                vals = at(tree, "comparators")
                for l in o.state.auto:
                    for z in subs(l[1]) if len(l) > 1 else ():
                        if z[:1] == ("tuple",) and len(z) == 2 and len(z[1]) == 3 and any_sub(z[1][1], lambda y: y == at(tree, "ops")):
                            lhs, _, rhs = z[1]
                            first = not any_sub(rhs, lambda y: y[:1] in (("elem",), ("idx",), ("bound",)))
                            ok = lhs == at(tree, "left") if first else any_sub(lhs, lambda y: y == vals) and lhs != rhs
                            if not first and lhs[0] == "sub" and lhs[1] == vals and last_elem(rhs, vals):
                                i = next((y for y in subs(lhs) if y[:1] == ("idx",)), None)
                                ok = i is not None and poly(lhs[2]) == poly(i)
                            rep.check(ok, "expression", "chain", loc(o), "a part of a chained comparison is not compared to the operand before it")
                for l in labs:
                    if l[0] == "comp_to_constraints":
                        pend = l[1]
                    elif l[0] == "catch":
                        pend = "caught"
                    elif l[0] == "append" and pend:
                        a = l[1][2][0]
                        gg = dict(l[2])
                        if pend == "caught":
                            rep.check(a == fb, "expression", "unknown-part", loc(o), "a comparison that is not understood is left out")
                        else:
                            ok = is_call(a, "ConstructivePredicate") and a[2][:1] == (pend,)
                            w = has(gg, "len", pend)
                            keep = at(fb, "predicate")
                            p = a[2][1] if ok and len(a[2]) > 1 else None
                            rep.check(ok and (p == keep or w is False and p == NONE), "expression", "len-kept", loc(o), "len may be redefined, but a bound on the length is not checked against the predicate")
                        pend = False
                rep.check(not pend, "expression", "every-part", loc(o), "the bounds of a comparison are left out")


def last_elem(t, vals):
    """t ranges over all but the first of the operands"""
    return any_sub(t, lambda y: y[:1] == ("elem",) and any_sub(y, lambda z: z[:1] == ("sub",) and z[1] == vals and z[2][:1] == ("slice",) and z[2][1] == const(1)))


def gd_of(st):
    return {dm(a): v for a, v in st.guards}


def check_merge(rep):
    """merging bounds: the tighter one wins, a tie keeps the exclusion, and nothing is forgotten"""
    f = rep.func(FI + "merge_preds")
    cp = P("con_predicates")
    kw, p = sub(("elem", cp), 0), sub(("elem", cp), 1)

    def ev(k, t, x):
        if k == "loop":
            return ("loop",)
        if k == "setitem":
            return ("item", dm(t), dm(x["value"]))
        if k == "del":
            return ("del", dm(t), frozenset(gd_of(x["st"]).items()))
        if k == "back":
            return ("back", frozenset((n, dm(v)) for n, v in x["values"].items()), frozenset(gd_of(x["st"]).items()))

    segs, outs = rep.segments(f, ev, (("loop",),), lambda a: True, extracted, raises=NOTHING, rounds=2, max_states=4000)
    n = 0
    backs = [dict(l[1]) for _, labs, _ in segs for l in labs if l[0] == "back"]
    kept = {k for d in backs for k, v in d.items() if v[0] == "phi" and v[1] == k} & {k for d in backs for k, v in d.items() if v == p}
    rep.check(bool(kept), "merge", "predicate", f.loc, "the predicates of parts that are not fully understood are not collected")
    for head, labs, how in segs:
        back = next((l for l in labs if l[0] == "back"), None)
        if head != ("loop",) or back is None:
            continue
        g = dict(back[2])
        if absurd(g):
            continue
        n += 1
        before = labs[:labs.index(back)]
        vals = dict(back[1])
        # the predicate of a part that is not fully understood is kept
        t = truth(g, p)
        if t is None and eq(g, p, NONE) is not None:
            t = not eq(g, p, NONE)
        for k in kept:
            if t is True:
                rep.check(vals[k] == p or eq(g, p, vals[k]) is True, "merge", "predicate", f.loc, "the predicate of a part that is not fully understood is dropped")
            elif t is False:
                rep.check(vals[k][0] == "phi", "merge", "predicate", f.loc, "a later part that is fully understood makes the predicate of an earlier one be dropped")
            else:
                rep.check(vals[k] == p and truth(g, ("phi",)) is None and any(a[0] == "phi" and a[1] == k and b is False for a, b in g.items()), "merge", "predicate", f.loc, "the predicate of an earlier part is replaced")
        for s in ("min", "max"):
            K, X = s + "_value", "exclude_" + s
            got = {l[1][2][2]: (l[1][1], l[2]) for l in before if l[0] == "item" and l[1][0] == "sub" and l[1][2][0] == "c"}
            there = has(g, K, kw)
            new = sub(kw, K)
            bases = {k[2][1] if k[3] == new else k[3][1] for k in g if k[0] == "cmp" and new in (k[2], k[3]) and (k[2] if k[3] == new else k[3])[0] == "sub"}
            if there is False:
                rep.check(not {K, X} & set(got), "merge", f"{s}:absent", f.loc, f"{K} changes although the part has none")
                continue
            if not rep.check(there is True and len(bases) >= 1, "merge", f"{s}:compared", f.loc, f"{K} is merged without comparing it to the bound so far"):
                continue
            b = sub(bases.pop(), K)
            tight = less(g, b, new) if s == "min" else less(g, new, b)
            tie = eq(g, new, b)
            ex = {call_(at(kw, "get"), const(X), FALSE), call_(at(kw, "get"), const(X))}
            if tight is True:
                rep.check(got.get(K, (0, 0))[1] == new, "merge", f"{s}:tighter", f.loc, f"a tighter {K} is not taken over")
                rep.check(X in got and got[X][1] in ex, "merge", f"{s}:tighter-exclusive", f.loc, f"whether the new {K} itself is excluded is not taken over with it")
            elif tie is True:
                e = got.get(X)
                ok = e is not None and (e[1][0] == "bin" and e[1][1] == "|" and any(z in ex for z in e[1][2:]) or e[1] in ex or e[1] == TRUE)
                ok = ok or e is None and any(val(g, z) is False for z in ex)
                ok = ok or e is not None and e[1][0] == "phi"
                if e is not None and e[1] in ex:
                    # `old or new`: only when the old one is known to be false
                    ok = any(k[0] == "sub" and k[2] == const(X) and v is False for k, v in g.items())
                rep.check(ok and K not in got or ok and got[K][1] == new, "merge", f"{s}:tie", f.loc, f"of two equal {K}, one excluding the bound, the exclusion is lost")
            elif tight is False and tie is False:
                rep.check(not {K, X} & set(got), "merge", f"{s}:looser", f.loc, f"a looser {K} replaces a tighter one")
            else:
                rep.check(False, "merge", f"{s}:compared", f.loc, f"{K} is merged without comparing it to the bound so far")
    rep.check(n > 0, "merge", "loop", f.loc, "no path through the merging of bounds")
    # what is left out of the result afterwards
    for head, labs, how in segs:
        if how != "end":
            continue
        for l in labs:
            if l[0] != "del" or l[1][0] != "sub" or l[1][2][0] != "c":
                continue
            k, g = l[1][2][2], dict(l[2])
            if k.startswith("exclude_"):
                rep.check(truth(g, l[1]) is False, "merge", f"drop:{k}", f.loc, f"{k} is dropped although it may be set")
            else:
                anyk = [v for a, v in g.items() if is_call(a, "any") and any_sub(a, lambda z: z == const(k))]
                infs = [1 for a in g if a[0] == "cmp" and a[1] == "==" and any_sub(a, lambda z: z == const(k)) and (is_inf(a[2], 1) or is_inf(a[3], 1) or is_inf(a[2], -1) or is_inf(a[3], -1))]
                rep.check(not (infs and False not in anyk), "merge", f"drop:{k}", f.loc, f"an explicit infinite {k} is dropped, so that nothing remains of the filter")
                if not infs:
                    rep.check(True not in anyk, "merge", f"drop:{k}", f.loc, f"{k} is dropped although a part has it")


def num_bounds(rep, f, who):
    """the call to get_numeric_predicate_bounds and the two values it returned"""
    c = call_(FI + "get_numeric_predicate_bounds", P("predicate"))
    return sub(c, 0), sub(c, 1)


def empty_bounds(v):
    """ConstructivePredicate of bounds no value satisfies"""
    if not is_call(v, "ConstructivePredicate") or not v[2]:
        return False
    e = entries(v[2][0])
    if not e or not {"min_value", "max_value"} <= set(e) or any(e[k][0] not in ("c", "un") for k in ("min_value", "max_value")):
        return False

    def num(t):
        return -num(t[2]) if t[0] == "un" else t[2]
    return num(e["min_value"]) > num(e["max_value"])


def rounding(rep, name, expect):
    """get_integer_/get_float_predicate_bounds: each bound rounded inwards, the rest passed on"""
    f = rep.func(FI + name)
    B, PR = num_bounds(rep, f, name)

    def ev(k, t, x):
        if k == "setitem" and t[2][0] == "c":
            return ("item", t[2][2], dm(x["value"]))
        if k == "del" and t[0] == "sub" and t[2][0] == "c":
            return ("del", t[2][2])

    n = 0
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING, max_states=4000, items=True):
        if o.kind != "return":
            continue
        g = gd(o)
        if absurd(g):
            continue
        v = dm(o.value)
        if is_call(v, "unchanged"):
            rep.check(v[2] == (P("predicate"),), name, "unchanged", loc(o), "when a bound cannot be used, something other than the whole predicate is kept")
            continue
        if not rep.check(is_call(v, "ConstructivePredicate") and len(v[2]) == 2, name, "result", loc(o), f"the result is {show(v)[:60]}"):
            continue
        n += 1
        if empty_bounds(v):
            rep.check(expect(g, B, None, None, "empty"), name, "empty", loc(o), "the filter is taken to be unsatisfiable on a path where a value may satisfy it")
            continue
        rep.check(v[2][1] == PR, name, "predicate", loc(o), "the predicate that remains to be checked is dropped or replaced")
        if v[2][0][0] == "comp":
            rep.check(all(any_sub(v[2][0][4], lambda z: z == const(k)) for k in expect.keys) , name, "keys", loc(o), "the result leaves out a bound, or whether it is on the length")
        last_ = {}
        for l in o.state.auto:
            last_[l[1]] = l
        for s in ("min", "max"):
            K = s + "_value"
            h = has(g, K, B)
            l = last_.get(K)
            if h is False:
                rep.check(l is None, name, f"{s}:absent", loc(o), f"{K} is set although the filter has none")
                continue
            rep.check(h is True and expect(g, B, s, l, "bound"), name, f"{s}:rounding", loc(o), f"{K} becomes {show(l[2])[:80] if l and l[0] == 'item' else l} where it should be rounded inwards" if l else f"{K} is used as it is, without rounding")
    rep.check(n > 0, name, "paths", f.loc, "no path returns bounds")
    return f


def check_integer(rep):
    """bounds on integers: rounded inwards to integers, with exclusive bounds moved by one"""
    def expect(g, B, s, l, what):
        if what == "empty":
            return eq_inf(g, sub(B, "min_value"), 1) is True or eq_inf(g, sub(B, "max_value"), -1) is True
        v = sub(B, s + "_value")
        sg = 1 if s == "min" else -1
        if l is not None and l[0] == "del":
            return eq_inf(g, v, -sg) is True
        if l is None:
            return False
        if eq_inf(g, v, 1) is not False or eq_inf(g, v, -1) is not False:
            return False  # int() of an infinity
        x = l[2]
        whole = eq(g, v, call_("builtins.int", v))
        for r in ("hypothesis.internal.compat.floor", "hypothesis.internal.compat.ceil", "math.floor", "math.ceil"):
            if whole is None:
                whole = eq(g, v, call_(r, v))
        ex = flag(g, B, "exclude_" + s)
        up, down = ("ceil", "floor") if s == "min" else ("floor", "ceil")
        step = "+" if s == "min" else "-"
        if is_call(x, up):
            return x[2] == (v,) and (whole is False or ex is False)
        base, moved = x, False
        if x[0] == "bin" and x[1] == step and const(1) in x[2:]:
            base, moved = (x[2] if x[3] == const(1) else x[3]), True
        if is_call(base, down) and base[2] == (v,):
            return moved and (ex is True or whole is False)
        if base in (call_("builtins.int", v),) or is_call(base, up) and moved:
            return whole is True and ex is (True if moved else False)
        return False
    expect.keys = ("min_value", "max_value", "len")
    rounding(rep, "get_integer_predicate_bounds", expect)


def check_float(rep):
    """bounds on floats: rounded inwards to floats, exclusive bounds moved to the next float"""
    def expect(g, B, s, l, what):
        def facts(s):
            v = sub(B, s + "_value")
            fv = call_("builtins.float", v)
            inside = less(g, fv, v) if s == "min" else less(g, v, fv)  # rounding went outwards
            return v, fv, inside, eq(g, v, fv), flag(g, B, "exclude_" + s)
        if what == "empty":
            return any(eq_inf(g, fv, sg) is True and (same and ex or i is True) for (v, fv, i, same, ex), sg in ((facts("min"), 1), (facts("max"), -1)))
        if l is None or l[0] != "item":
            return False
        v, fv, out, same, ex = facts(s)
        x = l[2]
        if x == fv:
            return out is False and (same is False or ex is False)
        if not is_call(x, "next_up" if s == "min" else "next_down"):
            return False
        if len(x[2]) != 1 or x[3]:
            return False
        a = x[2][0]
        strict = same and ex and out is not True
        zero = None if truth(g, fv) is None else not truth(g, fv)
        if a == fv:
            ok = not strict or zero is False
        else:
            num = a[2] if a[0] == "c" else -a[2][2] if a[0] == "un" and a[2][0] == "c" else None
            ok = zero is True and isinstance(num, float) and num == 0 and math.copysign(1, num) == (1 if s == "min" else -1)
        if strict:
            ok = ok and eq_inf(g, fv, 1 if s == "min" else -1) is False
        return ok and (out is True or bool(strict))
    expect.keys = ("min_value", "max_value")
    f = rounding(rep, "get_float_predicate_bounds", expect)
    outs = rep.trace(f, None, lambda a: True, extracted, True, raises=lambda c: ("builtins.OverflowError",) if is_call(c, "float") else (), max_states=4000)
    for o in outs:
        if o.kind == "raise":
            rep.check(o.type != "builtins.OverflowError", "get_float_predicate_bounds", "huge", loc(o), "a bound too large for a float fails the filter")


def same_code(terms, f):
    """what of the code of f is not compared with that of its source: names of the fields"""
    code = at(f, "__code__")
    missing = []
    for k in ("co_code", "co_consts", "co_names"):
        if not any(any_sub(t, lambda x: x[0] == "cmp" and x[1] == "==" and any_sub(x, lambda z: z == at(code, k)) and any_sub(x, lambda z: z[0] == "a" and z[2] == k and z[1] != code)) for t in terms):
            missing.append(k)
    return missing


def check_partial(rep):
    """functools.partial of an operator: the table of what op(bound, x) means"""
    f = rep.func(FI + "get_numeric_predicate_bounds")
    PR = P("predicate")
    arg = sub(at(PR, "args"), 0)
    unch = lambda v: is_call(v, "unchanged") and v[2] == (PR,)  # noqa
    n = m = 0
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING, max_states=4000, cap=3000):
        if o.kind != "return":
            continue
        g = gd(o)
        v = dm(o.value)
        if unch(v):
            continue
        if is_call(v, "numeric_bounds_from_ast"):
            m += 1
            body, name, fb = (tuple(v[2]) + (NONE,) * 3)[:3]
            rep.check(unch(fb), "source", "fallback", loc(o), "parts of the predicate that are not understood are dropped")
            fnode = None
            if body[0] == "a" and body[2] == "body":
                fnode = body[1]
                ok = inst(g, fnode, "Lambda") is True
            elif body[0] == "a" and body[2] == "value" and body[1][0] == "sub" and body[1][2] == const(0) and body[1][1][0] == "a":
                fnode = body[1][1][1]
                ok = inst(g, fnode, "FunctionDef") is True and inst(g, body[1], "Return") is True and eq(g, ln(at(fnode, "body")), const(1)) is True
            else:
                ok = False
            if rep.check(ok, "source", "body", loc(o), f"the condition is read from {show(body)[:80]}"):
                aa = at(at(fnode, "args"), "args")
                rep.check(eq(g, ln(aa), const(1)) is True, "source", "arity", loc(o), "a predicate of several arguments is read as one of its first")
                rep.check(name == at(sub(aa, 0), "arg"), "source", "argument", loc(o), "the name of the argument is taken from elsewhere")
            wr = [b for a, b in g.items() if any_sub(a, lambda z: z == const("__wrapped__") or z == at(PR, "__wrapped__"))]
            unwrapped = any(a == call_("builtins.hasattr", PR, const("__wrapped__")) and b is False or a[0] == "cmp" and a[1] == "is" and any_sub(a, lambda z: z == const("__wrapped__")) and b is True for a, b in g.items())
            rep.check(unwrapped, "source", "wrapped", loc(o), "the source of a wrapped function is read as that of the wrapper")
            lam = eq(g, at(PR, "__name__"), const("<lambda>"))
            miss = same_code([a for a, b in g.items() if b], PR)
            rep.check(lam is False or not miss, "source", "whole", loc(o), f"the source of a lambda may be only its first line, and is not compared with its code ({', '.join(miss)})")
            continue
        n += 1
        if not rep.check(is_call(v, "ConstructivePredicate") and len(v[2]) == 2 and v[2][1] == NONE, "partial", "result", loc(o), f"the result is {show(v)[:80]}"):
            continue
        t = v[2][0]
        fn = at(PR, "func")
        if not rep.check(t[0] == "sub" and t[1][0] == "dict" and t[2] == fn or is_call(t, "get") and t[1][1][0] == "dict" and t[2][:1] == (fn,), "partial", "table", loc(o), "the bounds of a partial are not looked up by its function"):
            continue
        d = t[1] if t[0] == "sub" else t[1][1]
        rep.check(any(a[0] == "cmp" and a[1] == "in" and a[2] == fn and b for a, b in g.items()) or t[0] != "sub", "partial", "known", loc(o), "the function of the partial need not be in the table")
        rep.check(inst(g, PR, "partial") is True and eq(g, ln(at(PR, "args")), const(1)) is True and truth(g, at(PR, "keywords")) is False, "partial", "shape", loc(o), "a partial with other arguments is read as an operator with one")
        rep.check(inst(g, arg, "int", "float", "Fraction", "Decimal") is True, "partial", "type", loc(o), "a bound is used without checking that it is a number")
        nan = eq(g, arg, arg) is True or any(is_call(a, "isnan", "is_nan") and b is False for a, b in g.items())
        rep.check(nan, "partial", "nan", loc(o), "a nan is used as a bound")
        table = {"lt": ("min", True), "le": ("min", False), "eq": ("both", False), "ge": ("max", False), "gt": ("max", True)}
        for k, e in d[1]:
            nm = last(k)
            got = entries(e)
            if nm in ("min_len", "max_len") and k == ("g", FI + nm):
                want = dict(wanted(nm[:3], False, arg), len=TRUE)
            elif nm in table and k[1].split(".")[0] in ("operator", "_operator"):
                want = wanted(table[nm][0], table[nm][1], arg)
            else:
                rep.check(False, "partial", f"op:{show(k)}", loc(o), f"{show(k)}(bound, x) is read as bounds {show(e)[:60]}")
                continue
            rep.check(got == want, "partial", f"op:{nm}", loc(o), f"{nm}(bound, x) is read as {show(e)[:80]}")
    rep.check(n > 0, "partial", "paths", f.loc, "partials of operators are no longer understood")
    rep.check(m > 0, "source", "paths", f.loc, "the source of predicates is no longer understood")
    for nm, want in (("min_len", False), ("max_len", True)):
        f2 = rep.func(FI + nm)
        a, b = P("size"), ln(P("element"))
        for o in rep.trace(f2, None, lambda a: True, extracted, raises=NOTHING):
            if o.kind != "return":
                continue
            v = dm(o.value)
            lo, hi = (a, b) if nm == "min_len" else (b, a)
            ok = v in (("cmp", "<=", lo, hi), ("not", ("cmp", "<", hi, lo)), ("cmp", ">=", hi, lo))
            if v in (TRUE, FALSE):
                ok = less(gd(o), hi, lo) is (v == FALSE)
            rep.check(ok, "partial", nm, loc(o), f"{nm} tests {show(v)[:60]}")
    # reading the source may fail in any way
    outs = rep.trace(f, None, lambda a: True, extracted, True, raises=lambda c: ("builtins.OSError", "builtins.TypeError", "builtins.SyntaxError") if is_call(c, "getsource", "extract_lambda_source", "parse") else (), max_states=4000)
    for o in outs:
        if o.kind == "raise" and o.type in ("builtins.OSError", "builtins.TypeError", "builtins.SyntaxError"):
            rep.check(False, "source", "unavailable", loc(o), f"a predicate whose source cannot be read makes .filter() fail with {o.type}")
    # identity functions are recognised only from their whole source
    f3 = rep.func(RF + "is_identity_function")
    for o in rep.trace(f3, None, lambda a: True, extracted, raises=NOTHING):
        if o.kind == "return" and dm(o.value) != FALSE:
            v = dm(o.value)
            g = gd(o)
            ok = not same_code([v] + [a for a, b in g.items() if b], P("f"))
            ok = ok or any(is_call(a, "fullmatch", "bool", "match") and b is False for a, b in g.items())
            rep.check(ok, "source", "identity", loc(o), "a lambda is taken for the identity from the first line of its source")


def meth(rep, fq, items=False, cap=600, **k):
    """paths of a filter method: (outcome, conditions, value, effects)"""
    f = rep.func(fq)

    def ev(kind, t, x):
        if kind == "setattr":
            return ("set", dm(t), dm(x["value"]))
        if kind == "call" and last(t[1]) not in ("isinstance", "max", "min", "get", "getattr"):
            return ("call", dm(t))

    out = []
    for o in rep.trace(f, ev, lambda a: True, extracted, k.pop("exc", False), raises=k.pop("raises", NOTHING), max_states=4000, cap=cap, items=items, **k):
        g = gd(o)
        if absurd(g):
            continue
        out.append((o, g, dm(o.value) if o.kind == "return" else None, list(o.state.auto)))
    return f, out


def keeps(v, what):
    """v is some strategy filtered by `what`"""
    return is_call(v, "filter") and what in v[2] + tuple(x for _, x in v[3])


def tightest(t, s, own, c, g):
    """t is the tighter of the strategy's own bound and the filter's; a tie keeps the strategy's"""
    if is_call(t, "max" if s == "min" else "min") and len(t[2]) == 2:
        return t[2] == (own, c)
    if t == own:
        return (less(g, own, c) if s == "min" else less(g, c, own)) is False
    if t == c:
        return (less(g, own, c) if s == "min" else less(g, c, own)) is True
    return False


def bounds_of(fn):
    c = call_(FI + fn, COND)
    return sub(c, 0), sub(c, 1)


def check_integers_filter(rep):
    """integers().filter"""
    C = ST + "numbers.IntegersStrategy."
    f, outs = meth(rep, C + "filter")
    B, PR = bounds_of("get_integer_predicate_bounds")
    known = {"math.isfinite": True, "math.isinf": False, "math.isnan": False}
    for o, g, v, labs in outs:
        if v is None:
            continue
        sp = special(g, COND, known)
        if sp is not None:
            rep.check(v == SELF if known[sp] else is_call(v, "nothing"), "integers", sp, loc(o), f"integers().filter({sp}) becomes {show(v)[:60]}")
            continue
        made = [l[1] for l in labs if l[0] == "call" and builds_self(l[1], C)]
        own = {"min": sa("start"), "max": sa("end")}

        def right(t, s):
            K = s + "_value"
            h = has(g, K, B)
            if h is False:
                return t == own[s]
            c = sub(B, K)
            if h is not True:
                return False
            if eq(g, own[s], NONE) is True:
                fn = "max" if s == "min" else "min"
                return t == c or is_call(t, fn) and c in t[2] and all(a == c or is_inf(a, -1 if s == "min" else 1) for a in t[2])
            return any(tightest(t, s, a, b, g) for a, b in ((own[s], c), (c, own[s])))
        if is_call(v, "nothing"):
            lo, hi = [a for a in candidates(g) if right(a, "min")], [a for a in candidates(g) if right(a, "max")]
            rep.check(any(less(g, h, l) is True for l in lo for h in hi), "integers", "empty", loc(o), "the filter is taken to be unsatisfiable although its bounds allow a value")
            continue
        if made:
            m = made[-1]
            lo, hi = kw_of(m, "start", 0), kw_of(m, "end", 1)
            rep.check(lo is not None and hi is not None and right(lo, "min") and right(hi, "max"), "integers", "bounds", loc(o), f"the filtered strategy has bounds {show(lo)[:60]}, {show(hi)[:60]}")
        else:
            for s in ("min", "max"):
                K = s + "_value"
                same = any(right(a if b == own[s] else b, s) for k, t in g.items() if k[0] == "cmp" and k[1] == "==" and t for a, b in (k[2:4],) if own[s] in (a, b))
                rep.check(has(g, K, B) is False or same, "integers", f"{s}:unused", loc(o), f"{K} of the filter is not applied")
        remains(rep, "integers", o, g, v, PR, made, C)


def special(g, c, known):
    """the well-known function the condition is on this path"""
    for k, b in g.items():
        if b and k[0] == "cmp" and k[1] in ("==", "is") and c in (k[2], k[3]):
            x = k[3] if k[2] == c else k[2]
            if x[0] == "g" and x[1] in known:
                return x[1]
        if b and k[0] == "cmp" and k[1] == "in" and k[2] == c and k[3][0] in ("list", "tuple", "set"):
            xs = [x[1] for x in k[3][1] if x[0] == "g"]
            if xs and len(xs) == len(k[3][1]) and all(x in known for x in xs) and len({known[x] for x in xs}) == 1:
                return xs[0]
            if xs:
                return next((x for x in xs if x in known), None)
    return None


def builds_self(t, C):
    """a call that builds another strategy of the class"""
    return t[1] == call_("builtins.type", SELF) or t[1] == at(SELF, "__class__") or t[1] == ("g", C[:-1])


def kw_of(t, n, pos=None):
    for k, v in t[3]:
        if k == n:
            return v
    if pos is not None and len(t[2]) > pos:
        return t[2][pos]
    return None


def candidates(g):
    # a list, as a set would take 0.0 and -0.0 for the same
    return [x for k in g if k[0] == "cmp" for x in k[2:4]]


def remains(rep, who, o, g, v, PR, made, C):
    """the part of the condition that was not turned into bounds is still applied"""
    none = eq(g, PR, NONE)
    if v == SELF or builds_self(v, C) if v[0] == "call" else v == SELF:
        rep.check(none is True, who, "remaining", loc(o), "the part of the condition that was not turned into bounds is dropped")
        rep.check(v != SELF or not made, who, "rebuilt", loc(o), "the strategy with the new bounds is not the one returned")
    else:
        rep.check(keeps(v, PR) or keeps(v, COND), who, "remaining", loc(o), f"the part of the condition that was not turned into bounds is dropped: {show(v)[:80]}")


def check_floats_filter(rep):
    """floats().filter"""
    C = ST + "numbers.FloatStrategy."
    f, outs = meth(rep, C + "filter")
    B, PR = bounds_of("get_float_predicate_bounds")
    own = {"min": sa("min_value"), "max": sa("max_value")}
    snm, nan = sa("smallest_nonzero_magnitude"), sa("allow_nan")
    nsnm = ("un", "-", snm)
    known = {"math.isfinite": 1, "math.isinf": 2, "math.isnan": 3}
    infs = set()
    zero = const(0)
    for o, g, v, labs in outs:
        if v is None:
            rep.check(False, "floats", "refusal", loc(o), f"floats().filter raises {o.type}")
            continue
        sp = special(g, COND, known)
        made = [l[1] for l in labs if l[0] == "call" and builds_self(l[1], C)]

        def raw(t, s):
            """the combined bound before subnormals are excluded"""
            K = s + "_value"
            c = [call_(at(B, "get"), const(K), d) for d in {x for a in [*candidates(g), t] for x in subs(a) if is_inf(x, -1 if s == "min" else 1)}]
            h = has(g, K, B)
            c += [sub(B, K)] if h is True else []
            return any(tightest(t, s, own[s], x, g) for x in c) or h is False and t == own[s]

        def finite(t, s):
            fn, nx, sg = ("max", "next_up", -1) if s == "min" else ("min", "next_down", 1)
            return is_call(t, fn) and set(t[2]) - {own[s]} and own[s] in t[2] and all(a == own[s] or is_call(a, nx) and is_inf(a[2][0], sg) for a in t[2])
        if sp == "math.isfinite":
            if is_call(v, "nothing"):
                rep.check(any(less(g, h, l) is True for l in candidates(g) for h in candidates(g) if finite(l, "min") and finite(h, "max")), "floats", "isfinite-empty", loc(o), "floats().filter(math.isfinite) has no values although its bounds allow one")
                continue
            if rep.check(v[0] == "call" and (builds_self(v, C) or is_call(v, "FloatStrategy")), "floats", "isfinite", loc(o), f"floats().filter(math.isfinite) becomes {show(v)[:60]}"):
                lo, hi = kw_of(v, "min_value"), kw_of(v, "max_value")
                rep.check(finite(lo, "min") and finite(hi, "max") and kw_of(v, "allow_nan") == FALSE and kw_of(v, "smallest_nonzero_magnitude") == snm, "floats", "isfinite", loc(o), f"floats().filter(math.isfinite) becomes {show(v)[:120]}")
                rep.check(less(g, hi, lo) is False, "floats", "isfinite-empty", loc(o), "floats().filter(math.isfinite) is built with bounds that may be the wrong way around")
            continue
        if sp == "math.isinf":
            rep.check(is_call(v, "nothing", "SampledFromStrategy", "sampled_from", "just", "JustStrategy"), "floats", "isinf", loc(o), f"floats().filter(math.isinf) becomes {show(v)[:60]}")
            infs |= {x for a in g for x in own.values() if any_sub(a, lambda z: z == x)}
            continue
        if sp == "math.isnan":
            ok = truth(g, nan) is (not is_call(v, "nothing"))
            rep.check(ok and is_call(v, "nothing", "NanStrategy"), "floats", "isnan", loc(o), f"floats().filter(math.isnan) becomes {show(v)[:60]}")
            continue
        if truth(g, B) is False:
            rep.check(keeps(v, PR) or keeps(v, COND), "floats", "remaining", loc(o), "a condition that gives no bounds is dropped")
            continue

        def right(t, s):
            if raw(t, s):
                if truth(g, snm) is False:
                    return True
                # a bound among the excluded subnormals must have been moved
                return not (less(g, nsnm, t) is True and less(g, t, zero) is True or less(g, zero, t) is True and less(g, t, snm) is True)
            base = [a for a in candidates(g) if raw(a, s)]
            neg = any(less(g, nsnm, a) is True and less(g, a, zero) is True for a in base)
            pos = any(less(g, zero, a) is True and less(g, a, snm) is True for a in base)
            if t == (snm if s == "min" else nsnm):
                return pos if s == "min" else neg
            num = t[2] if t[0] == "c" else -t[2][2] if t[0] == "un" and t[2][0] == "c" else None
            return num == 0 and (neg and math.copysign(1, num) == -1 if s == "min" else pos and math.copysign(1, num) == 1)
        if is_call(v, "nothing"):
            ok = any(less(g, h, l) is True for l in candidates(g) if right(l, "min") for h in candidates(g) if right(h, "max"))
            rep.check(ok, "floats", "empty", loc(o), "the filter is taken to be unsatisfiable although its bounds allow a value")
            continue
        if made:
            m = made[-1]
            for s in ("min", "max"):
                t = kw_of(m, s + "_value")
                rep.check(t is not None and right(t, s), "floats", f"{s}:bound", loc(o), f"the filtered strategy has {s}_value={show(t)[:100] if t else None}")
            rep.check(kw_of(m, "allow_nan") == FALSE, "floats", "nan", loc(o), "nan is still generated although no comparison is true of it")
            rep.check(kw_of(m, "smallest_nonzero_magnitude") == snm, "floats", "subnormals", loc(o), "whether subnormals are allowed is lost")
        else:
            lo = any(less(g, own["min"], a) is False and right(a, "min") for a in candidates(g))
            hi = any(less(g, a, own["max"]) is False and right(a, "max") for a in candidates(g))
            rep.check(lo and hi, "floats", "unused", loc(o), "the bounds of the filter are not applied")
            rep.check(truth(g, nan) is False, "floats", "nan", loc(o), "nan is still generated although no comparison is true of it")
        remains(rep, "floats", o, g, v, PR, made, C)
    rep.check(infs == set(own.values()), "floats", "isinf", f.loc, "floats().filter(math.isinf) does not look at both bounds")


def subs(t):
    out = [t]
    for x in t if isinstance(t, tuple) else ():
        if isinstance(x, tuple):
            out += subs(x)
    return out


def check_lists_filter(rep):
    """lists().filter (also text and binary): conditions on the length"""
    C = ST + "collections.ListStrategy."
    f, outs = meth(rep, C + "filter")
    B, PR = bounds_of("get_integer_predicate_bounds")
    own = {"min": sa("min_size"), "max": sa("max_size")}
    n = 0
    for o, g, v, labs in outs:
        if v is None:
            rep.check(o.type == "builtins.AssertionError" and less(g, sa("max_size"), const(1)) is True, "lists", "refusal", loc(o), f"lists().filter raises {o.type}")
            continue
        sets = {l[1][2]: l for l in labs if l[0] == "set"}
        rep.check(not any(l[1][1] == SELF for l in sets.values()), "lists", "pure", loc(o), "filtering changes the strategy itself")
        copied = is_call(v, "copy", "copy_") or keeps(v, COND) and any_sub(v, lambda z: is_call(z, "copy")) or keeps(v, PR) and any_sub(v, lambda z: is_call(z, "copy"))
        nonempty = any(b and (k[0] == "cmp" and k[1] == "in" and k[2] == COND and k[3] == sa("_nonempty_filters") or is_call(k, "is_identity_function") and k[2] == (COND,)) for k, b in g.items())
        if nonempty and not (keeps(v, COND) or keeps(v, PR)):
            if v == SELF:
                rep.check(less(g, own["min"], const(1)) is False, "lists", "nonempty", loc(o), "a condition that needs a non-empty list is dropped")
            else:
                t = sets.get("min_size")
                ok = copied and t is not None and (t[2] == const(1) and less(g, own["min"], const(1)) is True or is_call(t[2], "max") and set(t[2][2]) == {const(1), own["min"]})
                rep.check(ok and "max_size" not in sets, "lists", "nonempty", loc(o), f"a condition that needs a non-empty list becomes min_size={show(t[2]) if t else None}")
            continue
        if not copied:
            rep.check(keeps(v, COND), "lists", "remaining", loc(o), f"a condition that is not rewritten is dropped: {show(v)[:80]}")
            continue
        n += 1
        rep.check(flag(g, B, "len") is True or truth(g, call_(at(B, "get"), const("len"))) is True, "lists", "len", loc(o), "a bound on the value is used as a bound on the length")
        for s in ("min", "max"):
            K = s + "_value"
            t = sets.get(s + "_size")
            c = {call_(at(B, "get"), const(K), own[s])} | ({sub(B, K)} if has(g, K, B) is True else set())
            ok = t is not None and any(tightest(t[2], s, a, b, g) for x in c for a, b in ((own[s], x), (x, own[s]))) or has(g, K, B) is False and (t is None or t[2] == own[s])
            rep.check(ok, "lists", f"{s}:bound", loc(o), f"the filtered list has {s}_size={show(t[2])[:80] if t else 'unchanged'}")
        lo, hi = (sets[k][2] if k in sets else sa(k) for k in ("min_size", "max_size"))
        rep.check(less(g, hi, lo) is False, "lists", "order", loc(o), "the filtered list may have min_size > max_size")
        a = sets.get("average_size")
        rep.check(a is not None and any_sub(a[2], lambda z: z == hi or z[0] == "a" and z[2] == "max_size" and is_call(z[1], "copy")), "lists", "average", loc(o), "the average size is not adjusted to the new bounds")
        if is_call(v, "copy"):
            rep.check(eq(g, PR, NONE) is True, "lists", "remaining", loc(o), "the part of the condition that was not turned into bounds is dropped")
    rep.check(n > 0, "lists", "paths", f.loc, "bounds on the length are no longer used")


DATE_OPS = {"lt": ("min", 1), "le": ("min", 0), "eq": ("both", 0), "ge": ("max", 0), "gt": ("max", -1)}


def choose(t, fn, op):
    """evaluate lookups of the function of the partial in literal tables"""
    if not isinstance(t, tuple):
        return t
    def hit(d, default=None):
        for k, v in d[1]:
            if k[0] == "g" and last(k) == op and k[1].split(".")[0] in ("operator", "_operator"):
                return choose(v, fn, op)
        return choose(default, fn, op) if default is not None else ("missing",)
    if t[:1] == ("sub",) and t[1][:1] == ("dict",) and t[2] == fn:
        return hit(t[1])
    if t[:1] == ("call",) and t[1][:1] == ("a",) and t[1][2] == "get" and t[1][1][:1] == ("dict",) and t[2][:1] == (fn,):
        return hit(t[1][1], t[2][1] if len(t[2]) > 1 else NONE)
    r = tuple(choose(x, fn, op) for x in t)
    if r[:1] == ("sub",) and len(r) == 3 and r[1][:1] == ("tuple",) and r[2][0] == "c" and isinstance(r[2][2], int) and r[2][2] < len(r[1][1]):
        return r[1][1][r[2][2]]
    return r


def check_dates_filter(rep):
    """dates().filter: partials of comparison operators"""
    C = ST + "datetime.DateStrategy."
    ops = tuple(DATE_OPS)
    f = rep.func(C + "filter")
    fn = at(COND, "func")
    arg0 = sub(at(COND, "args"), 0)
    own = {"min": sa("min_value"), "max": sa("max_value")}
    n = 0
    import sa.absint as A
    old, A.size = A.size, lambda t, cap=200: 0  # large tables stay visible
    try:
        _, outs = meth(rep, C + "filter")
    finally:
        A.size = old
    for o, g, v, labs in outs:
        if v is None:
            rep.check(False, "dates", "refusal", loc(o), f"dates().filter raises {o.type}")
            continue
        if keeps(v, COND):
            continue
        ok = inst(g, COND, "partial") is True and truth(g, at(COND, "keywords")) is False and eq(g, ln(at(COND, "args")), const(1)) is True and inst(g, arg0, "date", "datetime") is True
        rep.check(ok, "dates", "shape", loc(o), "a condition other than op(date, x) is rewritten")
        cand = None
        for k, b in g.items():
            if b and k[0] == "cmp" and k[1] == "in" and k[2] == fn and k[3][0] in ("tuple", "list", "set", "dict"):
                ks = [x[0] for x in k[3][1]] if k[3][0] == "dict" else k[3][1]
                cand = [last(x) for x in ks]
            if b and k[0] == "cmp" and k[1] in ("==", "is") and fn in k[2:4]:
                cand = [last(x) for x in k[2:4] if x != fn]
        if not rep.check(cand is not None and set(cand) <= set(ops), "dates", "operators", loc(o), f"the operators rewritten are {cand}"):
            continue
        for op in cand:
            n += 1
            side, shift = DATE_OPS[op]

            def moved(t):
                d = 0
                while t[0] == "bin" and t[1] in "+-":
                    y = t[3]
                    if not is_call(y, "timedelta"):
                        return None
                    x = kw_of(y, "days", 0)
                    if x is None:
                        x = const(0)
                    x = x[2] if x[0] == "c" else -x[2][2] if x[0] == "un" else None
                    if x is None or len(y[2]) + len(y[3]) > 1:
                        return None
                    d += x if t[1] == "+" else -x
                    t = t[2]
                return d if t == arg0 else None

            def right(t, s):
                t = choose(t, fn, op)
                if side not in (s, "both"):
                    return t == own[s] or is_call(t, "max" if s == "min" else "min") and set(t[2]) == {own[s]}
                if not is_call(t, "max" if s == "min" else "min"):
                    return False
                rest = [a for a in t[2] if a != own[s]]
                return own[s] in t[2] and len(rest) == 1 and moved(rest[0]) == shift
            if is_call(v, "nothing"):
                rep.check(any(less(g, h, l) is True and right(l, "min") and right(h, "max") for l in candidates(g) for h in candidates(g)), "dates", f"{op}:empty", loc(o), "the filter is taken to be unsatisfiable although its bounds allow a value")
            elif v == SELF:
                lo = any(right(a, "min") and less(g, own["min"], a) is False for a in candidates(g))
                hi = any(right(a, "max") and less(g, a, own["max"]) is False for a in candidates(g))
                rep.check(lo and hi, "dates", f"{op}:unused", loc(o), f"dates().filter(partial({op}, d)) changes nothing")
            else:
                lo, hi = kw_of(v, "min_value", 0), kw_of(v, "max_value", 1)
                rep.check(is_call(v, "dates", "DateStrategy") and lo is not None and hi is not None and right(lo, "min") and right(hi, "max"), "dates", f"{op}:bounds", loc(o), f"dates().filter(partial({op}, d)) becomes {show(choose(v, fn, op))[:160]}")
    rep.check(n > 0, "dates", "paths", f.loc, "filters on dates are no longer rewritten")
    # moving past the calendar
    outs = rep.trace(f, lambda k, t, x: "caught" if k == "catch" else None, lambda a: True, extracted, True, raises=lambda c: ("builtins.OverflowError",) if is_call(c, "timedelta") else ())
    for o in outs:
        if o.kind == "raise":
            rep.check(o.type != "builtins.OverflowError", "dates", "calendar", loc(o), "a bound at the end of the calendar makes .filter() fail")
        elif "caught" in o.state.auto:
            rep.check(is_call(dm(o.value), "nothing") or keeps(dm(o.value), COND), "dates", "calendar", loc(o), "a bound beyond the calendar is ignored")


# methods of str and bytes that are true for every non-empty string, and those false for the empty one
ALWAYS = {"bool", "len", "tuple", "list", "str", "bytes", "capitalize", "casefold", "encode", "decode", "expandtabs", "join", "lower", "splitlines", "swapcase", "title", "upper"}
FALSE_WHEN_EMPTY = ALWAYS | {"isalnum", "isalpha", "isdecimal", "isdigit", "isidentifier", "islower", "isnumeric", "isspace", "istitle", "isupper", "lstrip", "rstrip", "strip", "split", "rsplit"}


def names_in(rep, cls, attr):
    """the functions listed in a class-level tuple, through spreads of other lists and of getattr(…, n) for n in names"""
    import ast
    out = set()
    c = rep.p.classes.get(cls)

    def go(e, mod, c):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            for x in e.elts:
                go(x, mod, c)
        elif isinstance(e, ast.Starred):
            go(e.value, mod, c)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("tuple", "list", "set", "frozenset") and e.args:
            go(e.args[0], mod, c)
        elif isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            it = e.generators[0].iter
            if isinstance(it, ast.Name):
                d = mod.assigns.get(it.id) if hasattr(mod, "assigns") else None
                d = d or next((n.value for n in mod.tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in n.targets)), None)
                it = d
            if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
                out.update(x.value for x in it.elts if isinstance(x, ast.Constant))
            else:
                out.add("?")
        elif isinstance(e, ast.Attribute) and e.attr.startswith("_"):
            fq = rep.p.resolve_expr_fq(mod, e.value)
            go_class(rep.p.classes.get(fq), e.attr)
        elif isinstance(e, ast.Attribute):
            out.add(e.attr)
        elif isinstance(e, ast.Name):
            d = next((n.value for n in mod.tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)), None)
            if isinstance(d, (ast.Tuple, ast.List, ast.Set)):
                go(d, mod, c)
            else:
                out.add(e.id)
        elif isinstance(e, ast.BinOp):
            go(e.left, mod, c)
            go(e.right, mod, c)
        else:
            out.add("?")

    def go_class(c, attr):
        if c is None:
            out.add("?")
            return
        for n in c.node.body:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value else []
            if any(isinstance(t, ast.Name) and t.id == attr for t in ts):
                go(n.value, c.module, c)
                return
        out.add("?")
    go_class(c, attr)
    return out


def named(k, b):
    """whether a condition on the name of a method obtained by that name may hold"""
    if k[0] == "cmp" and k[1] in ("==", "in"):
        for x, y in ((k[2], k[3]), (k[3], k[2])):
            if x[0] == "a" and x[2] == "__name__" and x[1][0] == "a" and x[1][1] not in (SELF,):
                if k[1] == "==" and y[0] == "c":
                    return (y[2] == x[1][2]) is b
                if k[1] == "in" and x == k[2] and y[0] in ("tuple", "list", "set"):
                    return any(z == const(x[1][2]) for z in y[1]) is b
    return None


def check_strings_filter(rep):
    """text().filter and binary().filter: string methods and patterns"""
    S = ST + "strings."
    for cls in ("TextStrategy", "BytesStrategy"):
        c = rep.p.classes.get(S + cls)
        if not rep.check(c is not None, "strings", cls, S, f"{cls} is gone"):
            continue
        l = f"{c.module.rel if hasattr(c.module, 'rel') else c.module.name}:{c.node.lineno}"
        extra = names_in(rep, S + cls, "_nonempty_filters") - ALWAYS
        rep.check(not extra, "strings", f"{cls}:always", l, f"{', '.join(sorted(extra))} may be false for a non-empty string, but filtering by it only excludes the empty one")
        extra = names_in(rep, S + cls, "_nonempty_and_content_filters") - FALSE_WHEN_EMPTY
        rep.check(not extra, "strings", f"{cls}:nonempty", l, f"{', '.join(sorted(extra))} may be true for the empty string, but filtering by it excludes that")
    extra = names_in(rep, ST + "collections.ListStrategy", "_nonempty_filters") - {"bool", "len", "tuple", "list"}
    rep.check(not extra, "strings", "ListStrategy:always", ST, f"{', '.join(sorted(extra))} may be false for a non-empty list")
    RW = S + "_string_filter_rewrite"
    pat = call_("builtins.getattr", COND, const("__self__"), NONE)
    name = at(COND, "__name__")
    f, outs = meth(rep, RW)
    n = 0
    for o, g, v, labs in outs:
        if v is None:
            rep.check(False, "strings", "refusal", loc(o), f".filter raises {o.type}")
            continue
        if v == NONE:
            continue
        if any(named(k, b) is False for k, b in g.items()):
            continue
        sets = {l[1][2]: l for l in labs if l[0] == "set"}
        kind = inst(g, pat, "Pattern")
        if keeps(v, COND) and not any_sub(v, lambda z: is_call(z, "regex_strategy")):
            for a, l in sets.items():
                ok = a == "min_size" and l[1][1] != SELF and is_call(l[2], "max") and set(l[2][2]) in ({const(1), sa("min_size")}, {const(1), at(l[1][1], "min_size")})
                rep.check(ok, "strings", "content", loc(o), f"filtering by a string method sets {a} to {show(l[2])[:60]}")
            if sets:
                rep.check(any(b and k[0] == "cmp" and k[1] == "in" and k[2] == COND and k[3] == sa("_nonempty_and_content_filters") for k, b in g.items()), "strings", "content", loc(o), "the empty string is excluded by a condition that may accept it")
                rep.check(less(g, sa("max_size"), const(1)) is False, "strings", "content-empty", loc(o), "min_size may come to exceed max_size")
            continue
        names = {k[3][2] if k[2] == name else k[2][2] for k, b in g.items() if b and k[0] == "cmp" and k[1] == "==" and name in k[2:4] and "c" in (k[2][0], k[3][0])}
        for k, b in g.items():
            if b and k[0] == "cmp" and k[1] == "in" and k[2] == name and k[3][0] in ("tuple", "list", "set"):
                names |= {x[2] for x in k[3][1]}
        rep.check(kind is True and any(is_call(k, "isinstance") and b and k[2][0] == at(pat, "pattern") for k, b in g.items()), "strings", "pattern", loc(o), "something other than a method of a pattern of the right kind is read as one")
        if v == SELF:
            rep.check(bool(names) and names <= {"finditer", "scanner", "split"}, "strings", "any", loc(o), f"{names or 'some method'} of a pattern is dropped as if it accepted any string")
            continue
        n += 1
        r = next((z for z in subs(v) if is_call(z, "regex_strategy")), None)
        if not rep.check(r is not None, "strings", "pattern", loc(o), f"a method of a pattern becomes {show(v)[:80]}"):
            continue
        used = r[2][0] if r[2] else kw_of(r, "regex")
        full = kw_of(r, "fullmatch", 1)
        if used == pat:
            rep.check(bool(names) and names <= {"search", "findall", "fullmatch"}, "strings", "search", loc(o), f"{names or 'some method'} of a pattern is read as a search")
            if full in (TRUE, FALSE):
                rep.check((full == TRUE) == (names == {"fullmatch"}), "strings", "fullmatch", loc(o), "a search is read as a full match, or the reverse")
            else:
                rep.check(full in (("cmp", "==", name, const("fullmatch")), ("cmp", "==", const("fullmatch"), name)), "strings", "fullmatch", loc(o), f"a full match is asked for when {show(full)[:60] if full else None}")
        else:
            ok = is_call(used, "compile") and "match" in names
            rep.check(ok, "strings", "match", loc(o), f"a pattern is replaced by {show(used)[:80]}")
            if ok:
                consts = [z[2] for z in subs(used[2][0]) if z[:1] == ("c",) and len(z) == 3 and isinstance(z[2], (str, bytes))]
                anchors = [c for c in consts if (c if isinstance(c, str) else c.decode()).startswith(("\\A", "^"))]
                multi = any(b is False and any_sub(k, lambda z: last(z) in ("MULTILINE", "M") if z[:1] in (("g",), ("a",)) else False) for k, b in g.items())
                rep.check(bool(anchors) and all((c if isinstance(c, str) else c.decode()).startswith("\\A") or multi for c in anchors), "strings", "match-anchor", loc(o), "match is read as a search that, in multi-line mode, may begin at any line")
                verb = [b for k, b in g.items() if any_sub(k, lambda z: z[:1] in (("g",), ("a",)) and last(z) in ("VERBOSE", "X"))]
                closes = [c if isinstance(c, str) else c.decode() for c in consts]
                rep.check(any(c == "\n)" for c in closes) or verb == [False], "strings", "match-verbose", loc(o), "in verbose mode, the pattern may end with a comment that swallows the closing parenthesis")
                fl = kw_of(used, "flags", 1)
                rep.check(fl == at(pat, "flags"), "strings", "match-flags", loc(o), "the flags of the pattern are lost")
                if full in (TRUE, FALSE):
                    rep.check(full == FALSE, "strings", "match-full", loc(o), "match is read as a full match")
        for s, fn_ in (("min", "min_len"), ("max", "max_len")):
            own = sa(s + "_size")
            there = any(is_call(z, "partial") and z[2][:1] == (("g", FI + fn_),) and z[2][1:] == (own,) for z in subs(v))
            unbounded = less(g, const(0), own) is False if s == "min" else any(k[0] == "cmp" and k[1] == "<" and k[2] == own and is_inf(k[3], 1) and not b for k, b in g.items()) or eq_inf(g, own, 1) is True
            rep.check(there or unbounded, "strings", f"pattern:{s}_size", loc(o), f"{s}_size is dropped when filtering by a pattern")
        al = kw_of(r, "alphabet")
        text = eq(g, P("kind"), ("g", "builtins.str"))
        rep.check(al is not None and (al == sa("element_strategy") or text is False and al == NONE), "strings", "alphabet", loc(o), "the alphabet is dropped when filtering by a pattern")
    rep.check(n > 0, "strings", "paths", f.loc, "methods of patterns are no longer rewritten")
    outs = rep.trace(f, None, lambda a: True, extracted, True, raises=lambda c: ("re.error",) if is_call(c, "compile") else (), max_states=3000)
    for o in outs:
        if o.kind == "raise" and o.type == "re.error":
            rep.check(False, "strings", "match-inline", loc(o), "a pattern with inline flags makes .filter() fail")
    # the callers
    for cls in ("TextStrategy", "BytesStrategy"):
        f, outs = meth(rep, S + cls + ".filter")
        for o, g, v, labs in outs:
            if v is None or is_call(v, "_string_filter_rewrite"):
                continue
            if keeps(v, COND):
                continue
            ident = special(g, COND, {"builtins.str.isidentifier": 1, "str.isidentifier": 1})
            if not rep.check(ident is not None, "strings", f"{cls}:remaining", loc(o), f"a condition that is not rewritten is dropped: {show(v)[:80]}"):
                continue
            rep.check(less(g, sa("max_size"), const(1)) is False, "strings", "identifier", loc(o), "identifiers are generated where only the empty string is allowed")
            if is_call(v, "nothing"):
                ok = any(b is False and k[0] == "bin" and k[1] == "&" for k, b in g.items())
                rep.check(ok, "strings", "identifier", loc(o), "no identifiers are generated although the alphabet allows one")
                continue
            b = v[1][1] if is_call(v, "filter") else v
            ok = keeps(v, ("g", "builtins.str.isidentifier")) or keeps(v, COND)
            rep.check(ok, "strings", "identifier-checked", loc(o), "the generated identifier is not checked")
            t = next((z for z in subs(b) if is_call(z, "TextStrategy")), None)
            rep.check(t is not None and kw_of(t, "max_size", 2) == ("bin", "-", sa("max_size"), const(1)), "strings", "identifier:max_size", loc(o), "the size of an identifier is not bounded by max_size")
            m = kw_of(t, "min_size", 1) if t else None
            rep.check(m is not None and (is_call(m, "max") and set(m[2]) == {const(0), ("bin", "-", sa("min_size"), const(1))}), "strings", "identifier:min_size", loc(o), "the size of an identifier is not bounded by min_size")
            if t:
                chars = [z for z in subs(b) if is_call(z, "OneCharStringStrategy")]
                rep.check(len(chars) >= 2 and all(z[2] and z[2][0][0] == "bin" and z[2][0][1] == "&" and any(y[0] == "a" and y[2] == "intervals" for y in z[2][0][2:4]) for z in chars), "strings", "identifier:alphabet", loc(o), "identifiers are not limited to the alphabet")


def check_others(rep):
    """every other filter method keeps the condition; the known ones keep it in the right place"""
    known = {ST + n for n in ("numbers.IntegersStrategy.filter", "numbers.FloatStrategy.filter", "collections.ListStrategy.filter", "datetime.DateStrategy.filter", "strings.TextStrategy.filter", "strings.BytesStrategy.filter")}
    for fq, f in sorted(rep.p.functions.items()):
        if f.name != "filter" or f.cls is None or fq in known or "SearchStrategy" not in " ".join(ancestors(rep, f.cls)):
            continue
        _, outs = meth(rep, fq)
        n = f.cls.name
        for o, g, v, labs in outs:
            if v is None:
                rep.check(o.type.startswith("hypothesis.errors.") or o.type == "builtins.AssertionError" or n == "DataStrategy", "kept", n, loc(o), f".filter raises {o.type}")
                continue
            inner = call_(at(sa("filtered_strategy"), "filter"), COND)
            if n == "FilteredStrategy":
                fc = sa("flat_conditions")
                was = inst(g, inner, "FilteredStrategy")
                ok = is_call(v, "FilteredStrategy")
                st, cs = (kw_of(v, "strategy", 0), kw_of(v, "conditions", 1)) if ok else (None, None)
                if was is True and ok:
                    parts = flat(cs)
                    ok = st == at(inner, "filtered_strategy") and parts is not None and set(parts) == {fc, at(inner, "flat_conditions")}
                else:
                    ok = ok and (st == inner and cs == fc or st == sa("filtered_strategy") and flat(cs) is not None and set(flat(cs)) >= {fc, COND})
                rep.check(ok, "kept", n, loc(o), f"filtering a filtered strategy loses a condition: {show(v)[:120]}")
            elif n == "OneOfStrategy":
                c = next((z for z in subs(v) if z[:1] == ("comp",)), None)
                o1 = next((z for z in subs(v) if is_call(z, "OneOfStrategy", "one_of")), None)
                each = c and nosite(("call", at(("elem", sa("original_strategies")), "filter"), (COND,), (), 0))
                ok = bool(o1) and bool(c) and c[2] == each and c[3] == (sa("original_strategies"),) and not c[4] or any_sub(v, lambda z: is_call(z, "FilteredStrategy") and any_sub(z, lambda y: y == ("tuple", (COND,))))
                rep.check(ok, "kept", n, loc(o), f"filtering does not reach every branch: {show(v)[:120]}")
            elif n == "NothingStrategy" or n == "Nothing":
                rep.check(v == SELF or keeps(v, COND), "kept", n, loc(o), "filtering nothing() gives something")
            elif n == "SampledFromStrategy":
                ok = any_sub(v, lambda z: z[:1] == ("tuple",) and z[1] == (const("filter"), COND)) and any_sub(v, lambda z: z[:1] == ("star",) and z[1] == sa("_transformations") or z[:1] == ("bin",) and sa("_transformations") in z[2:4])
                rep.check(ok and any_sub(v, lambda z: z == sa("elements")), "kept", n, loc(o), f"the condition or an earlier transformation is lost: {show(v)[:120]}")
            elif n == "LazyStrategy":
                rep.check(v[0] == "call" and v[2] == (const("filter"), COND), "kept", n, loc(o), f"the condition is not recorded: {show(v)[:100]}")
            else:
                ok = any_sub(v, lambda z: is_call(z, "FilteredStrategy") and any_sub(z, lambda y: y[:1] == ("tuple",) and COND in y[1])) or keeps(v, COND)
                rep.check(ok, "kept", n, loc(o), f"the condition is not kept: {show(v)[:120]}")


def flat(t):
    """the parts of a concatenation of tuples"""
    if t is None:
        return None
    if t[0] == "bin" and t[1] == "+":
        a, b = flat(t[2]), flat(t[3])
        return a + b if a is not None and b is not None else None
    if t[0] == "tuple":
        return tuple(x[1] if x[0] == "star" else x for x in t[1])
    return (t,)


def ancestors(rep, c, seen=None):
    seen = seen if seen is not None else set()
    if c.fq in seen:
        return seen
    seen.add(c.fq)
    for b in c.node.bases:
        while hasattr(b, "slice"):
            b = b.value
        fq = rep.p.resolve_expr_fq(c.module, b)
        if fq:
            seen.add(fq) if fq not in rep.p.classes else ancestors(rep, rep.p.classes[fq], seen)
    return seen


CHECKS = {}


def run_s02(rep):
    """Rules over paths."""
    for part in (check_comparison, check_expression, check_merge, check_partial, check_integer, check_float, check_integers_filter, check_floats_filter, check_lists_filter, check_dates_filter, check_strings_filter, check_others):
        rep.part(part)


CHECKS["S02"] = run_s02
