"""The typed choice sequence: C01 (choice kinds), C02 (permitted values), C03 (finished test cases),
C04 (balanced spans), C05 (the tree of tried test cases), C06 (caches)."""
from __future__ import annotations

import ast
import functools

from .. import absint
from ..lib import *

CH = "hypothesis.internal.conjecture.choice."
DA = "hypothesis.internal.conjecture.data."
CD = DA + "ConjectureData."
DT = "hypothesis.internal.conjecture.datatree."
PR = "hypothesis.internal.conjecture.providers."
EN = "hypothesis.internal.conjecture.engine."
SHR = "hypothesis.internal.conjecture.shrinker."
KINDS = ["integer", "float", "boolean", "string", "bytes"]
PYTYPE = {"integer": "int", "float": "float", "boolean": "bool", "string": "str", "bytes": "bytes"}
KINDOF = {v: k for k, v in PYTYPE.items()}
FIELDS = {"integer": {"min_value", "max_value", "weights", "shrink_towards"}, "float": {"min_value", "max_value", "allow_nan", "smallest_nonzero_magnitude"},
          "string": {"intervals", "min_size", "max_size"}, "bytes": {"min_size", "max_size"}, "boolean": {"p"}}
P = lambda n: ("p", n)  # noqa


def C(name, base="constraints"):
    return ("sub", P(base), const(name))


def kind_val(a, kind):
    """truth of a kind test for a choice of this kind; None when the atom is not a kind test"""
    py = PYTYPE[kind]

    def inst(names):
        return py in names or (py == "bool" and "int" in names)

    if is_call(a, "isinstance") and len(a[2]) == 2:
        t = a[2][1]
        ts = t[1] if t[0] == "tuple" else (t,)
        names = {last(x) for x in ts}
        return inst(names) if names <= set(KINDOF) else None
    if a[0] == "cmp" and a[1] in ("==", "is"):
        for l, r in ((a[2], a[3]), (a[3], a[2])):
            if is_call(l, "type") and r[0] == "g" and last(r) in KINDOF:
                return last(r) == py
            if r[0] == "c" and r[2] in KINDS and (last(l) in ("choice_type", "type", "node_type") or l[0] in ("p", "a")):
                return r[2] == kind
    if a[0] == "cmp" and a[1] == "in" and a[3][0] in ("set", "tuple", "list") and a[3][1] and all(x[0] == "c" and x[2] in KINDS for x in a[3][1]):
        return kind in {x[2] for x in a[3][1]}
    return None


def of_kind(outs, kind):
    return [o for o in outs if all(kind_val(a, kind) in (None, v) for a, v in o.state.guards)]


def lt(a, b):
    """canonical form of the integer comparison a < b"""
    return frozen(poly(("bin", "-", a, b)))


def ltkey(atom):
    return lt(atom[2], atom[3]) if atom[0] == "cmp" and atom[1] == "<" else None


def isnone(field):
    t = ("cmp", "is", C(field), NONE)
    return t


def replace(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) if isinstance(x, tuple) else x for x in t)
    return t


def clamp_forms(minN, maxN):
    """the shrink target, moved into the permitted range"""
    s, lo, hi = C("shrink_towards"), C("min_value"), C("max_value")
    call = lambda n, a, b: ("call", ("g", "builtins." + n), (a, b), (), 0)  # noqa
    two = lambda n, a, b: [call(n, a, b), call(n, b, a)]  # noqa
    if minN and maxN:
        return [s]
    if maxN:
        return two("max", lo, s)
    if minN:
        return two("min", hi, s)
    return [x for y in two("max", lo, s) for x in two("min", hi, y)] + [x for y in two("min", hi, s) for x in two("max", lo, y)]


def check_integer_index(rep, fname, var):
    f = rep.func(CH + fname)
    outs = of_kind([o for o in rep.trace(f, None, lambda a: True, same_module_helper) if o.kind == "return"], "integer")
    X, T = P(var), P("T")
    lo, hi = C("min_value"), C("max_value")
    seen = set()
    for o in outs:
        g = {nosite(a): v for a, v in o.state.guards}
        minN, maxN = g.get(isnone("min_value")), g.get(isnone("max_value"))
        if minN is None or maxN is None:
            rep.check(False, "index-case", f"{fname}:integer", loc(o), "the index of an integer is computed without looking at both bounds")
            continue
        forms = clamp_forms(minN, maxN)

        def norm(t):
            t = nosite(t)
            for fm in forms:
                t = replace(t, fm, T)
            return t

        zz = "zigzag_index" if var == "choice" else "zigzag_value"
        v = norm(o.value)
        if is_call(v, zz):
            args = {"value": arg(v, 0, "value" if var == "choice" else "index"), "st": arg(v, 1, "shrink_towards")}
            got = "zigzag" if args == {"value": X, "st": T} else None
        else:
            pv = frozen(poly(v))
            up = ("bin", "-", X, lo) if var == "choice" else ("bin", "+", X, lo)
            got = "up" if pv == frozen(poly(up)) else "down" if pv == frozen(poly(("bin", "-", hi, X))) else None
        rep.check(got is not None, "index-form", f"{fname}:integer", loc(o), f"{fname} of an integer gives {show(o.value)}, which is neither the zigzag order around the shrink target nor the distance from a bound")
        if got is None:
            continue
        cmps = {ltkey(norm(a)): w for a, w in g.items() if a[0] == "cmp" and a[1] == "<"}
        d = lambda bound, first: ("bin", "-", T, bound) if first else ("bin", "-", bound, T)  # noqa
        if var == "choice":
            out_lo = lt(d(lo, True), ("call", ("g", "builtins.abs"), (("bin", "-", X, T),), (), 0))
            out_hi = lt(d(hi, False), ("call", ("g", "builtins.abs"), (("bin", "-", X, T),), (), 0))
        else:
            zi = lambda b: ("call", ("g", CH + "zigzag_index"), (b,), (("shrink_towards", T),), 0)  # noqa
            out_lo, out_hi = lt(zi(lo), X), lt(zi(hi), X)
        side = lt(d(lo, True), d(hi, False))  # nearer to the lower bound
        side2 = lt(d(hi, False), d(lo, True))
        near_lo = cmps.get(side) if side in cmps else (not cmps[side2] if side2 in cmps else None)
        if minN and maxN:
            ok = got == "zigzag"
        else:
            which = "lo" if maxN else "hi" if minN else {True: "lo", False: "hi", None: None}[near_lo]
            if which is None:
                ok = False
            else:
                far = cmps.get(out_lo if which == "lo" else out_hi)
                ok = far is not None and got == ({"lo": "up", "hi": "down"}[which] if far else "zigzag")
        seen.add((minN, maxN, got))
        rep.check(ok, "index-regime", f"{fname}:integer:{'-' if minN else 'min'},{'-' if maxN else 'max'}", loc(o),
                  f"{fname} uses the {got} rule under conditions where its inverse uses another: " + "; ".join(("" if w else "not ") + show(norm(a)) for a, w in g.items() if a[0] == "cmp" and a[1] == "<"))
    want = {(True, True, "zigzag"), (False, True, "zigzag"), (False, True, "up"), (True, False, "zigzag"), (True, False, "down"),
            (False, False, "zigzag"), (False, False, "up"), (False, False, "down")}
    for w in sorted(want):
        rep.check(w in seen, "index-regimes", f"{fname}:integer:{w}", f.loc, f"{fname} has no {w[2]} case for min_value {'unset' if w[0] else 'set'} and max_value {'unset' if w[1] else 'set'}")


def same_module_helper(g, call, root):
    return g.module is root.module and g.fq not in absint.BASELINE


def check_permitted(rep):
    f = rep.func(CH + "choice_permitted")
    outs = rep.trace(f, None, lambda a: True, same_module_helper)
    x = P("choice")
    ln = ("call", ("g", "builtins.len"), (x,), (), 0)
    cmp_ = lambda op, a, b: norm_atom(("cmp", op, a, b))  # noqa

    def namer(table_):
        def names(a):
            a = nosite(a)
            for nm, at in table_.items():
                for one in at if isinstance(at, list) else [at]:
                    if isinstance(one, tuple) and len(one) == 2 and isinstance(one[1], bool) and isinstance(one[0], tuple):
                        if one[0] == a:
                            return nm, one[1]
                    elif callable(one) and one(a):
                        return nm, True
            return None
        return names

    ab = ("call", ("g", "builtins.abs"), (x,), (), 0)
    lte = lambda a, l, r: is_call(a, "sign_aware_lte") and a[2][:2] == (l, r)  # noqa
    member = lambda a: is_call(a, "all") and a[2] and a[2][0][0] == "comp" and a[2][0][3] == (x,) and not a[2][0][4] and a[2][0][2][0] == "cmp" and a[2][0][2][1] == "in" and a[2][0][2][3] == C("intervals") and is_call(a[2][0][2][2], "ord")  # noqa
    spec = {
        "integer": ({"minN": (isnone("min_value"), True), "maxN": (isnone("max_value"), True), "lo": cmp_("<", x, C("min_value")), "hi": cmp_(">", x, C("max_value"))},
                    lambda a: (a["minN"] or not a["lo"]) and (a["maxN"] or not a["hi"]), lambda a: True),
        "float": ({"nan": lambda a: is_call(a, "isnan") and a[2] == (x,), "allow": (C("allow_nan"), True), "nz": [cmp_("<", const(0), ab), (("cmp", "==", x, const(0)), False), (("cmp", "==", x, const(0.0)), False), (x, True)],
                   "sub": cmp_("<", ab, C("smallest_nonzero_magnitude")), "lo": lambda a: lte(a, C("min_value"), x), "hi": lambda a: lte(a, x, C("max_value"))},
                  lambda a: a["allow"] if a["nan"] else not (a["nz"] and a["sub"]) and a["lo"] and a["hi"], lambda a: True),
        "string": ({"maxN": (isnone("max_size"), True), "short": cmp_("<", ln, C("min_size")), "long": cmp_(">", ln, C("max_size")), "chars": member},
                   lambda a: not a["short"] and (a["maxN"] or not a["long"]) and a["chars"], lambda a: True),
        "bytes": ({"maxN": (isnone("max_size"), True), "short": cmp_("<", ln, C("min_size")), "long": cmp_(">", ln, C("max_size"))},
                  lambda a: not a["short"] and (a["maxN"] or not a["long"]), lambda a: True),
        "boolean": ({"pos": cmp_("<", const(0), C("p")), "lt1": cmp_("<", C("p"), const(1)), "val": (x, True)},
                    lambda a: (a["pos"] or not a["val"]) and (a["lt1"] or a["val"]), lambda a: a["pos"] or a["lt1"]),
    }
    for kind, (tb, sp, cons) in spec.items():
        sel = of_kind(outs, kind)
        for o in sel:
            rep.check(o.kind == "return", "permitted-total", f"choice_permitted:{kind}", loc(o), f"no rule says which {kind} choices are permitted")
        n = table(rep, sel, list(tb), namer(tb), sp, "permitted", f"choice_permitted:{kind}", cons)
        rep.check(n > 0, "permitted-total", f"choice_permitted:{kind}:paths", f.loc, f"no rule says which {kind} choices are permitted")


def check_keys(rep):
    # the key of a constraint set depends on every field
    f = rep.func(CH + "choice_constraints_key")
    outs = [o for o in rep.trace(f, None, lambda a: True, same_module_helper)]
    for kind in KINDS:
        sel = of_kind(outs, kind)
        rep.check(bool(sel), "constraints-key", f"choice_constraints_key:{kind}", f.loc, "no key")
        for o in sel:
            rep.check(o.kind == "return" and o.value is not None, "constraints-key", f"choice_constraints_key:{kind}", loc(o), f"constraints of {kind} choices have no key")
            if o.kind != "return":
                continue
            whole = any_sub(o.value, lambda y: y[0] == "comp" and y[3] and (is_call(y[3][0], "sorted") or is_call(y[3][0], "items") or y[3][0] == P("constraints") or any_sub(y[3][0], lambda z: z == P("constraints"))) and not y[4])
            used = {y[2][2] for y in subterms(o.value) if y[0] == "sub" and y[1] == P("constraints") and y[2][0] == "c"}
            used |= {a[2][2][2] for a, v in o.state.guards if a[0] == "cmp" and a[1] == "is" and a[3] == NONE and v and a[2][0] == "sub" and a[2][1] == P("constraints") and a[2][2][0] == "c"}
            if whole:
                rep.ok("constraints-key", f"choice_constraints_key:{kind}", loc(o))
            else:
                rep.check(used >= FIELDS[kind], "constraints-key", f"choice_constraints_key:{kind}", loc(o), f"two {kind} choices which differ in {sorted(FIELDS[kind] - used)} have the same key")
            if kind == "float":
                for fl in ("min_value", "max_value"):
                    raw = o.value[0] == "tuple" and any(e == C(fl) for e in o.value[1])
                    rep.check(not raw and not whole, "constraints-key-sign", f"choice_constraints_key:float:{fl}", loc(o), f"float bounds 0.0 and -0.0 have the same key ({fl})")
            if kind == "integer":
                w = [y for y in subterms(o.value) if is_call(y, "tuple", "list", "sorted", "frozenset", "set") and any_sub(y, lambda z: z == C("weights"))]
                g = dict(o.state.guards)
                if not g.get(isnone("weights")):
                    full = any_sub(o.value, lambda y: is_call(y, "items") and y[1][0] == "a" and y[1][1] == C("weights")) or not w
                    rep.check(full, "constraints-key-weights", "choice_constraints_key:integer:weights", loc(o), "integer choices over the same values with different weights have the same key")
    # equality of values distinguishes what == does not
    f = rep.func(CH + "choice_key")
    for o in rep.trace(f, None, lambda a: True, same_module_helper):
        for kind in KINDS:
            if o not in of_kind([o], kind):
                continue
            v = o.value
            if kind == "float":
                rep.check(v[0] == "tuple" and any_sub(v, lambda y: is_call(y, "float_to_int")) and any(x[0] == "c" and isinstance(x[2], str) for x in v[1]), "choice-key", "choice_key:float", loc(o), "the key of a float does not distinguish it from an equal integer, from the other zero, or from another nan")
            elif kind == "boolean":
                rep.check(v[0] == "tuple" and any(x[0] == "c" and isinstance(x[2], str) for x in v[1]), "choice-key", "choice_key:boolean", loc(o), "the key of a boolean equals the key of 0 or 1")
            else:
                rep.check(v == P("choice") or v[0] == "tuple" and P("choice") in v[1], "choice-key", f"choice_key:{kind}", loc(o), f"the key of a {kind} choice is {show(v)}")
    f = rep.func(CH + "choice_equal")
    for o in rep.trace(f, None, lambda a: True, same_module_helper):
        if o.kind == "return":
            v = nosite(o.value)
            ok = v[0] == "cmp" and v[1] == "==" and is_call(v[2], "choice_key") and is_call(v[3], "choice_key") and {v[2][2][0], v[3][2][0]} == {P("choice1"), P("choice2")}
            rep.check(ok, "choice-equal", "choice_equal", loc(o), f"choices are compared by {show(v)}, not by their keys")
    f = rep.func(CH + "choice_constraints_equal")
    for o in rep.trace(f, None, lambda a: True, same_module_helper):
        v = nosite(o.value)
        ok = v[0] == "cmp" and v[1] == "==" and all(is_call(s, "choice_constraints_key") and s[2][0] == P("choice_type") for s in v[2:4]) and {v[2][2][1], v[3][2][1]} == {P("constraints1"), P("constraints2")}
        rep.check(ok, "choice-equal", "choice_constraints_equal", loc(o), f"constraints are compared by {show(v)}")
    # node equality and hash use the same ingredients
    f = rep.func(CH + "ChoiceNode.__eq__")
    for o in rep.trace(f, None, lambda a: True, same_module_helper):
        if o.kind != "return" or (o.value[0] == "g"):
            continue
        txt = [nosite(a) for a, v in o.state.guards if v] + [nosite(o.value)]
        neg = o.value == FALSE or any(not v and not is_call(a, "isinstance") for a, v in o.state.guards)
        if neg:
            continue
        need = {"type": lambda y: y[0] == "cmp" and y[2][0] == "a" and y[2][2] == "type", "value": lambda y: is_call(y, "choice_equal"), "constraints": lambda y: is_call(y, "choice_constraints_equal"), "was_forced": lambda y: y[0] == "cmp" and y[2][0] == "a" and y[2][2] == "was_forced"}
        for nm, pr in need.items():
            rep.check(any(pr(y) for y in txt), "node-equal", f"ChoiceNode.__eq__:{nm}", loc(o), f"two choice nodes which differ in {nm} compare equal")


def check_index(rep):
    check_integer_index(rep, "choice_to_index", "choice")
    check_integer_index(rep, "choice_from_index", "index")
    to, fr = rep.func(CH + "choice_to_index"), rep.func(CH + "choice_from_index")
    ots = rep.trace(to, None, lambda a: True, same_module_helper)
    ofs = rep.trace(fr, None, lambda a: True, same_module_helper)
    x, i = P("choice"), P("index")
    tiny = ("bin", "**", const(2), ("c", "int", -64))
    p = C("p")

    def pcase(g):
        """(p certainly 0, p certainly 1) from the path conditions; None = not decided"""
        lo = hi = None
        for a, v in g.items():
            if a[0] != "cmp" or a[1] != "<":
                continue
            l, r = nosite(a[2]), nosite(a[3])
            if r == p and mentions64(l) and l[0] != "bin" or r == p and l[0] == "bin" and l[1] == "**":
                lo = not v
            if l == p:
                hi = not v
        return lo, hi

    def mentions64(t):
        return t[0] in ("bin", "c", "un")

    for o in of_kind(ots, "boolean"):
        if o.kind != "return":
            continue
        lo, hi = pcase(dict(o.state.guards))
        if lo or hi:
            rep.check(o.value == const(0), "index-boolean", "choice_to_index:boolean", loc(o), "a certain boolean does not have index 0")
        else:
            rep.check(is_call(o.value, "int") and o.value[2] == (x,) or o.value == x, "index-boolean", "choice_to_index:boolean", loc(o), f"the index of a boolean is {show(o.value)}")
            rep.check(lo is False and hi is False, "index-boolean", "choice_to_index:boolean:range", loc(o), "a boolean with certain outcome is indexed as if it had two values")
    for o in of_kind(ofs, "boolean"):
        if o.kind != "return":
            continue
        lo, hi = pcase(dict(o.state.guards))
        if lo:
            rep.check(o.value == FALSE, "index-boolean", "choice_from_index:boolean", loc(o), "the only permitted value of a boolean with p=0 is False")
        elif hi:
            rep.check(o.value == TRUE, "index-boolean", "choice_from_index:boolean", loc(o), "the only permitted value of a boolean with p=1 is True")
        else:
            rep.check(is_call(o.value, "bool") and o.value[2] == (i,) or nosite(o.value) in (i, ("cmp", "==", i, const(1))), "index-boolean", "choice_from_index:boolean", loc(o), f"the boolean of an index is {show(o.value)}")
    alpha = {"bytes": frozen({(): 256}), "string": frozen(poly(("call", ("g", "builtins.len"), (C("intervals"),), (), 0)))}
    order = {"bytes": ("identity", "identity"), "string": ("index_from_char_in_shrink_order", "char_in_shrink_order")}
    for kind in ("bytes", "string"):
        for outs, nm, w in ((ots, "collection_index", 0), (ofs, "collection_value", 1)):
            for o in of_kind(outs, kind):
                if o.kind != "return":
                    continue
                cs = [y for y in subterms(o.value) if is_call(y, nm)]
                what = f"{'choice_to_index' if w == 0 else 'choice_from_index'}:{kind}"
                rep.check(len(cs) == 1, "index-collection", what, loc(o), f"the index of {kind} choices does not go through {nm}")
                for y in cs:
                    rep.check(arg(y, 1, "min_size") == C("min_size"), "index-collection", what + ":min_size", loc(o), "the minimal size is not taken off")
                    rep.check(frozen(poly(arg(y, 2, "alphabet_size") or NONE)) == alpha[kind], "index-collection", what + ":alphabet", loc(o), f"the alphabet has size {show(arg(y, 2, 'alphabet_size') or NONE)}")
                    fn = arg(y, 3, "to_order" if w == 0 else "from_order")
                    rep.check(fn is not None and last(fn) == order[kind][w] and (fn[0] != "a" or nosite(fn[1]) == C("intervals")), "index-collection", what + ":order", loc(o), "elements are ordered differently in the two directions")
                    a0 = y[2][0]
                    rep.check((a0 == x or is_call(a0, "list", "tuple") and a0[2] == (x,)) if w == 0 else a0 == i, "index-collection", what + ":arg", loc(o), "not the choice itself")
    for o in of_kind(ots, "float"):
        if o.kind == "return":
            v = nosite(o.value)
            ok = any_sub(v, lambda y: is_call(y, "float_to_lex") and (is_call(y[2][0], "abs") and y[2][0][2] == (x,)))
            sh = [y for y in subterms(v) if y[0] == "bin" and y[1] in ("<<",)]
            ok = ok and len(sh) == 1 and sh[0][3] == const(64) and any_sub(sh[0][2], lambda y: is_call(y, "copysign", "is_negative", "signbit")) and v[0] == "bin" and v[1] in ("|", "+", "^")
            rep.check(ok, "index-float", "choice_to_index:float", loc(o), f"the index of a float is {show(v)[:120]}")
    for o in of_kind(ofs, "float"):
        if o.kind == "return":
            v = nosite(o.value)
            cl = v[1] if v[0] == "call" else NONE
            ok = v[0] == "call" and is_call(cl, "make_float_clamper") and {k: y for k, y in cl[3]} | dict(zip(("min_value", "max_value"), cl[2])) == {n: C(n) for n in FIELDS["float"]}
            rep.check(ok, "index-float", "choice_from_index:float:clamp", loc(o), "a float made from an index is not moved into its own constraints")
            body = v[2][0] if v[0] == "call" and v[2] else NONE
            lx = [y for y in subterms(body) if is_call(y, "lex_to_float")]
            ok = len(lx) == 1 and frozen(poly(lx[0][2][0])) == frozen(poly(("bin", "&", i, ("bin", "-", ("bin", "<<", const(1), const(64)), const(1)))))
            rep.check(ok, "index-float", "choice_from_index:float:bits", loc(o), "the magnitude of a float is not read from the low 64 bits of its index")
            # the sign: negative iff a bit above 64 is set
            g = {nosite(a): w for a, w in o.state.guards}
            bit = g.get(("bin", ">>", i, const(64)))
            if bit is None:
                b2 = [w for a, w in g.items() if a[0] == "cmp" and a[1] == "<" and a[2] == i and frozen(poly(a[3])) == frozen({(): 1 << 64})]
                bit = not b2[0] if b2 else None
            neg = body[0] == "un" and body[1] == "-" or body[0] == "bin" and body[1] == "*" and ("un", "-", const(1)) in body[2:] or any(y == const(-1) for y in subterms(body))
            rep.check(bit is not None and neg == bit, "index-float", "choice_from_index:float:sign", loc(o), "the sign of a float is not the top bit of its index")
    for fn, outs in (("choice_to_index", ots), ("choice_from_index", ofs)):
        for kind in KINDS:
            sel = of_kind(outs, kind)
            rep.check(any(o.kind == "return" for o in sel), "kind-handled", f"{fn}:{kind}", rep.func(CH + fn).loc, f"{fn} does not handle {kind} choices")
            for o in sel:
                rep.check(o.kind == "return" or o.type == "builtins.AssertionError", "kind-handled", f"{fn}:{kind}", loc(o), f"{fn} rejects {kind} choices")
    # the zigzag pair
    zi, zv = rep.func(CH + "zigzag_index"), rep.func(CH + "zigzag_value")
    X, S = P("value"), P("shrink_towards")
    for o in rep.trace(zi, None, lambda a: True, same_module_helper):
        if o.kind != "return":
            continue
        up = [v for a, v in o.state.guards if ltkey(nosite(a)) == lt(S, X)] + [not v for a, v in o.state.guards if ltkey(nosite(a)) == lt(X, S)]
        want = lambda up: frozen(poly(("bin", "-", ("bin", "*", const(2), ("call", ("g", "builtins.abs"), (("bin", "-", S, X),), (), 0)), const(1 if up else 0))))  # noqa
        rep.check(bool(up) and frozen(poly(o.value)) == want(up[0]), "zigzag", "zigzag_index", loc(o), f"zigzag_index gives {show(o.value)}")
    I = P("index")
    half = ("bin", "//", ("bin", "+", I, const(1)), const(2))
    for o in rep.trace(zv, None, lambda a: True, same_module_helper):
        if o.kind != "return":
            continue
        ev = None
        for a, v in o.state.guards:
            a = nosite(a)
            if a == ("cmp", "==", ("bin", "%", I, const(2)), const(0)):
                ev = v
            elif a in (("bin", "%", I, const(2)), ("bin", "&", I, const(1))):
                ev = not v
            elif a == ("cmp", "==", ("bin", "%", I, const(2)), const(1)):
                ev = not v
        sgn = ("bin", "-", S, half) if ev else ("bin", "+", S, half)
        rep.check(ev is not None and frozen(poly(o.value)) == frozen(poly(sgn)), "zigzag", "zigzag_value", loc(o), f"zigzag_value gives {show(o.value)} for an {'even' if ev else 'odd'} index")


def check_counting(rep):
    f = rep.func(DT + "compute_max_children")
    outs = rep.trace(f, None, lambda a: True, same_module_helper)
    lo, hi = C("min_value"), C("max_value")
    for kind in KINDS:
        sel = of_kind(outs, kind)
        rep.check(any(o.kind == "return" for o in sel), "count-handled", f"compute_max_children:{kind}", f.loc, f"the possible {kind} choices are not counted")
        for o in sel:
            if o.kind != "return":
                rep.check(o.type == "builtins.AssertionError", "count-handled", f"compute_max_children:{kind}", loc(o), f"the possible {kind} choices are not counted")
                continue
            g = {nosite(a): v for a, v in o.state.guards}
            pv = poly(o.value)
            if kind == "integer":
                a, b = g.get(isnone("min_value")), g.get(isnone("max_value"))
                if a is False and b is False:
                    rep.check(frozen(pv) == frozen(poly(("bin", "+", ("bin", "-", hi, lo), const(1)))), "count", "compute_max_children:integer", loc(o), f"a bounded integer has {show(o.value)} values")
                else:
                    rep.check(set(pv) <= {()} and pv.get((), 0) >= 2 ** 64 and (a or b), "count", "compute_max_children:integer:unbounded", loc(o), f"an unbounded integer is counted as having {show(o.value)} values")
            elif kind == "boolean":
                cert = [not v for a, v in g.items() if a[0] == "cmp" and a[1] == "<"]
                want = 1 if any(cert) else 2
                rep.check(pv == {(): want}, "count", "compute_max_children:boolean", loc(o), "a boolean is counted with the wrong number of values")
                rep.check(len(cert) == (1 if any(cert) else 2) or any(cert), "count", "compute_max_children:boolean:ends", loc(o), "a certain boolean is counted as having two values")
            elif kind == "bytes":
                v = o.value
                rep.check(is_call(v, "_count_distinct_strings") and pv and arg(v, 1, "min_size") == C("min_size") and arg(v, 2, "max_size") == C("max_size") and poly(arg(v, 0, "alphabet_size")) == {(): 256}, "count", "compute_max_children:bytes", loc(o), f"bytes are counted as {show(v)[:100]}")
            elif kind == "string":
                v = nosite(o.value)
                if is_call(v, "_count_distinct_strings"):
                    rep.check(arg(v, 1, "min_size") == C("min_size") and arg(v, 2, "max_size") == C("max_size") and arg(v, 0, "alphabet_size") == ("call", ("g", "builtins.len"), (C("intervals"),), (), 0), "count", "compute_max_children:string", loc(o), f"strings are counted as {show(v)[:100]}")
                else:
                    ok = v == const(1) and g.get(C("intervals")) is False or last(v) == "MAX_CHILDREN_EFFECTIVELY_INFINITE" and any(w and k == ("cmp", "<", v, C("max_size")) for k, w in g.items())
                    rep.check(ok, "count", "compute_max_children:string:special", loc(o), f"strings are counted as {show(v)[:100]}")
            else:
                base = [m for m, c in pv.items() if m and c == 1 and is_call(m[0], "count_between_floats") and m[0][2] == (lo, hi)]
                rep.check(len(base) == 1, "count", "compute_max_children:float", loc(o), "floats are not counted between their bounds")
                zero = lambda a, z: is_call(a, "sign_aware_lte") and any(isz(t, z) for t in a[2])  # noqa
                k = 0
                for z in (0.0, -0.0):
                    at = [v for a, v in o.state.guards if zero(a, z)]
                    if len(at) == 2 and all(at):
                        k += 1
                sub = [m for m, c in pv.items() if m and c == -1 and is_call(m[0], "count_between_floats")]
                rep.check(len(sub) <= 1 and pv.get((), 0) == (k if sub else 0), "count", "compute_max_children:float:zeros", loc(o), "the zeros inside the excluded range are not counted back in exactly when they are permitted")
    f = rep.func(DT + "all_children")
    seen = {}
    for o in rep.trace(f, lambda k, t, x: "from_index" if k == "yield" and any_sub(t, lambda y: is_call(y, "choice_from_index")) else "z-" if k == "yield" and isz(t, -0.0) else "z+" if k == "yield" and isz(t, 0.0) else ("range:" + show(nosite(t))) if k == "yield" or k == "call" and last(t[1]) == "_floats_between" else None, lambda a: True, same_module_helper):
        for kind in KINDS:
            if o not in of_kind([o], kind):
                continue
            if kind != "float":
                rep.check(o.state.auto in (("from_index",), ()), "children", f"all_children:{kind}", loc(o), f"children of a {kind} choice are {o.state.auto}")
                seen[kind] = seen.get(kind, False) or o.state.auto == ("from_index",)
            else:
                for z, lab in ((-0.0, "z-"), (0.0, "z+")):
                    at = [v for a, v in o.state.guards if is_call(a, "sign_aware_lte") and any(isz(t, z) for t in a[2])]
                    want = len(at) == 2 and all(at)
                    rep.check(want == (lab in o.state.auto), "children", f"all_children:float:{lab}", loc(o), "a zero is listed although not permitted, or not listed although permitted")
                seen[kind] = True
    for kind in KINDS:
        rep.check(seen.get(kind, False), "children", f"all_children:{kind}:listed", f.loc, f"children of {kind} choices are never listed")


def isz(t, z):
    import math
    if t[0] == "un" and t[1] == "-" and t[2][0] == "c" and t[2][2] == 0.0 and isinstance(t[2][2], float):
        return math.copysign(1, z) < 0
    if t[0] == "c" and isinstance(t[2], float) and t[2] == 0.0:
        return math.copysign(1, t[2]) == math.copysign(1, z)
    return False


def draw_names(rep):
    """classes whose draw_<kind> methods are called by a computed name"""
    out = []
    for c in rep.p.classes.values():
        own = {m for m in c.methods if m.startswith("draw_") and m[5:] in KINDS}
        if own:
            out.append(c)
    return out


def check_providers(rep):
    p = rep.p
    cls = draw_names(rep)
    rep.minimum("drawers", 4)
    base = rep.cls(PR + "PrimitiveProvider")
    for c in cls:
        rep.ok("drawers", c.fq, c.loc)
        for kind in KINDS:
            m = p.method(c, "draw_" + kind)
            rep.check(m is not None, "kind-offered", f"{c.fq}:draw_{kind}", c.loc, f"{c.name} cannot draw {kind} choices")
            if m is None:
                continue
            rep.analysed.add(m.fq)
            a = m.node.args
            names = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
            if "constraints" in names:
                need = {"value", "constraints", "was_forced"}
            elif a.kwarg is not None:
                continue
            else:
                need = FIELDS[kind]
            rep.check(need <= names, "kind-params", f"{c.fq}:draw_{kind}", m.loc, f"draw_{kind} of {c.name} does not accept {sorted(need - names)}")
    for c in p.subclasses(base):
        for kind in KINDS:
            m = p.method(c, "draw_" + kind)
            rep.check(m is not None and not (m.cls is base and is_abstract(m) and c is not base), "kind-offered", f"{c.fq}:draw_{kind}", c.loc, f"provider {c.name} does not implement draw_{kind}")
    # every draw method of the test data passes its own kind and every field
    for kind in KINDS:
        f = rep.func(CD + "draw_" + kind)
        ds = set()

        def ev(k, t, x):
            if k == "call" and last(t[1]) == "_draw":
                ds.add(t)
                return "_draw"

        for o in rep.trace(f, ev, lambda a: False, lambda g, c, r: g.fq not in absint.BASELINE, raises=lambda c: ()):
            if o.kind == "return":
                rep.check("_draw" in o.state.auto and is_call(o.value, "_draw"), "draw-kind", f"ConjectureData.draw_{kind}", loc(o), "a drawn value does not come from the choice sequence")
        for t in ds:
            rep.check(t[2] and t[2][0] == const(kind) or arg(t, 0, "choice_type") == const(kind), "draw-kind", f"ConjectureData.draw_{kind}", f.loc, f"draw_{kind} draws a {show(t[2][0])}")
            cons = arg(t, 1, "constraints")
            got = set()
            for y in subterms(cons or NONE):
                if y[0] == "dict":
                    got |= {k[2] for k, v in y[1] if k[0] == "c" and any_sub(v, lambda z, k=k: z == P(k[2]))}
                if y[0] == "call" and is_call(y, "_pooled_constraints") and len(y[2]) > 0:
                    rep.check(y[2][0] == const(kind), "draw-kind", f"ConjectureData.draw_{kind}:pool", f.loc, "constraints are pooled under another kind")
            rep.check(got == FIELDS[kind], "draw-constraints", f"ConjectureData.draw_{kind}", f.loc, f"constraints {sorted(FIELDS[kind] ^ got)} are dropped or replaced on the way to the choice sequence")
            for k in ("observe", "forced"):
                rep.check(arg(t, None, k) == P(k), "draw-flags", f"ConjectureData.draw_{kind}:{k}", f.loc, f"{k} is not passed on")
    # the recording observer uses its own kind
    for kind in KINDS:
        f = rep.func(DT + "TreeRecordingObserver.draw_" + kind)
        dv = set()
        rep.trace(f, lambda k, t, x: dv.add(t) if k == "call" and last(t[1]) == "draw_value" else None, lambda a: False, lambda g, c, r: g.fq not in absint.BASELINE)
        rep.check(len(dv) >= 1, "observe-kind", f"TreeRecordingObserver.draw_{kind}", f.loc, "a draw is not recorded")
        for t in dv:
            rep.check(arg(t, 0, "choice_type") == const(kind) and arg(t, 1, "value") == P("value") and arg(t, None, "was_forced") == P("was_forced") and arg(t, None, "constraints") == P("constraints"), "observe-kind", f"TreeRecordingObserver.draw_{kind}", f.loc, f"a {kind} draw is recorded as {show(t)[:100]}")


def check_maps(rep):
    """dictionaries between python types and kinds, or listing the kinds, are complete and correct"""
    import ast as A
    n = 0
    for m in rep.p.modules.values():
        if not m.name.startswith("hypothesis.internal.conjecture"):
            continue
        for d in A.walk(m.tree):
            if not isinstance(d, A.Dict) or len(d.keys) < 3:
                continue
            ks = [k.value if isinstance(k, A.Constant) else k.id if isinstance(k, A.Name) else None for k in d.keys]
            vs = [v.value if isinstance(v, A.Constant) else v.id if isinstance(v, A.Name) else None for v in d.values]
            kinds_k = [k for k in ks if k in KINDS and k != "float" and k != "bytes"]
            kinds_v = [v for v in vs if v in ("integer", "string", "boolean")]
            if not kinds_k and not kinds_v:
                continue
            if set(x for x in ks + vs if isinstance(x, str)) & {"array", "object", "number"}:
                continue  # JSON-schema style table
            n += 1
            at = f"{m.rel}:{d.lineno}"
            if kinds_v:
                for k, v in zip(ks, vs):
                    if k in KINDOF:
                        rep.check(KINDOF[k] == v, "kind-map", f"{m.name}:{k}", at, f"{k} values are treated as {v} choices")
                miss = set(KINDOF) - set(ks)
                rep.check(miss <= {"bool"} if "providers" in m.name else not miss, "kind-map", f"{m.name}:complete", at, f"no kind for {sorted(miss)}")
            else:
                for k, v in zip(ks, vs):
                    if v in KINDOF:
                        rep.check(PYTYPE[k] == v, "kind-map", f"{m.name}:{k}", at, f"{k} choices are treated as {v} values")
                miss = set(KINDS) - set(ks)
                rep.check(miss <= {"boolean"} if "providers" in m.name else not miss, "kind-map", f"{m.name}:complete", at, f"no entry for {sorted(miss)}")
    rep.check(n >= 3, "kind-map", "tables", "", f"only {n} tables between types and choice kinds found")


SHRINKERS = ("Integer", "Float", "String", "Bytes", "Ordering", "Collection")


def shrinker_name(t):
    return last(t[1][1]) if t[1][0] == "a" else t[1][1].rsplit(".", 2)[-2] if t[1][0] == "g" and t[1][1].count(".") > 1 else None


def check_shrink_kinds(rep):
    """each kind is minimised by its own rule, with the shrinker that matches it"""
    f = rep.func(SHR + "Shrinker.minimize_nodes")
    outs = rep.trace(f, lambda k, t, x: shrinker_name(t) if k == "call" and last(t[1]) == "shrink" and shrinker_name(t) in SHRINKERS else
                     "try-simplest" if k == "call" and last(t[1]) == "try_shrinking_nodes" and not any_sub(t, lambda y: y[0] == "fn") else None, lambda a: kind_val(a, "integer") is not None, lambda g, c, r: g.fq not in absint.BASELINE)
    want = {"integer": "Integer", "float": "Float", "string": "String", "bytes": "Bytes", "boolean": "try-simplest"}
    for kind in KINDS:
        got = [o for o in of_kind(outs, kind) if o.kind == "return"]
        rep.check(bool(got), "shrink-kind", f"minimize_nodes:{kind}", f.loc, f"{kind} choices are not minimised")
        for o in got:
            mine = [x for x in o.state.auto if x in want.values()]
            rep.check(want[kind] in mine and set(mine) <= {want[kind]} | ({"Integer"} if kind == "integer" else set()) | {"try-simplest"}, "shrink-kind", f"minimize_nodes:{kind}", loc(o), f"{kind} choices are minimised by {mine}")
        for o in of_kind(outs, kind):
            rep.check(o.kind == "return" or o.type == "builtins.AssertionError", "shrink-kind", f"minimize_nodes:{kind}:total", loc(o), f"no rule minimises {kind} choices")


def run_c01(rep):
    """C01: case analysis over the five kinds of choices. Every path of the permission, key, index,
    inverse index, counting and listing functions is compared, per kind, with the rule for that kind
    (decision tables over the conditions; integer expressions up to polynomial normal form); every
    provider, observer and dispatch table is checked to be total."""
    for fn in (check_permitted, check_keys, check_index, check_counting, check_providers, check_maps, check_shrink_kinds):
        rep.part(fn)


CHECKS = {"C01": run_c01}


# ---------------------------------------------------------------------------------------------- C02
def unclamp(t):
    """int_to_float(float_to_int(x)) is x up to the bits of a nan"""
    if is_call(t, "int_to_float") and t[2] and is_call(t[2][0], "float_to_int") and t[2][0][2]:
        return unclamp(t[2][0][2][0])
    return t


def via_getattr(t, owner):
    """a call of getattr(<owner>, f'draw_{choice_type}')(...)"""
    return t[0] == "call" and t[1][0] == "call" and is_call(t[1], "getattr") and len(t[1][2]) > 1 and last(t[1][2][0]) == owner and (
        any_sub(t[1][2][1], lambda y: y == P("choice_type")) and any_sub(t[1][2][1], lambda y: y[0] == "c" and y[2] == "draw_"))


def spread(t):
    """draw called with every field of the constraints"""
    return not t[2] and len(t[3]) == 1 and t[3][0] == ("**", P("constraints"))


def draw_ev(k, t, x):
    if k == "call":
        if last(t[1]) == "_pop_choice":
            return ("pop", nosite(t))
        if via_getattr(t, "provider"):
            return ("provider", nosite(t))
        if via_getattr(t, "observer"):
            return ("observe", nosite(t))
        if last(t[1]) == "record_choice":
            return ("record",)
        if last(t[1]) == "mark_overrun":
            return ("overrun",)
    if k == "setattr" and t[1] == P("self") and t[2] in ("nodes", "length", "index", "status"):
        return ("set", t[2], nosite(x["value"]))
    return None


SELF = P("self")
sa = lambda *n: functools.reduce(lambda b, a: ("a", b, a), n, SELF)  # noqa


def check_draw(rep):
    """every path of ConjectureData._draw: where the value comes from, and that what is handed out is what is recorded"""
    f = rep.func(CD + "_draw")
    outs = rep.trace(f, draw_ev, lambda a: True, lambda g, c, r: g.fq not in absint.BASELINE, raises=lambda c: (), cap=20)
    good = [o for o in outs if o.kind == "return"]
    rep.check(len(good) >= 4, "draw-paths", "_draw", f.loc, "no path of _draw returns")
    node_cls = "ChoiceNode"
    for o in good:
        g = {nosite(a): v for a, v in o.state.guards}
        val = nosite(o.value)
        base = unclamp(val)
        at = loc(o)
        forced = g.get(("cmp", "is", P("forced"), NONE))
        forced = None if forced is None else not forced
        obs = g.get(P("observe"))
        left = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "<" and a[2] == sa("index") and is_call(a[3], "len") and a[3][2][0] == sa("prefix")]
        noprefix = g.get(("cmp", "is", sa("prefix"), NONE))
        replay = obs is True and noprefix is False and left == [True]
        labs = o.state.auto
        kinds = [l[0] for l in labs]
        if forced is None or obs is None:
            rep.check(False, "draw-source", "_draw:case", at, "a value is drawn without looking at " + ("the forced value" if forced is None else "whether the draw is observed"))
            continue
        pops = [l[1] for l in labs if l[0] == "pop"]
        prov = [l[1] for l in labs if l[0] == "provider"]
        rep.check(len(pops) == (1 if replay else 0), "draw-replay", f"_draw:observe={obs}:left={replay}", at, "the recorded prefix is " + ("not used although it has values left" if replay else "used for a draw that is not part of it"))
        for t in pops:
            rep.check(arg(t, 0, "choice_type") == P("choice_type") and arg(t, 1, "constraints") == P("constraints") and arg(t, 2, "forced") == P("forced"), "draw-replay", "_draw:arguments", at, f"the replayed draw is {show(t)[:100]}")
        for t in prov:
            rep.check(spread(t), "draw-source", "_draw:provider", at, f"the provider is asked {show(t)[:100]}")
        if forced:
            rep.check(base == P("forced"), "draw-forced", "_draw", at, f"a forced draw gives {show(val)[:80]}")
        elif replay:
            rep.check(len(pops) == 1 and base == pops[0], "draw-source", "_draw:replay", at, f"a replayed draw gives {show(val)[:80]}, not the (checked) recorded value")
        else:
            rep.check(len(prov) == 1 and base == prov[0], "draw-source", "_draw:fresh", at, f"a fresh draw gives {show(val)[:80]}, not what the provider drew for these constraints")
        if base != val:
            rep.check(any(kind_val(a, "float") is True and kind_val(a, "string") is False and v for a, v in g.items()) and any(is_call(a, "isnan") and v for a, v in g.items()), "draw-source", "_draw:nan", at, "a value that is not a nan is rewritten")
        # recording
        ob = [l[1] for l in labs if l[0] == "observe"]
        sets = {n: [l[2] for l in labs if l[0] == "set" and l[1] == n] for n in ("nodes", "length", "index", "status")}
        if not obs:
            rep.check(not ob and "record" not in kinds and not any(sets.values()), "draw-unobserved", "_draw", at, "an unobserved draw changes the record of the test case")
            continue
        wf = ob and arg(ob[0], None, "was_forced")
        rep.check(len(ob) == 1 and arg(ob[0], 0, "value") == val and arg(ob[0], 1, "constraints") == P("constraints"), "draw-observed", "_draw:observer", at, "the observer is not told exactly the value handed out and its constraints, once")
        okf = [("cmp", "is not", P("forced"), NONE), ("not", ("cmp", "is", P("forced"), NONE)), ("c", "bool", forced)]
        rep.check(bool(wf) and (wf in okf or wf == const(forced)), "draw-observed", "_draw:was_forced", at, f"the observer hears was_forced={show(wf) if wf else '?'} for a {'forced' if forced else 'free'} draw")
        rep.check(kinds.count("record") == 1, "draw-recorded", "_draw:span", at, "the draw is not added once to the record of spans")
        made = None
        ns = sets["nodes"]
        if len(ns) == 1:
            for y in subterms(ns[0]):
                if is_call(y, node_cls):
                    made = y
        rep.check(made is not None and len(ns) == 1 and ns[0][0] == "bin" and ns[0][1] == "+" and ns[0][2] == sa("nodes") and ns[0][3] in (("tuple", (made,)),) if made is not None else False, "draw-recorded", "_draw:nodes", at, "exactly one choice is not appended to the record")
        if made is not None:
            rep.check(arg(made, 1, "value") == val, "draw-recorded", "_draw:value", at, f"the recorded value is {show(arg(made, 1, 'value') or NONE)[:80]}, the one handed out {show(val)[:80]}")
            rep.check(arg(made, 0, "type") == P("choice_type") and arg(made, 2, "constraints") == P("constraints"), "draw-recorded", "_draw:kind", at, "the recorded choice has another kind or other constraints than the draw")
            w = arg(made, 3, "was_forced")
            rep.check(w in okf or w == const(forced), "draw-recorded", "_draw:was_forced", at, f"recorded was_forced={show(w or NONE)} for a {'forced' if forced else 'free'} draw")
            ix = arg(made, 4, "index")
            rep.check(ix is not None and is_call(ix, "len") and ix[2][0] == sa("nodes"), "draw-recorded", "_draw:index", at, "the recorded choice has the wrong position")
        ls = sets["length"]
        size = ls[0][3] if len(ls) == 1 and ls[0][0] == "bin" and ls[0][1] == "+" and ls[0][2] == sa("length") else None
        rep.check(size is not None, "draw-budget", "_draw:length", at, "the size of the choice is not added to the length of the test case")
        rep.check(not sets["index"] and not sets["status"], "draw-recorded", "_draw:other", at, "drawing changes the position in the prefix or the status by itself")
        if size is not None:
            ok = is_call(size, "choices_size") and val in subterms_set(size) or size == ("c", "int", 0) and any(last(a) == "avoid_realization" and v for a, v in g.items())
            rep.check(ok, "draw-budget", "_draw:size", at, f"the size of the choice is taken to be {show(size)[:60]}")
            over = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "<" and lt(a[2], a[3]) == lt(sa("max_length"), ("bin", "+", sa("length"), size))]
            rep.check(over == [False], "draw-budget", "_draw:overrun", at, "a choice is recorded without checking that it still fits into the test case")
            i = kinds.index("record") if "record" in kinds else -1
            j = kinds.index("observe") if "observe" in kinds else 99
            rep.check(j < i, "draw-observed", "_draw:order", at, "the observer hears of a draw only after it was recorded")
        n = ("call", ("g", "builtins.len"), (sa("nodes"),), (), 0)
        cnt = [a[1] == "==" and not v or a[1] == "<" and v == (lt(a[2], a[3]) == lt(n, sa("max_choices"))) for a, v in g.items() if a[0] == "cmp" and any(y == sa("max_choices") for y in subterms(a)) and any(is_call(y, "len") for y in subterms(a))]
        rep.check(bool(cnt) and all(cnt), "draw-budget", "_draw:count", at, "a choice is recorded without checking the number of choices")


def subterms_set(t):
    return set(subterms(t))


def check_pop(rep):
    """every path of _pop_choice: a recorded value is only handed out for a draw that permits it"""
    f = rep.func(CD + "_pop_choice")

    def ev(k, t, x):
        if k == "setattr" and t[1] == SELF:
            return ("set", t[2], nosite(x["value"]))
        if k == "call" and last(t[1]) == "mark_overrun":
            return ("overrun",)
        if k == "setattr" and t[2] == "count":
            return ("count",)
        if k == "catch":
            return ("catch",)

    too = "hypothesis.errors.ChoiceTooLarge"
    outs = rep.trace(f, ev, lambda a: True, lambda g, c, r: g.fq not in absint.BASELINE, exc=True, raises=lambda c: (too,) if last(c[1]) == "choice_from_index" else ("hypothesis.errors.StopTest",) if last(c[1]) == "mark_overrun" else ())
    at_index = ("sub", sa("prefix"), sa("index"))
    zero = lambda v: is_call(v, "choice_from_index") and arg(v, 0) in (("c", "int", 0), const(0)) and arg(v, 1) == P("choice_type") and arg(v, 2) == P("constraints")  # noqa
    n = {"recorded": 0, "zero": 0, "template": 0}
    for o in outs:
        if o.kind != "return":
            rep.check(o.type != too, "pop-total", "_pop_choice", loc(o), "a value too complex for the draw escapes as ChoiceTooLarge instead of ending the test case")
            continue
        g = {nosite(a): v for a, v in o.state.guards}
        v = nosite(o.value)
        tmpl = [val for a, val in g.items() if is_call(a, "isinstance") and last(a[2][1]) == "ChoiceTemplate"]
        labs = o.state.auto
        sets = {l[1]: l[2] for l in labs if l[0] == "set"}
        nidx = sum(1 for l in labs if l[0] == "set" and l[1] == "index")
        adv = sets.get("index") == ("bin", "+", sa("index"), ("c", "int", 1))
        if len(tmpl) != 1:
            rep.check(False, "pop-template", "_pop_choice", loc(o), "templates are not told apart from recorded values")
            continue
        if tmpl[0]:
            n["template"] += 1
            forced = g.get(("cmp", "is", P("forced"), NONE)) is False
            hyp = [val for a, val in g.items() if is_call(a, "isinstance") and last(a[2][1]) == "HypothesisProvider"]
            ok = v == P("forced") if forced else zero(v) if hyp == [True] else via_getattr(v, "provider") and spread(v)
            rep.check(ok, "pop-template", f"_pop_choice:forced={forced}", loc(o), f"a template gives {show(v)[:80]}")
            nocount = [val for a, val in g.items() if a[0] == "cmp" and a[1] == "is" and a[2][0] == "a" and a[2][2] == "count"]
            rep.check((("count",) in labs) == (nocount[-1:] != [True]), "pop-template-count", "_pop_choice", loc(o), "a counted template is not used up by a draw")
            rep.check("index" not in sets and "misaligned_at" not in sets, "pop-template", "_pop_choice:position", loc(o), "a template is passed over after one draw, or marked misaligned")
            continue
        typed = [(a, val) for a, val in g.items() if a[0] == "cmp" and a[1] in ("==", "is") and any(y == P("choice_type") for y in (a[2], a[3])) and any(any_sub(y, lambda z: is_call(z, "type") and z[2][0] == at_index or is_call(z, "isinstance")) for y in (a[2], a[3]))]
        perm = [val for a, val in g.items() if is_call(a, "choice_permitted") and arg(a, 0) == at_index and arg(a, 1) == P("constraints")]
        rep.check(adv and nidx == 1, "pop-advance", "_pop_choice", loc(o), "a recorded value is not passed over exactly once")
        if v == at_index:
            n["recorded"] += 1
            rep.check(typed and all(val for _, val in typed), "pop-typed", "_pop_choice", loc(o), "a recorded value is handed out without comparing its type with the kind of the draw")
            rep.check(perm == [True], "pop-permitted", "_pop_choice", loc(o), "a recorded value is handed out that does not satisfy the draw's constraints")
            rep.check("misaligned_at" not in sets, "pop-misaligned", "_pop_choice:permitted", loc(o), "a value that fits is reported as misaligned")
        else:
            n["zero"] += 1
            rep.check(zero(v), "pop-replaced", "_pop_choice", loc(o), f"a recorded value that does not fit is replaced by {show(v)[:80]}, not the simplest permitted one")
            rep.check(any(not val for _, val in typed) or perm == [False], "pop-replaced", "_pop_choice:needless", loc(o), "a recorded value that fits is replaced")
            first = g.get(("cmp", "is", sa("misaligned_at"), NONE))
            rep.check(("misaligned_at" in sets) == (first is True), "pop-misaligned", "_pop_choice", loc(o), "the first misaligned value of a replay is not the one reported")
            if "misaligned_at" in sets:
                m = sets["misaligned_at"]
                rep.check(m == ("tuple", (sa("index"), P("choice_type"), P("constraints"), P("forced"))), "pop-misaligned", "_pop_choice:where", loc(o), f"the misaligned draw is described as {show(m)[:90]}")
    for k, m in (("recorded", 1), ("zero", 2), ("template", 2)):
        rep.check(n[k] >= m, "pop-paths", f"_pop_choice:{k}", f.loc, "this kind of recorded value is never handed out")


def check_consumers(rep):
    """other places that put a value made elsewhere in place of a draw"""
    p = rep.p
    # the record and the position in the prefix have one writer
    only_writers(rep, "nodes", {CD + "__init__", CD + "_draw"}, "record-writers", "the recorded choices", DA[:-1], cls="ConjectureData")
    only_writers(rep, "index", {CD + "__init__", CD + "_pop_choice"}, "record-writers", "the position in the prefix", DA[:-1], cls="ConjectureData")
    only_writers(rep, "misaligned_at", {CD + "__init__", CD + "_pop_choice"}, "record-writers", "the misaligned draw", DA[:-1], cls="ConjectureData")
    only_writers(rep, "prefix", {CD + "__init__"}, "record-writers", "the recorded prefix", DA[:-1], cls="ConjectureData")
    for c in ("ConjectureData", "ConjectureResult"):
        f = rep.func(DA + c + ".choices")
        for o in rep.trace(f, None, lambda a: True):
            v = nosite(o.value) if o.value else NONE
            ok = is_call(v, "tuple") and v[2] and v[2][0][0] in ("gen", "listcomp", "comp") or v[0] == "tuple"
            rep.check(ok and any_sub(v, lambda y: y[0] == "a" and y[2] == "value") and any_sub(v, lambda y: y == sa("nodes")), "choices-of-nodes", c, loc(o), f"the choices of a test case are {show(v)[:100]}")
    f = rep.func(CD + "as_result")
    for o in rep.trace(f, None, lambda a: True):
        if o.kind != "return":
            continue
        for y in subterms(o.value):
            if is_call(y, "ConjectureResult"):
                for field in ("nodes", "status", "interesting_origin", "misaligned_at", "target_observations", "spans", "tags", "length"):
                    a = arg(y, None, field)
                    rep.check(a is not None and any_sub(nosite(a), lambda z, field=field: z == sa(field)), "result-fields", field, loc(o), f"the result's {field} is {show(a)[:60] if a else 'missing'}")
    # prefixes reach the test data unchanged
    for fq, pname in ((EN + "ConjectureRunner.new_conjecture_data", "prefix"), (CD + "for_choices", "choices"), (CD + "__init__", "prefix")):
        f = rep.func(fq)
        seen = []

        def ev(k, t, x):
            if k == "call" and (last(t[1]) == "ConjectureData" or t[1] == P("cls")):
                seen.append((arg(t, None, "prefix"), x["node"]))
            if k == "setattr" and t == sa("prefix"):
                seen.append((x["value"], x["node"]))

        rep.trace(f, ev, lambda a: False)
        rep.check(bool(seen), "prefix-passed", fq, f.loc, "no prefix is handed to the test data")
        for v, nd in seen:
            rep.check(v == P(pname), "prefix-passed", fq, nloc(f, nd), f"the test data replays {show(v)[:80] if v else 'nothing'}, not the choices asked for")
    # constants and boundary values a provider mixes in
    for fq in (PR + "HypothesisProvider._maybe_draw_constant", PR + "HypothesisProvider.draw_float"):
        check_filtered_pool(rep, fq)
    # the optimiser and the shrinker only try permitted replacements
    f = rep.func("hypothesis.internal.conjecture.optimiser.Optimiser.hill_climb")
    for g in [f] + [x for x in p.functions.values() if x.parent is f]:
        def m(k, t, x):
            if k == "call" and last(t[1]) == "cached_test_function":
                return "try"

        ss, _ = rep.sites(g, m, lambda a: is_call(a, "choice_permitted"), lambda h, c, r: h.fq not in absint.BASELINE, raises=lambda c: ())
        for s in ss:
            new = [y for y in subterms(s.term[2][0]) if y[0] == "tuple" and len(y[1]) == 1] if s.term[2] else []
            val = new[0][1][0] if new else None
            ok = any(is_call(a, "choice_permitted") and v and last(arg(a, 1)) == "constraints" and (val is None or nosite(arg(a, 0)) == nosite(val)) for a, v in s.guards.items())
            rep.check(ok, "replacement-permitted", "Optimiser", s.loc, "the optimiser tries a value without checking that the choice permits it")
    f = rep.func(SHR + "Shrinker.cached_test_function")
    n = 0
    ss, _ = rep.sites(f, lambda k, t, x: "try" if k == "call" and last(t[1]) == "cached_test_function" else None, lambda a: True, lambda h, c, r: h.fq not in absint.BASELINE, raises=lambda c: ())
    for s in ss:
        n += 1
        ok = any(any_sub(a, lambda y: is_call(y, "choice_permitted") and last(arg(y, 0)) == "value" and last(arg(y, 1)) == "constraints") and v == is_call(a, "all") for a, v in s.guards.items() if is_call(a, "any") or is_call(a, "all"))
        rep.check(ok, "replacement-permitted", "Shrinker.cached_test_function", s.loc, "the shrinker tries choices without checking that they are permitted where they stand")
        v = s.term[2][0] if s.term[2] else arg(s.term, None, "choices")
        rep.check(v is not None and any_sub(v, lambda y: y[0] == "a" and y[2] == "value"), "replacement-passed", "Shrinker.cached_test_function", s.loc, "the shrinker runs other values than those it was asked to try")
    rep.check(n >= 1, "replacement-permitted", "Shrinker.cached_test_function:site", f.loc, "no run of the shrinker found")


def is_constraints(t):
    """the constraints of the draw: the parameter, or a dictionary of the like-named parameters"""
    t = nosite(t)
    return t == P("constraints") or t[0] == "dict" and bool(t[1]) and all(k[0] == "c" and v == P(k[2]) for k, v in t[1]) and {k[2] for k, _ in t[1]} in FIELDS.values()


def permits(atom, x):
    return is_call(atom, "choice_permitted") and nosite(arg(atom, 0, "choice")) == nosite(x) and is_constraints(arg(atom, 1, "constraints") or NONE)


def pool_source(t):
    return t[0] == "sub" and last(t[1]) in ("GLOBAL_CONSTANTS", "_local_constants") or t[0] in ("list", "tuple") and any(last(y) == "inf" for y in t[1])


def check_filtered_pool(rep, fq):
    """values taken from a pool of constants were filtered by choice_permitted with the draw's own constraints"""
    f = rep.func(fq)
    uses = {}

    def scan(t, x, inside=False):
        if pool_source(t):
            uses.setdefault(("raw", nosite(t)), (False, x["node"]))
            return
        if t[0] == "comp" and len(t[3]) == 1 and pool_source(t[3][0]):
            e = ("elem", t[3][0])
            ok = t[2] == e and any(permits(c, e) for c in t[4])
            k = ("comp", nosite(t[3][0]))
            uses[k] = (uses.get(k, (True,))[0] and ok, x["node"])
            return
        if is_call(t, "filter") and any_sub(t, lambda y: y[0] in ("fn", "lambda")):
            uses[("filter", nosite(t))] = (True, x["node"])
            return
        for y in t:
            if isinstance(y, tuple):
                scan(y, x) if y and isinstance(y[0], str) else [scan(z, x) for z in y if isinstance(z, tuple)]

    def ev(k, t, x):
        if k == "setitem":
            scan(x["value"], x)
        elif k == "return" and t is not None:
            scan(t, x)
        elif k == "call" and last(t[1]) in ("choice", "append", "add"):
            for a in t[2]:
                if a[0] == "elem" and pool_source(a[1]):
                    ok = any(v and permits(g, a) for g, v in x["st"].guards)
                    k2 = ("append", nosite(a[1]))
                    uses[k2] = (uses.get(k2, (True,))[0] and ok, x["node"])
                else:
                    scan(a, x)

    rep.trace(f, ev, lambda a: is_call(a, "choice_permitted"), lambda g, c, r: g.fq not in absint.BASELINE, raises=lambda c: ())
    for (how, src), (ok, nd) in uses.items():
        rep.check(ok, "pool-permitted", f"{fq}:{how}:{show(src)[:60]}", nloc(f, nd), "a special value is used without checking that it satisfies the constraints of the draw")
    rep.check(len(uses) >= 1, "pool-permitted", fq, f.loc, "no pool of special values found")


def run_c02(rep):
    """C02: all paths of the two functions through which every draw goes (_draw, _pop_choice) are
    enumerated: the source of the value, the checks it passed, and the equality of the value handed
    out, observed and recorded; plus a who-writes audit of the record and guard dominance at the
    other places that put a value in place of a draw."""
    for fn in (check_draw, check_pop, check_consumers):
        rep.part(fn)


CHECKS["C02"] = run_c02


# ---------------------------------------------------------------------------------------------- C03
def self_call(t, name):
    return t[0] == "call" and last(t[1]) == name and t[1][0] == "a" and t[1][1] == SELF


NOTHING = lambda c: ()  # noqa
extracted = lambda g, c, r: g.fq not in absint.BASELINE  # noqa: helpers that are not in the pinned tree


def check_frozen_guards(rep):
    """every change to the record is made only while the test case is not frozen"""
    cls = rep.cls(DA + "ConjectureData")
    STATE = {"output", "status", "interesting_origin", "depth", "max_depth", "has_discards", "nodes", "length", "misaligned_at", "tags", "labels_for_structure_stack", "events", "index"}
    guard = next((m for n, m in cls.methods.items() if n.endswith("assert_not_frozen")), None)
    rep.check(guard is not None, "frozen-guard", "assert_not_frozen", cls.loc, "the guard against frozen test cases is gone")
    if guard is not None:
        for o in rep.trace(guard, None, lambda a: True, raises=NOTHING):
            g = {nosite(a): v for a, v in o.state.guards}
            fz = g.get(sa("frozen"))
            rep.check(fz is not None and (o.kind == "raise") == fz and (o.kind == "return" or (o.type or "").endswith(".Frozen")), "frozen-guard", "assert_not_frozen", loc(o), "calling a frozen test case is not refused, or an open one is")

    inl = lambda g, c, r: g.fq not in absint.BASELINE or g.name.endswith("assert_not_frozen")  # noqa
    n = 0
    for name, m in cls.methods.items():
        if name in ("__init__", "freeze", "_pop_choice", "mark_invalid", "as_result", "spans", "for_choices"):
            continue
        if only_part(rep.p, m):
            continue  # judged where it is inlined

        def match(k, t, x):
            if k == "setattr" and t[1] == SELF and t[2] in STATE:
                return t[2]
            if k == "call" and t[1][0] == "a" and t[1][2] in MUTATORS and t[1][1][0] == "a" and t[1][1][1] == SELF and (t[1][1][2] in STATE or t[1][1][2].endswith("span_record")):
                return t[1][1][2]
            if k == "call" and (self_call(t, "_pop_choice") or via_getattr(t, "provider") and name == "_draw"):
                return last(t[1]) if t[1][0] == "a" else "provider"

        ss, outs = rep.sites(m, match, lambda a: nosite(a) == sa("frozen"), inl, raises=NOTHING)
        for s in ss:
            n += 1
            rep.check(s.has(lambda a: nosite(a) == sa("frozen"), False), "frozen-effect", f"{name}:{s.label}", s.loc, f"{name} changes {s.label} although the test case may be concluded")
        if name in ("note", "start_span", "conclude_test", "_draw"):
            for o in outs:
                if o.type == "builtins.AssertionError":
                    continue
                fz = {nosite(a): v for a, v in o.state.guards}.get(sa("frozen"))
                rep.check(fz is not None and not (fz and o.kind == "return"), "frozen-refused", name, loc(o), f"{name} of a concluded test case is not refused")
    rep.check(n >= 10, "frozen-effect", "sites", cls.loc, f"only {n} effects found")
    # and from outside only through these methods
    for a, allowed in (("status", {CD + "__init__", CD + "conclude_test"}), ("interesting_origin", {CD + "__init__", CD + "conclude_test"}), ("frozen", {CD + "__init__", CD + "freeze"}),
                       ("output", {CD + "__init__", CD + "note"}), ("has_discards", {CD + "__init__", CD + "stop_span"}), ("depth", {CD + "__init__", CD + "start_span", CD + "stop_span"}),
                       ("tags", {CD + "__init__", CD + "stop_span"}), ("labels_for_structure_stack", {CD + "__init__", CD + "start_span", CD + "stop_span"})):
        only_writers(rep, a, allowed, "frozen-writers", "only the guarded methods may", cls="ConjectureData")


MUTATORS = {"append", "add", "update", "pop", "extend", "insert", "clear", "start_span", "stop_span", "record_choice", "remove", "discard", "setdefault"}


def check_conclude(rep):
    """concluding: the status is assigned once, then the test case is frozen and the test stopped"""
    f = rep.func(CD + "conclude_test")

    def ev(k, t, x):
        if k == "setattr" and t[1] == SELF and t[2] in ("status", "interesting_origin"):
            return ("set", t[2], nosite(x["value"]))
        if k == "call" and self_call(t, "freeze"):
            return ("freeze",)

    outs = rep.trace(f, ev, lambda a: True, lambda g, c, r: g.fq not in absint.BASELINE or g.name.endswith("assert_not_frozen"), raises=NOTHING)
    stops = 0
    for o in outs:
        rep.check(o.kind == "raise", "conclude", "conclude_test:returns", loc(o), "concluding a test case lets the test carry on")
        if (o.type or "").endswith("StopTest"):
            stops += 1
            labs = list(o.state.auto)
            rep.check(("set", "status", P("status")) in labs and sum(l[:2] == ("set", "status") for l in labs) == 1, "conclude", "conclude_test:status", loc(o), "the status of a concluded test case is not the one it was concluded with")
            rep.check(("set", "interesting_origin", P("interesting_origin")) in labs and sum(l[:2] == ("set", "interesting_origin") for l in labs) == 1, "conclude", "conclude_test:origin", loc(o), "the origin of a failing test case is not the one it was concluded with")
            rep.check(labs and labs[-1] == ("freeze",) and labs.count(("freeze",)) == 1, "conclude", "conclude_test:freeze", loc(o), "a concluded test case is not frozen after its status is set")
            v = nosite(o.value)
            rep.check(v[0] == "call" and arg(v, 0) == sa("testcounter"), "conclude", "conclude_test:stop", loc(o), "the stop signal does not name this test case")
            rep.check(any(any(last(y) == "INTERESTING" for y in subterms(a)) and val or nosite(a) == ("cmp", "is", P("interesting_origin"), NONE) and val for a, val in o.state.guards), "conclude", "conclude_test:origin-only-if-interesting", loc(o), "a test case that did not fail can be given an origin")
    rep.check(stops >= 1, "conclude", "conclude_test", f.loc, "no path stops the test")
    for name, st in (("mark_interesting", "INTERESTING"), ("mark_invalid", "INVALID"), ("mark_overrun", "OVERRUN")):
        f = rep.func(CD + name)
        seen = []
        outs = rep.trace(f, lambda k, t, x: seen.append(t) or "conclude" if k == "call" and self_call(t, "conclude_test") else None, lambda a: True, extracted, noreturn=lambda c, f: False, raises=NOTHING)
        for o in outs:
            rep.check(o.state.auto.count("conclude") == 1, "conclude-as", name, loc(o), f"{name} does not conclude the test case")
        for t in seen:
            s = arg(t, 0, "status")
            rep.check(s is not None and last(s) == st, "conclude-as", f"{name}:status", f.loc, f"{name} concludes with {show(s) if s else 'nothing'}")
            og = arg(t, 1, "interesting_origin")
            rep.check(og == P("interesting_origin") if st == "INTERESTING" else og in (None, NONE), "conclude-as", f"{name}:origin", f.loc, f"{name} passes {show(og) if og else 'no origin'}")


def check_freeze(rep):
    f = rep.func(CD + "freeze")

    def ev(k, t, x):
        if k == "setattr" and t == sa("frozen"):
            return ("frozen", nosite(x["value"]))
        if k == "call" and self_call(t, "stop_span"):
            return "close"
        if k == "call" and t[1][0] == "a" and t[1][2] == "conclude_test" and t[1][1] == sa("observer"):
            return ("tell", nosite(arg(t, 0, "status") or NONE), nosite(arg(t, 1, "interesting_origin") or NONE))
        if k == "call" and last(t[1]) == "freeze":
            return "freeze-record"
        if k == "setattr":
            return ("set", t[2])
        if k == "branch" and t[0] == "cmp" and t[1] == "<" and any(y == sa("depth") for y in t[2:]):
            open_ = (lt(t[2], t[3]) in (lt(const(-1), sa("depth")),)) == x["val"] or (lt(t[2], t[3]) == lt(sa("depth"), const(0))) != x["val"]
            return "open" if open_ else "closed"

    n = 0
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        labs = list(o.state.auto)
        fz = [v for a, v in o.state.guards if nosite(a) == sa("frozen")]
        rep.check(o.kind == "return", "freeze", "freeze:raises", loc(o), "freezing raises")
        if fz and fz[0]:
            rep.check(not labs, "freeze-idempotent", "freeze", loc(o), "freezing a frozen test case does something")
            continue
        n += 1
        tells = [l for l in labs if isinstance(l, tuple) and l[0] == "tell"]
        fr = [i for i, l in enumerate(labs) if l == ("frozen", const(True))]
        rep.check(bool(fz) and not fz[0], "freeze-idempotent", "freeze:guard", loc(o), "freezing does not look whether the test case is frozen already")
        rep.check(len(fr) == 1, "freeze", "freeze:frozen", loc(o), "freezing does not mark the test case frozen")
        rep.check(tells == [("tell", sa("status"), sa("interesting_origin"))], "freeze", "freeze:observer", loc(o), "the observer is not told the final status and origin exactly once")
        if fr:
            rep.check("close" not in labs[fr[0]:] and "closed" in labs[:fr[0]], "freeze", "freeze:spans", loc(o), "spans are still open when the test case is marked frozen")
            rep.check("open" not in labs or "close" in labs, "freeze", "freeze:closes", loc(o), "open spans are not closed")
            rep.check("freeze-record" in labs, "freeze", "freeze:record", loc(o), "the record of spans stays open")
    rep.check(n >= 1, "freeze", "freeze:paths", f.loc, "no path freezes the test case")
    for name in ("as_result", "spans"):
        g = rep.func(CD + name)
        for o in rep.trace(g, None, lambda a: nosite(a) == sa("frozen"), extracted, raises=NOTHING):
            fz = [v for a, v in o.state.guards if nosite(a) == sa("frozen")]
            rep.check(bool(fz) and (fz[0] or o.kind == "raise"), "frozen-only", name, loc(o), f"{name} of a test case that is still running is computed (and cached)")
    # the stop signal of another test case is not swallowed
    g = rep.func(EN + "ConjectureRunner.__stoppable_test_function")
    outs = rep.trace(g, lambda k, t, x: "catch" if k == "catch" else None, lambda a: any(last(y) == "testcounter" for y in subterms(a)), extracted, exc=True, raises=lambda c: ("hypothesis.errors.StopTest",) if last(c[1]) == "_test_function" else ())
    for o in outs:
        if "catch" in o.state.auto:
            same = [v for a, v in o.state.guards if a[0] == "cmp" and a[1] == "==" and all(last(y) == "testcounter" for y in a[2:])]
            rep.check(len(same) == 1 and (o.kind == "return") == same[0], "stop-own", "__stoppable_test_function", loc(o), "the stop signal of another test case ends this one, or its own does not")
    rep.check(any("catch" in o.state.auto and o.kind == "return" for o in outs), "stop-own", "__stoppable_test_function:handled", g.loc, "the stop signal of a concluded test case is not handled")
    f = rep.func(CD + "__init__")
    ws = []
    rep.trace(f, lambda k, t, x: ws.append(x["value"]) if k == "setattr" and t == sa("testcounter") else None, lambda a: False)
    rep.check(bool(ws) and all(any(y[0] == "g" and y[1].endswith("global_test_counter") for y in subterms(w)) for w in ws), "stop-own", "testcounter", f.loc, "the number of a test case is not unique")
    bumps = [n for n in own_nodes(f.node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == "global_test_counter" or isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "global_test_counter" for t in n.targets)]
    rep.check(bool(bumps), "stop-own", "testcounter:bumped", f.loc, "two test cases get the same number")


def run_c03(rep):
    """C03: guard dominance: every effect on a test case's record lies on paths where it was found not
    frozen; all paths of conclude_test, mark_*, freeze, as_result and of the handler of the stop signal
    are compared with the conclusion protocol; a who-writes audit covers the rest of the program."""
    for fn in (check_frozen_guards, check_conclude, check_freeze):
        rep.part(fn)


CHECKS["C03"] = run_c03


# ---------------------------------------------------------------------------------------------- C04
class Depth(Trace):
    """counts the spans opened and closed along a path: auto = (open, many-element open)"""

    def push(self, auto, lab):
        if lab is None or auto and auto[0] == "dead":
            return auto
        n, m = auto or (0, 0)
        if lab == "open":
            n += 1
        elif lab == "close":
            if m:
                m = 0
            else:
                n -= 1
        elif lab == "more":
            m = 1
        elif lab == "nomore":
            m = 0
        elif lab == "undrawn":
            return ("dead", 0) if m else auto or (0, 0)
        return (max(-2, min(4, n)), m)


def span_ev(k, t, x):
    if k == "call" and t[1][0] == "a" and t[1][2] == "start_span":
        return "open"
    if k == "call" and t[1][0] == "a" and t[1][2] == "stop_span":
        return "close"
    if k == "branch" and t[0] == "call" and last(t[1]) == "more":
        return "more" if x["val"] else "nomore"
    if k == "branch" and t[0] == "a" and t[2] == "drawn" and not x["val"]:
        return "undrawn"  # cannot be while an element's span is open


USER = {"draw", "pack", "condition", "do_draw", "do_filtered_draw", "draw_boolean", "draw_integer", "draw_float", "draw_string", "draw_bytes", "choice", "function"}


def check_balance(rep):
    p = rep.p
    skip = {CD + "start_span", CD + "stop_span", CD + "freeze", CD + "__init__"}
    todo = {}
    for name in ("start_span", "stop_span", "more"):
        for f, n in call_sites(p, name):
            r = f
            while r.parent is not None:
                r = r.parent
            if f.fq in skip or f.name in ("start_span", "stop_span", "__push", "__pop") or f.cls is not None and f.cls.fq.endswith(".many") or f.fq not in absint.BASELINE:
                continue
            if isinstance(n.func, ast.Attribute):
                todo[f.fq] = f
    for fq, f in sorted(todo.items()):
        small = sum(1 for _ in own_nodes(f.node)) < 450
        r = Depth(span_ev, lambda a, small=small: small or any_sub(a, lambda y: y[0] == "a" and y[2] in ("observe", "more")) or a[0] == "call" and last(a[1]) == "more", extracted, True, depth=4, max_states=300,
                  raises=lambda c: ("hypothesis.errors.UnsatisfiedAssumption",) if last(c[1]) in USER else ())
        outs = rep.run(f, r)
        outermost = any(isinstance(n, ast.Attribute) and n.attr == "teardown" for n in own_nodes(f.node))  # the body of a stateful test: ends with the test case
        for o in outs:
            n, m = o.state.auto or (0, 0)
            if n == "dead":
                continue
            if o.kind == "return":
                ok = (n, m) == (0, 0) or outermost and n in (0, 1) and m == 0
                rep.check(ok, "balanced", f.qualname, loc(o), f"{f.qualname} leaves with {n} span(s) open" + (" and the last element's span open" if m else ""))
            elif f.fq == CD + "draw":
                rep.check((n, m) == (0, 0), "balanced", f"{f.qualname}:raise", loc(o), "an exception while drawing leaves the span of the draw open")
            else:
                rep.check(n >= 0, "balanced", f"{f.qualname}:raise", loc(o), "a span is closed twice before an exception")
    rep.check(len(todo) >= 9, "balanced", "functions", "", f"only {len(todo)} functions that open or close spans found")
    f = rep.func(CD + "draw")
    opened = []
    outs = rep.trace(f, lambda k, t, x: opened.append(nosite(t)) or "span" if k == "call" and self_call(t, "start_span") else "do" if k == "call" and last(t[1]) == "do_draw" else None, lambda a: a == ("cmp", "is", P("label"), NONE), extracted, raises=NOTHING)
    for o in outs:
        if o.kind == "return":
            rep.check(o.state.auto == ("span", "do"), "draw-span", "ConjectureData.draw", loc(o), f"a draw does {list(o.state.auto)} instead of opening one span and drawing once in it")
    for t in opened:
        a = arg(t, 0, "label")
        rep.check(a == P("label") or last(a) == "label", "draw-span", "ConjectureData.draw:label", f.loc, f"the span of a draw is labelled {show(a) if a else '?'}")


def check_span_record(rep):
    """start_span and stop_span keep depth, record, labels and provider in step"""
    def ev(k, t, x):
        if k == "setattr" and t[1] == SELF:
            return ("set", t[2], frozen(poly(nosite(x["value"]))) if t[2] == "depth" else nosite(x["value"]))
        if k == "call" and t[1][0] == "a":
            b, n = t[1][1], t[1][2]
            if b == sa("provider"):
                return ("provider", n, nosite(arg(t, 0, "label" if n == "span_start" else "discard") or NONE))
            if b[0] == "a" and b[2].endswith("span_record"):
                return ("record", n, nosite(arg(t, 0, "label") or arg(t, None, "discard") or NONE))
            if n in ("append", "pop", "update", "kill_branch"):
                return (n, last(b), nosite(arg(t, 0) or NONE))

    inl = lambda g, c, r: g.fq not in absint.BASELINE or g.name.endswith("assert_not_frozen")  # noqa
    f = rep.func(CD + "start_span")
    up = frozen(poly(("bin", "+", sa("depth"), ("c", "int", 1))))
    dn = frozen(poly(("bin", "-", sa("depth"), ("c", "int", 1))))
    n = 0
    for o in rep.trace(f, ev, lambda a: True, inl, raises=NOTHING):
        labs = list(o.state.auto)
        rep.check(labs.count(("provider", "span_start", P("label"))) == 1, "span-provider", "start_span", loc(o), "the backend is not told that a span starts")
        if o.kind != "return":
            continue
        n += 1
        rep.check([l for l in labs if l[:2] == ("set", "depth")] == [("set", "depth", up)], "span-depth", "start_span", loc(o), "the depth does not grow by one")
        rep.check([l for l in labs if l[0] == "record"] == [("record", "start_span", P("label"))], "span-recorded", "start_span", loc(o), "the start of the span is not recorded once with its label")
        ap = [l for l in labs if l[0] == "append"]
        rep.check(ap in ([("append", "labels_for_structure_stack", ("set", (P("label"),)))],), "span-labels", "start_span", loc(o), "the label of the span is not put on the stack of labels")
    rep.check(n >= 1, "span-depth", "start_span:paths", f.loc, "no span is ever opened")
    f = rep.func(CD + "stop_span")
    n = 0
    for o in rep.trace(f, ev, lambda a: True, inl, raises=NOTHING):
        if o.kind != "return":
            continue
        labs = list(o.state.auto)
        g = {nosite(a): v for a, v in o.state.guards}
        rep.check([l for l in labs if l[0] == "provider"] == [("provider", "span_end", P("discard"))], "span-provider", "stop_span", loc(o), "the backend is not told exactly once that a span ends")
        rest = [l for l in labs if l[0] != "provider"]
        if g.get(sa("frozen")):
            rep.check(not rest, "span-frozen", "stop_span", loc(o), "closing a span of a concluded test case changes it")
            continue
        n += 1
        disc = g.get(P("discard"))
        rep.check(disc is not None, "span-discard", "stop_span", loc(o), "a discarded span is treated like any other")
        rep.check([l for l in rest if l[:2] == ("set", "depth")] == [("set", "depth", dn)], "span-depth", "stop_span", loc(o), "the depth does not shrink by one")
        recs = [l for l in rest if l[0] == "record"]
        rep.check(len(recs) == 1 and recs[0][1] == "stop_span" and recs[0][2] in (P("discard"), const(disc)), "span-recorded", "stop_span", loc(o), "the end of the span is not recorded once, with whether it was discarded")
        rep.check(sum(l[:2] == ("pop", "labels_for_structure_stack") for l in rest) == 1, "span-labels", "stop_span", loc(o), "the labels of the span stay on the stack")
        rep.check(("set", "has_discards", const(True)) in rest if disc else not any(l[:2] == ("set", "has_discards") for l in rest), "span-discard", "stop_span:has_discards", loc(o), "discarded spans are not remembered" if disc else "a span that was kept counts as discarded")
        kills = sum(l[0] == "kill_branch" for l in rest)
        rep.check(kills == (1 if disc else 0), "span-discard", "stop_span:kill_branch", loc(o), "the observer is not told of a discarded span" if disc else "the observer hears that a kept span was discarded")
        ups = [l for l in rest if l[0] == "update"]
        rep.check(bool(ups) != bool(disc), "span-labels", "stop_span:merge", loc(o), "the labels of a discarded span count" if disc else "the labels of the span are lost")
    rep.check(n >= 3, "span-depth", "stop_span:paths", f.loc, f"only {n} paths close a span")
    # the trail
    SR = DA + "SpanRecord."

    def tev(k, t, x):
        if k == "call" and t[1][0] == "a" and t[1][2] == "append":
            return ("append", last(t[1][1]), nosite(arg(t, 0)))

    f = rep.func(SR + "record_choice")
    for o in rep.trace(f, tev, lambda a: True, extracted, raises=NOTHING):
        rep.check(len(o.state.auto) == 1 and o.state.auto[0][1] == "trail" and last(o.state.auto[0][2]) == "CHOICE", "trail", "record_choice", loc(o), "a choice is not put on the trail")
    f = rep.func(SR + "stop_span")
    for o in rep.trace(f, tev, lambda a: True, extracted, raises=NOTHING):
        d = {nosite(a): v for a, v in o.state.guards}.get(P("discard"))
        rep.check(d is not None and len(o.state.auto) == 1 and o.state.auto[0][1] == "trail" and last(o.state.auto[0][2]) == ("STOP_SPAN_DISCARD" if d else "STOP_SPAN_NO_DISCARD"), "trail", "stop_span", loc(o), "the end of a span is not put on the trail as what it is")
    f = rep.func(SR + "start_span")
    for o in rep.trace(f, tev, lambda a: True, extracted, exc=True, raises=lambda c: (), cap=8):
        if o.kind != "return":
            continue
        tr = [l for l in o.state.auto if l[1] == "trail"]
        rep.check(len(tr) == 1 and any(last(y) == "START_SPAN" for y in subterms(tr[0][2])) and tr[0][2][0] == "bin" and tr[0][2][1] == "+", "trail", "start_span", loc(o), "the start of a span is not put on the trail")
        if tr and any(is_call(y, "setdefault") for y in subterms(tr[0][2])):
            rep.check([l[2] for l in o.state.auto if l[1] == "labels"] == [P("label")], "trail", "start_span:new-label", loc(o), "a new label is not added to the list of labels")
    # reading it back
    f = rep.func(DA + "SpanProperty.run")

    def rev(k, t, x):
        if k == "loop":
            return "loop"
        if k == "setattr" and t[2] == "choice_count":
            v = nosite(x["value"])
            return ("choice", v[0] == "bin" and v[1] == "+" and ("c", "int", 1) in v[2:])
        if k == "call" and last(t[1]).endswith("__push"):
            return ("push", frozen(poly(nosite(arg(t, 0)))))
        if k == "call" and last(t[1]).endswith("__pop"):
            return ("pop", nosite(arg(t, 0, "discarded")))
        if k == "branch" and t[0] == "cmp":
            return ("if", show(nosite(t)), x["val"])

    segs, outs = rep.segments(f, rev, ("loop",), lambda a: True, extracted, raises=NOTHING)
    seen = set()
    for head, labs, how in segs:
        if head != "loop" or how == "raise":
            continue
        facts = {l[1]: l[2] for l in labs if l[0] == "if"}
        acts = [l for l in labs if l[0] != "if"]
        isc = next((v for k, v in facts.items() if "CHOICE" in k and "START" not in k), None)
        start = next((v if "START_SPAN <" not in k and " < " in k and k.index("START_SPAN") > k.index("<") else not v for k, v in facts.items() if "START_SPAN" in k), None)
        if isc is None:
            continue
        if isc:
            seen.add("choice")
            rep.check(acts == [("choice", True)], "trail-read", "run:choice", f.loc, f"a choice on the trail is read as {acts}")
        elif start is not None and not start:
            seen.add("push")
            rep.check(len(acts) == 1 and acts[0][0] == "push" and "START_SPAN" in str(acts[0][1]), "trail-read", "run:start", f.loc, f"the start of a span on the trail is read as {[a[0] for a in acts]}")
        elif start is not None:
            seen.add("pop")
            rep.check(len(acts) == 1 and acts[0][0] == "pop" and "STOP_SPAN_DISCARD" in str(acts[0][1]), "trail-read", "run:stop", f.loc, f"the end of a span on the trail is read as {[a[0] for a in acts]}")
    rep.check(seen == {"choice", "push", "pop"}, "trail-read", "run", f.loc, f"only {sorted(seen)} are read back from the trail")


def check_many(rep):
    """an element of a repeated draw: the previous span is closed, one opened, and closed again at the end"""
    f = rep.func("hypothesis.internal.conjecture.utils.many.more")

    def ev(k, t, x):
        if k == "call" and self_call(t, "stop_span"):
            return ("close", x["node"].lineno)
        if k == "call" and self_call(t, "start_span"):
            return ("open",)
        if k == "setattr" and t[1] == SELF and t[2] in ("drawn", "rejected", "count"):
            return ("set", t[2], frozen(poly(nosite(x["value"]))) if t[2] == "count" else nosite(x["value"]))

    n = 0
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        n += 1
        labs = [l for l in o.state.auto]
        i = labs.index(("open",)) if ("open",) in labs else -1
        drawn = {nosite(a): v for a, v in o.state.guards}.get(sa("drawn"))
        before = sum(l[0] == "close" for l in labs[:max(i, 0)])
        after = sum(l[0] == "close" for l in labs[i + 1:])
        ret = o.value == const(True) if o.value in (const(True), const(False)) else None
        rep.check(i >= 0 and labs.count(("open",)) == 1, "many-span", "more:open", loc(o), "an element has no span of its own")
        rep.check(drawn is not None and before == (1 if drawn else 0), "many-span", "more:previous", loc(o), "the span of the previous element is not closed (exactly once) first")
        rep.check(ret is not None and after == (0 if ret else 1), "many-span", "more:end", loc(o), "the last span is left open at the end" if ret is False else "the span of an element is closed before it is drawn")
        rep.check(("set", "drawn", const(True)) in labs, "many-span", "more:drawn", loc(o), "more() forgets that an element's span is open")
        counts = [l[2] for l in labs if l[:2] == ("set", "count")]
        rep.check(counts == ([frozen(poly(("bin", "+", sa("count"), ("c", "int", 1))))] if ret else []), "many-count", "more", loc(o), "the number of elements is not the number of times more() said yes")
    rep.check(n >= 4, "many-span", "more:paths", f.loc, "more() has too few outcomes")
    for name in ("start_span", "stop_span"):
        f = rep.func("hypothesis.internal.conjecture.utils.many." + name)
        for o in rep.trace(f, lambda k, t, x: "data" if k == "call" and t[1][0] == "a" and t[1][2] == name and t[1][1] == sa("data") else None, lambda a: True, extracted, raises=NOTHING):
            ob = {nosite(a): v for a, v in o.state.guards}.get(sa("observe"))
            rep.check(ob is not None and o.state.auto == (("data",) if ob else ()), "many-observe", name, loc(o), "spans are opened and closed under different conditions")


def run_c04(rep):
    """C04: a counting automaton over all paths (normal, early-exit and handled-exception) of every function
    that opens or closes a span or iterates many(); all paths of start_span, stop_span, many.more, the
    span trail writer and its reader are compared with the region protocol."""
    for fn in (check_balance, check_span_record, check_many):
        rep.part(fn)


CHECKS["C04"] = run_c04
