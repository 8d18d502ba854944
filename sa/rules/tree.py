"""C05 (the tree of tried test cases) and C06 (caches)."""
from __future__ import annotations

import ast

from .. import absint
from ..lib import *
from .choices import CD, DA, DT, EN, KINDS, NOTHING, P, SELF, extracted, lt, spread, subterms_set

OB = DT + "TreeRecordingObserver."
TN = DT + "TreeNode."
TREE = DT + "DataTree."
UNSEEN = DT + "PreviouslyUnseenBehaviour"


def dm(t):
    """demangle private attribute names and drop call sites"""
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "a" and isinstance(x[2], str):
                n = x[2]
                if n.startswith("_") and not n.startswith("__") and "__" in n[1:]:
                    n = n[n.index("__", 1):]
                return ("a", go(x[1]), n)
            return tuple(go(y) for y in x)
        return x
    return go(nosite(t)) if t is not None else NONE


def sa(n):
    return ("a", SELF, n)


def at(base, n):
    return ("a", base, n)


def ln(t):
    return nosite(("call", ("g", "builtins.len"), (t,), (), 0))


def gd(o):
    return {dm(a): v for a, v in o.state.guards}


def val(g, *atoms):
    for a in atoms:
        if a in g:
            return g[a]
    return None


def eq(g, a, b):
    for op in ("==", "is"):
        v = val(g, ("cmp", op, a, b), ("cmp", op, b, a))
        if v is not None:
            return v
    return None


def less(g, a, b):
    """truth of a < b from the path conditions"""
    cmps = [(k, v) for k, v in g.items() if k[0] == "cmp" and k[1] == "<"]
    for k, v in cmps:
        if lt(k[2], k[3]) == lt(a, b):
            return v
    for k, v in cmps:
        if v and lt(k[2], k[3]) == lt(b, a):
            return False
    for k, v in g.items():
        if k[0] == "cmp" and k[1] == "==" and v and {k[2], k[3]} == {a, b}:
            return False
    return None


def inst(g, t, *names):
    """isinstance(t, one of names): known truth on this path"""
    known = []
    for k, v in g.items():
        if is_call(k, "isinstance") and k[2][0] == t:
            c = k[2][1]
            known.append(({last(x) for x in (c[1] if c[0] == "tuple" else (c,))}, v))
    if any(v and cs <= set(names) for cs, v in known):
        return True
    if any(not v and set(names) <= cs or v and not (cs & set(names)) for cs, v in known):
        return False
    return None


def asserts(o):
    return o.kind == "raise" and o.type in ("builtins.AssertionError", "builtins.LookupError")


def check_exhausted(rep):
    """a node is marked exhausted only when nothing below it is untried"""
    only_writers(rep, "is_exhausted", {TN + "check_exhausted"}, "exhausted-writer", "only check_exhausted may decide", DT[:-1])
    f = rep.func(TN + "check_exhausted")
    tr = sa("transition")
    kids = at(tr, "children")

    def ev(k, t, x):
        if k == "setattr" and t == sa("is_exhausted"):
            return ("set", dm(x["value"]))

    outs = rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING)
    done = {"leaf": 0, "branch": 0}
    child = lambda t: t[0] == "a" and t[2] == "is_exhausted" and t[1][0] == "elem"  # noqa
    for o in outs:
        if o.kind != "return":
            continue
        g = gd(o)
        sets = [l[1] for l in o.state.auto if l[0] == "set"]
        known = eq(g, tr, NONE) is False and eq(g, ln(sa("forced")), ln(sa("values"))) is True
        leaf = inst(g, tr, "Conclusion", "Killed")
        full = eq(g, ln(kids), at(tr, "max_children"))
        kidvals = [v for a, v in g.items() if child(a)]
        alltrue = lambda t: is_call(t, "all") and any_sub(t, child) and any_sub(t, lambda y: y == kids)  # noqa
        v = sets[-1] if sets else None
        if v is not None and v != FALSE:
            ok = known and (leaf is True and v == TRUE or full is True and leaf is not True and (alltrue(v) or v == TRUE and (any(alltrue(a) and b for a, b in g.items()) or False not in kidvals and any(child(a) for q in outs for a in gd(q)))))
            rep.check(ok, "exhausted", "check_exhausted", loc(o), "a node is marked exhausted although " + ("it has no transition, or free choices before it" if not known else "a child of it may be untried or unfinished"))
            done["leaf" if leaf is True else "branch"] += 1
        else:
            fresh = g.get(sa("is_exhausted")) is not True
            must = fresh and known and (leaf is True or full is True and leaf is False and False not in kidvals and not any(alltrue(a) and not b for a, b in g.items()) and v is None)
            rep.check(not must, "exhausted-noticed", "check_exhausted", loc(o), "a node below which everything was tried is not marked exhausted")
        rv = dm(o.value)
        rep.check(rv == sa("is_exhausted") or rv == v or v is None and (rv == FALSE) == (g.get(sa("is_exhausted")) is not True), "exhausted", "check_exhausted:result", loc(o), "check_exhausted answers something else than what it recorded")
    for k, n in done.items():
        rep.check(n >= 1, "exhausted", f"check_exhausted:{k}", f.loc, "no path marks such a node exhausted")
    # the number of children is that of the branch's own kind and constraints
    f = rep.func(DT + "Branch.max_children")
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        if o.kind == "return":
            v = dm(o.value)
            rep.check(is_call(v, "compute_max_children") and arg(v, 0, "choice_type") == sa("choice_type") and arg(v, 1, "constraints") == sa("constraints"), "branch-size", "Branch.max_children", loc(o), f"the size of a branch is {show(v)[:80]}")


def check_split(rep):
    """splitting a node keeps every recorded choice, its forcedness and what follows"""
    f = rep.func(TN + "split_at")
    i = P("i")
    i1 = frozen(poly(("bin", "+", i, const(1))))

    def tail(v, field):
        return v is not None and v[0] == "sub" and v[1] == sa(field) and v[2][0] == "slice" and frozen(poly(v[2][1])) == i1 and v[2][2] in (NONE, None) and v[2][3] in (NONE, None)

    def ev(k, t, x):
        if k == "setattr":
            return ("set", dm(t), dm(x["value"]))
        if k == "del":
            return ("del", dm(t))
        if k == "call" and last(t[1]) == "check_exhausted":
            return ("check", dm(t[1][1]))

    n = 0
    for o in rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING):
        if asserts(o):
            continue
        g = gd(o)
        inforced = val(g, ("cmp", "in", i, sa("forced")))
        if o.kind == "raise":
            rep.check(inforced is True and (o.type or "").endswith("FlakyStrategyDefinition"), "split-forced", "split_at", loc(o), "splitting a free choice is refused")
            continue
        n += 1
        rep.check(inforced is False, "split-forced", "split_at", loc(o), "a forced choice is treated as one that could have gone another way")
        labs = o.state.auto
        tr = [l[2] for l in labs if l[0] == "set" and l[1] == sa("transition")]
        b = tr[0] if len(tr) == 1 else NONE
        ok = is_call(b, "Branch") and arg(b, 0, "constraints") == ("sub", sa("constraints"), i) and arg(b, 1, "choice_type") == ("sub", sa("choice_types"), i)
        rep.check(ok, "split-branch", "split_at", loc(o), f"the branch made of choice i is {show(b)[:80]}")
        ch = arg(b, 2, "children") if is_call(b, "Branch") else None
        ok = ch is not None and ch[0] == "dict" and len(ch[1]) == 1 and ch[1][0][0] == ("sub", sa("values"), i)
        rep.check(ok, "split-branch", "split_at:child", loc(o), "the recorded continuation is not kept under the value it was recorded for")
        c = ch[1][0][1] if ok else NONE
        ok = is_call(c, "TreeNode") and all(tail(arg(c, None, k) or arg(c, j), k) for j, k in enumerate(("constraints", "values", "choice_types"))) and (arg(c, None, "transition") == sa("transition"))
        rep.check(ok, "split-rest", "split_at", loc(o), f"what follows choice i is recorded as {show(c)[:160]}")
        dels = [l[1] for l in labs if l[0] == "del"]
        cut = lambda d, k: d[0] == "sub" and d[1] == sa(k) and d[2][0] == "slice" and d[2][1] == i and d[2][2] in (NONE, None)  # noqa
        for k in ("constraints", "values", "choice_types"):
            sets = [l[2] for l in labs if l[0] == "set" and l[1] == sa(k)]
            ok = any(cut(d, k) for d in dels) or any(s[0] == "sub" and s[1] == sa(k) and s[2][0] == "slice" and s[2][2] == i and s[2][1] in (NONE, None, const(0)) for s in sets)
            rep.check(ok, "split-cut", f"split_at:{k}", loc(o), "the split node keeps choices that are now recorded in its child")
        fr = sa("__forced")
        none = eq(g, fr, NONE)
        if none is not True:
            e = ("elem", fr)
            fs = {dm(l[1][1]) == SELF: l[2] for l in labs if l[0] == "set" and l[1][2] == "__forced"}
            child, own = fs.get(False), fs.get(True)
            okc = child is not None and child[0] == "comp" and len(child[4]) == 1 and frozen(poly(child[2])) == frozen(poly(("bin", "-", ("bin", "-", e, i), const(1)))) and absint.norm_atom(child[4][0]) in [(a, v) for a, v in (absint.norm_atom(("cmp", ">", e, i)), absint.norm_atom(("cmp", "<", i, e)), absint.norm_atom(("cmp", ">=", e, ("bin", "+", i, const(1)))))]
            rep.check(okc, "split-forcedness", "split_at:child", loc(o), f"the forced choices after the split are recorded as {show(child)[:110] if child else 'none'}")
            oko = own is not None and own[0] == "comp" and len(own[4]) == 1 and own[2] == e and absint.norm_atom(own[4][0]) in [absint.norm_atom(("cmp", "<", e, i)), absint.norm_atom(("cmp", "<=", e, i)), absint.norm_atom(("cmp", ">", i, e))]
            rep.check(oko, "split-forcedness", "split_at:own", loc(o), f"the forced choices before the split are recorded as {show(own)[:110] if own else 'none'}")
        rep.check(("check", c) in labs, "split-exhausted", "split_at", loc(o), "the part split off is not marked exhausted when it is")
    rep.check(n >= 2, "split-branch", "split_at:paths", f.loc, "no path splits")
    f = rep.func(TN + "mark_forced")
    ss, outs = rep.sites(f, lambda k, t, x: "add" if k == "call" and last(t[1]) == "add" else None, lambda a: False, extracted, raises=NOTHING)
    for s in ss:
        rep.check(s.term[2] == (P("i"),) and dm(s.term[1][1]) in (sa("__forced"), nosite(("call", ("g", "builtins.set"), (), (), 0))), "forced-marked", "mark_forced", s.loc, "another choice is marked as forced")
    rep.check(bool(ss), "forced-marked", "mark_forced", f.loc, "no choice is marked as forced")
    f = rep.func(TN + "forced")
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        if o.kind == "return":
            g = gd(o)
            v = dm(o.value)
            some = g.get(sa("__forced"))
            if some is None:
                nn = eq(g, sa("__forced"), NONE)
                some = None if nn is None else not nn
            rep.check(v == sa("__forced") or some is not True and last(v) == "EMPTY" or is_call(v, "frozenset"), "forced-marked", "forced", loc(o), f"the forced choices of a node are {show(v)[:50]}")


def record_ev(k, t, x):
    if k == "setattr" and t[1] == SELF:
        return ("set", dm(t)[2], dm(x["value"]))
    if k == "setattr":
        return ("put", dm(t), dm(x["value"]))
    if k == "setitem":
        return ("item", dm(t), dm(x["value"]))
    if k == "call" and t[1][0] == "a" and last(t[1]) in ("append", "split_at", "mark_forced", "setdefault", "check_exhausted", "__update_exhausted", "_TreeRecordingObserver__update_exhausted", "add", "pop", "clear", "remove"):
        d = dm(t)
        return ("do", d[1][2], d[1][1], d[2])


CUR, IDX, TRAIL = sa("__current_node"), sa("__index_in_current_node"), sa("__trail")


def check_record(rep):
    """every path of draw_value: what is recorded, and when the difference is reported as flaky"""
    f = rep.func(OB + "draw_value")
    rel = lambda a: True  # noqa
    outs = rep.trace(f, record_ev, rel, extracted, raises=NOTHING, cap=24)
    ct, cs = P("choice_type"), P("constraints")
    here = lambda fld: ("sub", at(CUR, fld), IDX)  # noqa
    n = {"same": 0, "split": 0, "append": 0, "child": 0}
    for o in outs:
        if asserts(o):
            continue
        g = gd(o)
        fl = inst(g, P("value"), "float")
        V = P("value")
        if fl is not False and (fl or any(l for l in o.state.auto if any_sub(l, lambda y: is_call(y, "float_to_int")))):
            V = nosite(("call", ("g", "hypothesis.internal.floats.float_to_int"), (P("value"),), (), 0))
        inside = less(g, IDX, ln(at(CUR, "values")))
        tr = at(CUR, "transition")
        none = eq(g, tr, NONE)
        concl = inst(g, tr, "Conclusion")
        branch = inst(g, tr, "Branch")
        forced = g.get(P("was_forced"))
        labs = list(o.state.auto)
        do = [l for l in labs if l[0] == "do"]
        sets = {}
        for l in labs:
            if l[0] == "set":
                sets[l[1]] = l[2]
        if o.kind == "raise":
            kinds = [eq(g, ct, here("choice_types")), eq(g, cs, here("constraints")), eq(g, ct, at(tr, "choice_type")), eq(g, cs, at(tr, "constraints"))]
            differ = False in kinds or concl is True or (forced is True and val(g, ("cmp", "in", IDX, at(CUR, "forced"))) is False)
            rep.check((o.type or "").endswith("FlakyStrategyDefinition") and differ, "record-flaky", "draw_value:needless", loc(o), f"a draw that agrees with the record raises {o.type}")
            continue
        rep.check(fl is True or fl is False, "record-value", "draw_value:float", loc(o), "floats that compare equal are not told apart")
        if fl is True:
            rep.check(V != P("value"), "record-value", "draw_value:float", loc(o), "floats that compare equal are not told apart")
        moved = sets.get("__current_node")
        if inside is True:
            ok = eq(g, ct, here("choice_types")) is True and eq(g, cs, here("constraints")) is True
            rep.check(ok, "record-flaky", "draw_value:kind", loc(o), "a draw of another kind or with other constraints than recorded for the same prefix is merged with the record")
            isin = val(g, ("cmp", "in", IDX, at(CUR, "forced")))
            rep.check(forced is False or forced is True and isin is True, "record-flaky", "draw_value:forced", loc(o), "a forced draw where the record has a free one is merged with the record")
            same = eq(g, V, here("values"))
            if same is True:
                n["same"] += 1
                rep.check(moved is None and not [l for l in labs if l[0] in ("item", "put")] and not [d for d in do if d[1] != "append" or d[2] != TRAIL], "record-same", "draw_value", loc(o), "repeating a recorded choice changes the record")
                end, endi = CUR, frozen(poly(("bin", "+", IDX, const(1))))
            else:
                n["split"] += 1
                rep.check(same is False, "record-split", "draw_value", loc(o), "the drawn value is not compared with the recorded one")
                rep.check([d for d in do if d[1] == "split_at"] == [("do", "split_at", CUR, (IDX,))], "record-split", "draw_value:at", loc(o), "a differing choice does not split the record at its own position")
                items = [l for l in labs if l[0] == "item"]
                ok = len(items) == 1 and items[0][1] == ("sub", at(tr, "children"), V) and is_call(items[0][2], "TreeNode") and not items[0][2][2] and not items[0][2][3] and moved == items[0][2]
                rep.check(ok, "record-split", "draw_value:child", loc(o), "the new continuation is not recorded under the value drawn")
                end, endi = moved, frozen(poly(const(0)))
        else:
            rep.check(inside is False, "record-position", "draw_value", loc(o), "the record is not consulted at the position of the draw")
            rep.check(concl is not True, "record-flaky", "draw_value:conclusion", loc(o), "drawing on where the test case had ended before is not reported")
            if none is True:
                n["append"] += 1
                apps = {l[2]: l[3] for l in do if l[1] == "append" and l[2] != TRAIL}
                ok = apps == {at(CUR, "choice_types"): (ct,), at(CUR, "constraints"): (cs,), at(CUR, "values"): (V,)}
                rep.check(ok, "record-append", "draw_value", loc(o), f"a new draw is recorded as {', '.join(show(k)[-14:] + ': ' + show(v[0])[:20] for k, v in apps.items() if v)}")
                marks = [l for l in do if l[1] == "mark_forced"]
                rep.check(forced in (True, False) and bool(marks) == forced and all(l[2] == CUR and l[3] in ((IDX,), ) for l in marks), "record-forced", "draw_value", loc(o), "a new draw is recorded with the wrong forcedness")
                one = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "==" and any(is_call(y, "compute_max_children") and arg(y, 0) == ct and arg(y, 1) == cs for y in (a[2], a[3])) and const(1) in (a[2], a[3])]
                split = [l for l in do if l[1] == "split_at"]
                rep.check(bool(split) == (one == [True] and forced is False) and all(l[2] == CUR and l[3] == (IDX,) for l in split), "record-single", "draw_value", loc(o), "a choice with only one possible value is not recorded as a branch, or another choice is")
                if split:
                    rep.check(moved == ("sub", at(tr, "children"), V), "record-single", "draw_value:child", loc(o), "recording goes on at the wrong node")
                    end, endi = moved, frozen(poly(const(0)))
                else:
                    rep.check(moved is None, "record-append", "draw_value:moved", loc(o), "recording goes on at the wrong node")
                    end, endi = CUR, frozen(poly(("bin", "+", IDX, const(1))))
            else:
                n["child"] += 1
                rep.check(none is False and (branch is True or concl is False), "record-flaky", "draw_value:conclusion", loc(o), "drawing on where the test case had ended before is not reported")
                ok = eq(g, ct, at(tr, "choice_type")) is True and eq(g, cs, at(tr, "constraints")) is True
                rep.check(ok, "record-flaky", "draw_value:branch", loc(o), "a draw of another kind or with other constraints than the recorded branch is merged with the record")
                kid = ("sub", at(tr, "children"), V)
                ok = moved == kid or moved is not None and moved[0] == "call" and last(moved[1]) == "setdefault" and moved[1][1] == at(tr, "children") and moved[2][0] == V and is_call(moved[2][1], "TreeNode") or moved is not None and is_call(moved, "TreeNode") and ("item", kid, moved) in labs
                rep.check(ok, "record-child", "draw_value", loc(o), f"recording goes on at {show(moved)[:60] if moved else 'the same node'}, not at the child for the value drawn")
                end, endi = moved, frozen(poly(const(0)))
        ix = sets.get("__index_in_current_node")
        rep.check(ix is not None and frozen(poly(ix)) == endi, "record-position", "draw_value:index", loc(o), "the position in the record does not follow the draw")
        trail = [d[3] for d in do if d[1] == "append" and d[2] == TRAIL]
        lastis = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "is" and a[2][0] == "sub" and a[2][1] == TRAIL and end in (a[3],)]
        rep.check(trail == [(end,)] if lastis == [False] else trail == [] if lastis == [True] else (trail == [(end,)] or end == CUR and not trail), "record-trail", "draw_value", loc(o), "the node reached is missing from the path along which exhaustion is updated")
    for k, m in n.items():
        rep.check(m >= 1, "record-paths", f"draw_value:{k}", f.loc, "no path handles this case")
    # the five typed hooks, and a missing child
    for kd in KINDS:
        f = rep.func(OB + "draw_" + kd)
        ss, _ = rep.sites(f, lambda k, t, x: "d" if k == "call" and last(t[1]) == "draw_value" else None, lambda a: False, extracted, raises=NOTHING)
        rep.check(len(ss) == 1, "record-hooks", kd, f.loc, "the draw is not recorded exactly once")
        for s in ss:
            t = s.term
            rep.check(arg(t, 0, "choice_type") == const(kd) and arg(t, 1, "value") == P("value") and arg(t, None, "was_forced") == P("was_forced") and arg(t, None, "constraints") == P("constraints"), "record-hooks", kd, s.loc, f"a {kd} draw is recorded as {show(t)[:120]}")
    f = rep.func(OB + "__init__")
    got = {}

    def ev(k, t, x):
        if k == "setattr":
            got[dm(t)[2]] = dm(x["value"])

    rep.trace(f, ev, None)
    root = at(P("tree"), "root")
    rep.check(got.get("__current_node") == root and got.get("__index_in_current_node") == const(0) and got.get("__trail") in (("list", (root,)), ("list", (CUR,))) and got.get("killed") == FALSE, "record-start", "TreeRecordingObserver", f.loc, "recording does not start at the root of the tree")


def check_finish(rep):
    """killing a branch and concluding a test case"""
    tr = at(CUR, "transition")
    f = rep.func(OB + "kill_branch")
    n = 0
    for o in rep.trace(f, record_ev, lambda a: True, extracted, raises=NOTHING, cap=24):
        if asserts(o):
            continue
        g = gd(o)
        labs = o.state.auto
        inside = less(g, IDX, ln(at(CUR, "values")))
        none, killed = eq(g, tr, NONE), inst(g, tr, "Killed")
        if g.get(sa("killed")) is True:
            rep.check(o.kind == "return" and not labs, "kill-once", "kill_branch", loc(o), "killing a branch twice changes the record")
            continue
        if o.kind == "raise":
            rep.check((o.type or "").endswith("FlakyStrategyDefinition") and (inside is True or none is False and killed is False), "kill-flaky", "kill_branch:needless", loc(o), "discarding as recorded before is reported as flaky")
            continue
        n += 1
        rep.check(inside is False and (none is True or killed is True), "kill-flaky", "kill_branch", loc(o), "discarding where the record goes on is merged with the record")
        rep.check(("set", "killed", TRUE) in labs, "kill-once", "kill_branch:flag", loc(o), "a killed branch is not remembered as killed")
        puts = [l for l in labs if l[0] == "put"]
        ups = [l for l in labs if l[0] == "do" and l[1] == "__update_exhausted"]
        if none is True:
            v = puts[0][2] if len(puts) == 1 and puts[0][1] == tr else NONE
            nn = arg(v, 0, "next_node") if is_call(v, "Killed") else None
            rep.check(nn is not None and is_call(nn, "TreeNode") and not nn[2] and not nn[3], "kill-record", "kill_branch", loc(o), "a discarded part is not recorded as such")
            rep.check(len(ups) == 1 and labs.index(ups[0]) > labs.index(puts[0]) if puts else False, "kill-exhausts", "kill_branch", loc(o), "the exhaustion of the nodes above a discarded part is not updated")
            nxt = (at(v, "next_node"), nn)
        else:
            rep.check(not puts, "kill-record", "kill_branch:again", loc(o), "the record of a discarded part is replaced")
            nxt = (at(tr, "next_node"),)
        cur = [l[2] for l in labs if l[:2] == ("set", "__current_node")]
        rep.check(len(cur) == 1 and cur[0] in nxt and ("set", "__index_in_current_node", const(0)) in labs, "kill-record", "kill_branch:next", loc(o), "recording does not go on below the discarded part")
    rep.check(n >= 2, "kill-record", "kill_branch:paths", f.loc, "no path kills a branch")

    f = rep.func(OB + "conclude_test")
    st = P("status")
    STS = at(("g", DA + "Status"), "OVERRUN")

    def is_status(t, name):
        return last(t) == name

    n = {"new": 0, "same": 0, "flaky": 0}
    for o in rep.trace(f, record_ev, lambda a: True, extracted, raises=NOTHING, cap=24):
        if asserts(o):
            continue
        g = gd(o)
        labs = o.state.auto
        over = [v for a, v in g.items() if a[0] == "cmp" and a[1] in ("==", "is") and st in (a[2], a[3]) and any(is_status(y, "OVERRUN") for y in (a[2], a[3]))]
        inside = less(g, IDX, ln(at(CUR, "values")))
        none, branch, concl = eq(g, tr, NONE), inst(g, tr, "Branch"), inst(g, tr, "Conclusion")
        new = None
        puts = [l for l in labs if l[0] == "put"]
        if over == [True]:
            rep.check(o.kind == "return" and not labs, "conclude-overrun", "conclude_test", loc(o), "a test case that was cut off is recorded as concluded")
            continue
        rep.check(over == [False], "conclude-overrun", "conclude_test", loc(o), "a test case that was cut off is not told apart from a concluded one")
        iscon = lambda y: is_call(y, "Conclusion") and arg(y, 0, "status") == st and arg(y, 1, "interesting_origin") == P("interesting_origin")  # noqa
        same = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "==" and tr in (a[2], a[3]) and any(iscon(y) for y in (a[2], a[3]))]
        if o.kind == "raise":
            if (o.type or "").endswith("FlakyReplay"):
                n["flaky"] += 1
                origins = [y for y in subterms(dm(o.value)) if y == ("tuple", (at(tr, "interesting_origin"), P("interesting_origin"))) or y[0] == "tuple" and len(y[1]) == 2 and y[1][0] == at(tr, "interesting_origin") and y[1][1] != at(tr, "interesting_origin")]
                rep.check(none is False and same == [False] and concl is True, "conclude-flaky", "conclude_test:needless", loc(o), "ending as recorded before is reported as flaky")
                rep.check(bool(origins), "conclude-flaky", "conclude_test:origins", loc(o), "the flaky report does not name both outcomes")
            else:
                rep.check((o.type or "").endswith("FlakyStrategyDefinition") and (inside is True or branch is True), "conclude-flaky", "conclude_test:needless", loc(o), "ending as recorded before is reported as flaky")
            continue
        rep.check(inside is False and branch is False, "conclude-flaky", "conclude_test:early", loc(o), "ending where the record has further draws is merged with the record")
        if puts:
            n["new"] += 1
            rep.check(len(puts) == 1 and puts[0][1] == tr and iscon(puts[0][2]), "conclude-record", "conclude_test", loc(o), "the recorded conclusion has another status or origin than the test case")
            rep.check(none is True or same == [True], "conclude-flaky", "conclude_test:replaced", loc(o), "a conclusion that differs from the recorded one replaces it")
        else:
            n["same"] += 1
            rep.check(none is False, "conclude-record", "conclude_test:missing", loc(o), "the conclusion of a test case is not recorded")
            if concl is True and same == [False]:
                was = [v for a, v in g.items() if a[0] == "cmp" and a[1] in ("==", "is") and at(tr, "status") in (a[2], a[3]) and any(is_status(y, "INTERESTING") for y in (a[2], a[3]))]
                now = [v for a, v in g.items() if a[0] == "cmp" and a[1] in ("==", "is") and any(y == st or y[0] == "a" and y[2] == "status" and iscon(y[1]) for y in (a[2], a[3])) and any(is_status(y, "VALID") for y in (a[2], a[3]))]
                rep.check(was == [True] and now == [True], "conclude-flaky", "conclude_test:tolerated", loc(o), "a conclusion that differs from the recorded one is tolerated other than when a failing test case now passes")
        k = g.get(sa("killed"))
        ups = any(l[0] == "do" and l[1] == "__update_exhausted" for l in labs)
        ck = ("do", "check_exhausted", CUR, ()) in labs or ups
        rep.check(ck, "conclude-exhausts", "conclude_test", loc(o), "a concluded node is not marked exhausted")
        rep.check(k is True or ups, "conclude-exhausts", "conclude_test:above", loc(o), "the exhaustion of the nodes above a concluded one is not updated")
        rep.check(not (k is True and ups), "conclude-exhausts", "conclude_test:killed", loc(o), "nodes above a discarded part are updated from within it")
    for k, m in n.items():
        rep.check(m >= 1, "conclude-record", f"conclude_test:{k}", f.loc, "no path handles this case")
    # walking up the trail
    f = next((g for g in rep.p.functions.values() if g.fq.startswith(OB) and g.name.endswith("update_exhausted")), None)
    rep.check(f is not None, "exhausted-up", "update_exhausted", "", "exhaustion is never propagated")
    if f is not None:
        rep.analysed.add(f.fq)
        bad = []

        def ev(k, t, x):
            if k == "call" and last(t[1]) == "check_exhausted":
                return ("check", dm(t[1][1]))

        el = set()
        for o in rep.trace(f, ev, lambda a: is_call(a, "check_exhausted"), extracted, raises=NOTHING):
            for l in o.state.auto:
                el.add(l[1])
        src = {e[1] for e in el if e[0] == "elem"}
        rep.check(bool(el) and all(e[0] == "elem" for e in el) and all(is_call(s, "reversed") and s[2][0] == TRAIL or s[0] == "sub" and s[1] == TRAIL and s[2][0] == "slice" and s[2][3] == const(-1) for s in src), "exhausted-up", "update_exhausted", f.loc, "exhaustion is not propagated from the last node of the path upwards")


def check_simulate(rep):
    """simulation replays exactly what was recorded and gives up where nothing was"""
    f = rep.func(TREE + "simulate_test_function")
    drawcall = lambda t: t[1][0] == "call" and last(t[1][1]) == "getattr" or last(t[1]).startswith("draw_")  # noqa

    def match(k, t, x):
        if k == "call" and last(t[1]) in ("conclude_test", "kill_branch"):
            return last(t[1])
        if k == "call" and drawcall(t):
            return "draw"
        if k == "raise" and x["type"] == UNSEEN:
            return "unseen"

    rel = lambda a: mentions(a, "transition") or mentions(a, "forced") or a[0] == "cmp" and a[1] == "=="  # noqa
    inl = lambda g, c, r: g.parent is not None or g.fq not in absint.BASELINE  # noqa
    ss, outs = rep.sites(f, match, rel, inl, True, raises=lambda c: ("hypothesis.errors.StopTest",) if last(c[1]) == "conclude_test" or drawcall(c) else (), max_states=100, rounds=2)
    n = {}
    for s in ss:
        g = {dm(a): v for a, v in s.guards.items()}
        n[s.label] = n.get(s.label, 0) + 1
        trs = {y for a in g for y in subterms(a) if y[0] == "a" and y[2] == "transition"}
        if s.label == "conclude_test":
            a0, a1 = dm(arg(s.term, 0, "status")), dm(arg(s.term, 1, "interesting_origin"))
            ok = a0[0] == "a" and a0[2] == "status" and a1[0] == "a" and a1[2] == "interesting_origin" and a0[1] == a1[1] and inst(g, a0[1], "Conclusion") is True
            rep.check(ok, "simulate-conclusion", "simulate_test_function", s.loc, f"a simulated test case is concluded with {show(a0)[:40]}, {show(a1)[:40]}")
        elif s.label == "kill_branch":
            rep.check(any(inst(g, t, "Killed") is True or inst(g, t, "Branch") is False and inst(g, t, "Conclusion") is False and eq(g, t, NONE) is False for t in trs), "simulate-kill", "simulate_test_function", s.loc, "a simulated test case discards where the recorded one did not")
        elif s.label == "draw":
            t = s.term
            base = t[1]
            if base[0] == "call":
                nm = base[2][1]
                ok = nm[0] == "fstr" or any_sub(nm, lambda y: y[0] in ("elem", "sub", "a"))
                ok = ok and base[2][0] == P("data")
            else:
                nm, ok = None, base[1] == P("data")
            rep.check(ok, "simulate-draw", "simulate_test_function:data", s.loc, "a simulated draw is not made from the test data")
            star = [v for k, v in t[3] if k in (None, "**", "")]
            fc = arg(t, None, "forced")
            cons = dm(star[0]) if star else NONE
            kd = [y for y in subterms(dm(nm))] if nm is not None else []
            if cons[0] == "sub" and cons[1][0] == "elem":  # within a node
                e = cons[1]
                z = e[1]
                names = [x[2] if x[0] == "a" else None for x in (z[2] if is_call(z, "zip") else ())]
                enum = is_call(z, "enumerate")
                ok = names.count("constraints") == 1 and cons[2] == const(names.index("constraints")) if "constraints" in names else False
                rep.check(ok, "simulate-draw", "simulate_test_function:constraints", s.loc, f"a simulated draw uses {show(cons)[:50]} as constraints")
                if ok:
                    kix = const(names.index("choice_types")) if "choice_types" in names else NONE
                    rep.check(("sub", e, kix) in kd, "simulate-draw", "simulate_test_function:kind", s.loc, "a simulated draw is of another kind than the recorded one")
                    prev = ("sub", e, const(names.index("values"))) if "values" in names else NONE
                    isf = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "in" and a[3][0] == "a" and a[3][2] == "forced"]
                    fv = dm(fc) if fc is not None else NONE
                    if isf[-1:] == [True]:
                        rep.check(fv == prev or is_call(fv, "int_to_float") and fv[2][0] == prev, "simulate-forced", "simulate_test_function", s.loc, "a forced draw is simulated as a free one, or forced to something else")
                    else:
                        rep.check(isf[-1:] == [False] and fv == NONE, "simulate-forced", "simulate_test_function:free", s.loc, "a free draw is simulated as a forced one")
            else:
                ok = cons[0] == "a" and cons[2] == "constraints" and cons[1] in trs and inst(g, cons[1], "Branch") is True
                rep.check(ok, "simulate-draw", "simulate_test_function:branch", s.loc, f"a simulated draw uses {show(cons)[:50]} as constraints")
                rep.check(at(cons[1], "choice_type") in kd if ok else False, "simulate-draw", "simulate_test_function:branch-kind", s.loc, "a simulated draw is of another kind than the recorded branch")
                rep.check(fc is None or fc == NONE, "simulate-forced", "simulate_test_function:branch", s.loc, "a free draw is simulated as a forced one")
    for k, m in (("conclude_test", 1), ("kill_branch", 1), ("draw", 2), ("unseen", 2)):
        rep.check(n.get(k, 0) >= m, "simulate-paths", f"simulate_test_function:{k}", f.loc, "this part of the record is not simulated")
    # giving up: value differs, nothing recorded, no such child
    def ev(k, t, x):
        if k == "call" and drawcall(t):
            return ("draw",)
        if k == "cmp":
            return None
        if k == "catch":
            return ("catch", dm(t))

    kinds = set()
    for o in outs:
        g = gd(o)
        if o.kind == "raise" and o.type == UNSEEN:
            kinds.add("x")
        rep.check(o.kind != "raise" or o.type in (UNSEEN, "builtins.AssertionError", "builtins.LookupError"), "simulate-unseen", "simulate_test_function:type", loc(o), f"simulation ends with {o.type}")
    heads = {("draw",)}
    # within the replay of a node the drawn value is compared with the recorded one before the next draw
    diff = [a for s in ss for a in s.guards if a[0] == "cmp" and a[1] == "==" and any(y[0] == "call" and drawcall(y) for y in subterms(a))]
    rep.check(bool(diff), "simulate-differs", "simulate_test_function", f.loc, "the simulated draws are not compared with the record")
    for s in ss:
        for a, v in s.guards.items():
            if a[0] == "cmp" and a[1] == "==" and any(y[0] == "call" and drawcall(y) for y in (a[2], a[3])) or a in diff:
                if v is False:
                    rep.check(s.label == "unseen", "simulate-differs", "simulate_test_function:goes-on", s.loc, "simulation goes on along the record after a draw differed from it")
    un = [s for s in ss if s.label == "unseen"]
    rep.check(any(v is False and a in diff for s in un for a, v in s.guards.items()), "simulate-differs", "simulate_test_function:raise", f.loc, "a draw that differs from the record does not end the simulation")
    rep.check(any(v is True and a[0] == "cmp" and a[1] == "is" and NONE in (a[2], a[3]) and any(y[0] == "a" and y[2] == "transition" for y in (a[2], a[3])) for s in un for a, v in s.guards.items()), "simulate-unseen", "simulate_test_function:open", f.loc, "simulation does not end where nothing is recorded")
    # a missing child
    miss = matrix_keyerror(rep, f, drawcall)
    rep.check(miss, "simulate-unseen", "simulate_test_function:child", f.loc, "simulation does not end where the branch has no child for the value drawn")
    # who may simulate
    f = rep.func(TREE + "rewrite")
    for o in rep.trace(f, None, lambda a: True, extracted, True, raises=lambda c: (UNSEEN,) if last(c[1]) == "simulate_test_function" else ()):
        if o.kind != "return":
            continue
        v = dm(o.value)
        fail = any("except" in str(a) for a in ())
        ok = v[0] == "tuple" and len(v[1]) == 2 and (v[1] == (P("choices"), NONE) or v[1][0][0] == "a" and v[1][0][2] == "choices" and v[1][1] == at(v[1][0][1], "status"))
        rep.check(ok, "rewrite", "DataTree.rewrite", loc(o), f"a rewritten test case is {show(v)[:80]}")


def matrix_keyerror(rep, f, drawcall):
    """children[v] is looked up under a KeyError handler that raises PreviouslyUnseenBehaviour, or with a
    membership test"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            keyed = any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "children" for b in n.body for x in ast.walk(b))
            h = [x for x in n.handlers if x.type is not None and "KeyError" in ast.unparse(x.type)]
            if keyed and h and all(isinstance(x.body[-1], ast.Raise) and "PreviouslyUnseenBehaviour" in ast.unparse(x.body[-1]) for x in h):
                return True
        if isinstance(n, ast.If) and "children" in ast.unparse(n.test) and (" in " in ast.unparse(n.test)) and any(isinstance(x, ast.Raise) for b in n.body + n.orelse for x in ast.walk(b)):
            return True
    return False


def check_novel(rep):
    """a novel prefix ends at something untried and never enters an exhausted branch"""
    f = rep.func(TREE + "generate_novel_prefix")
    DR = ("_draw", "_draw_from_cache")

    def match(k, t, x):
        if k == "call" and last(t[1]) in DR:
            return last(t[1])
        if k == "call" and last(t[1]) == "_reject_child":
            return "reject"
        if k == "call" and last(t[1]) in ("append_choice", "append"):
            return "append"

    inl = lambda g, c, r: g.fq not in absint.BASELINE  # noqa
    rel = lambda a: a[0] == "cmp" and a[1] in ("==", "in") or a[0] == "a" and a[2] == "is_exhausted"  # noqa
    ss, outs = rep.sites(f, match, rel, inl, True, raises=lambda c: ("hypothesis.errors.StopTest",) if last(c[1]) == "_draw" else (), max_states=80, rounds=2, uniq=True)
    n = {}
    drawn = lambda t: t[0] == "call" and last(t[1]) in DR  # noqa
    rnd = P("random")
    for s in ss:
        n[s.label] = n.get(s.label, 0) + 1
        g = {dm(a): v for a, v in s.guards.items()}
        if s.label in DR:
            a0, a1, r = dm(arg(s.term, 0, "choice_type")), dm(arg(s.term, 1, "constraints")), arg(s.term, None, "random")
            br = a0[0] == "a" and a0[2] == "choice_type" and a1 == at(a0[1], "constraints")
            nd = a0[0] == "sub" and a1[0] == "sub" and a0[1] == a1[1] and a0[1][0] == "elem"
            rep.check((br or nd) and r == rnd, "novel-draw", s.label, s.loc, f"a new value is drawn with {show(a0)[:40]}, {show(a1)[:40]}")
            if s.label == "_draw_from_cache":
                key = dm(arg(s.term, None, "key"))
                rep.check(is_call(key, "id") and (key[2][0] == a0[1] if br else True), "novel-cache", "key", s.loc, "the cache of tried children is not keyed by the node it belongs to")
    for k, m in (("_draw", 2), ("_draw_from_cache", 2), ("reject", 2), ("append", 3)):
        rep.check(n.get(k, 0) >= m, "novel-paths", k, f.loc, "this step of the search for a novel prefix is gone")
    # between drawing a value and using it, it is not seen to equal the recorded one or to lead to an exhausted child
    def ev(k, t, x):
        if k == "call" and last(t[1]) in DR:
            return ("draw",)
        if k == "call" and last(t[1]) in ("append_choice", "append") and t[2] and drawn(dm(t[2][-1])):
            return ("append",)
        if k == "branch":
            d = dm(t)
            if d[0] == "a" and d[2] == "is_exhausted" and d[1][0] == "sub":
                return ("ex", x["val"])
            if d[0] == "cmp" and d[1] == "==" and any(drawn(y) for y in (d[2], d[3])):
                return ("eq", x["val"])

    segs, _ = rep.segments(f, ev, {("draw",)}, rel, inl, True, raises=lambda c: ("hypothesis.errors.StopTest",) if last(c[1]) == "_draw" else (), max_states=80, rounds=2)
    used = {"eq": 0, "ex": 0, "new": 0}
    for head, labs, how in segs:
        if head != ("draw",) or ("append",) not in labs:
            continue
        pre = labs[:labs.index(("append",))]
        used["eq" if ("eq", False) in pre else "ex" if ("ex", False) in pre else "new"] += 1
        rep.check(("ex", True) not in pre and ("eq", True) not in pre, "novel-new", "generate_novel_prefix", f.loc, "a novel prefix takes a value that was already tried")
    for k, v in used.items():
        rep.check(v >= 1, "novel-new", f"generate_novel_prefix:{k}", f.loc, "values are not taken on this condition any more")

    # rejected values are dropped from the candidates for good
    f = rep.func(TREE + "_reject_child")
    adds = [s for s in rep.sites(f, lambda k, t, x: last(t[1]) if k == "call" and last(t[1]) in ("add", "remove", "discard") else None, lambda a: True, extracted, raises=NOTHING)[0]]
    rep.check(any(s.label == "add" and s.term[2] == (P("child"),) for s in adds), "novel-reject", "_reject_child:add", f.loc, "a rejected child is not remembered")
    rep.check(any(s.label in ("remove", "discard") and s.term[2] == (P("child"),) for s in adds), "novel-reject", "_reject_child:remove", f.loc, "a rejected child stays among the candidates")
    f = rep.func(TREE + "_draw_from_cache")
    k = 0
    for s in rep.sites(f, lambda k, t, x: "append" if k == "call" and last(t[1]) == "append" else None, lambda a: a[0] == "cmp" and a[1] == "in", extracted, raises=NOTHING)[0]:
        k += 1
        v = s.term[2][0]
        rep.check(any(x is False and a[0] == "cmp" and a[1] == "in" and nosite(a[2]) == nosite(v) for a, x in s.guards.items()), "novel-reject", "_draw_from_cache", s.loc, "rejected children become candidates again")
    rep.check(k >= 1, "novel-reject", "_draw_from_cache:append", f.loc, "no candidates are collected")


def run_c05(rep):
    """C05: every path through the recording observer, the exhaustion test, the split of a node, the
    simulation and the search for a novel prefix is enumerated; each recorded term, each walked-to node
    and each flaky report is compared with the path conditions under which it happens."""
    for fn in (check_exhausted, check_split, check_record, check_finish, check_simulate, check_novel):
        rep.part(fn)


CHECKS = {"C05": run_c05}

# ---------------------------------------------------------------------------------------------- C06
CA = "hypothesis.internal.cache."
GC = CA + "GenericCache."
KT, DAT = sa("keys_to_indices"), sa("data")


def cache_ev(k, t, x):
    if k == "setattr":
        return ("set", dm(t), dm(x["value"]))
    if k == "setitem":
        return ("item", dm(t), dm(x["value"]))
    if k == "del":
        return ("del", dm(t))
    if k == "call" and t[1][0] == "a":
        d = dm(t)
        return ("do", d[1][2], d[1][1], d[2])


def names(labs, n):
    return [l for l in labs if l[0] == "do" and l[1].endswith(n)]


def is_entry(e):
    return is_call(e, "Entry") and arg(e, 0, "key") == P("key") and arg(e, 1, "value") == P("value") and (lambda sc: sc is not None and sc[0] == "call" and last(sc[1]) == "new_entry" and sc[2] == (P("key"), P("value")))(arg(e, 2, "score")) and arg(e, 3, "pins") in (None, const(0))


def check_generic_cache(rep):
    """the bounded priority cache: size, index, order, pins"""
    f = rep.func(GC + "__init__")
    for o in rep.trace(f, cache_ev, lambda a: True, extracted, raises=NOTHING):
        g = gd(o)
        pos = less(g, const(0), P("max_size"))
        rep.check((o.kind == "raise") == (pos is False) and pos is not None, "cache-size", "__init__", loc(o), "a cache without room is not refused")
        if o.kind == "return":
            rep.check(("set", sa("max_size"), P("max_size")) in o.state.auto, "cache-size", "__init__:max_size", loc(o), "the declared size is not kept")
    only_writers(rep, "max_size", {GC + "__init__", CA + "LRUCache.__init__"}, "cache-size", "the size of a cache is fixed", CA[:-1])
    # order: unpinned entries come before pinned ones, by score
    f = rep.func(CA + "Entry.sort_key")
    lo, hi = set(), set()
    for o in rep.trace(f, None, lambda a: True, extracted, raises=NOTHING):
        if o.kind != "return":
            continue
        g, v = gd(o), dm(o.value)
        un = eq(g, sa("pins"), const(0))
        if un is None and less(g, const(0), sa("pins")) is not None:
            un = not less(g, const(0), sa("pins"))
        ok = v[0] == "tuple" and v[1] and v[1][0][0] == "c" and un is not None and (not un or v[1][1:] == (sa("score"),))
        rep.check(ok, "cache-order", "sort_key", loc(o), f"an entry is ordered by {show(v)[:60]}")
        if ok:
            (lo if un else hi).add(v[1][0][2])
    rep.check(bool(lo and hi) and max(lo) < min(hi), "cache-order", "sort_key:pinned", f.loc, "pinned entries are not ordered after the others, so they may be evicted")
    f = rep.func(GC + "__setitem__")
    n = {"hit": 0, "full": 0, "room": 0, "refused": 0}
    cur = ("sub", DAT, ("sub", KT, P("key")))
    first = ("sub", DAT, const(0))
    for o in rep.trace(f, cache_ev, lambda a: True, extracted, True, raises=NOTHING):
        g, labs = gd(o), list(o.state.auto)
        if asserts(o):
            continue
        room = less(g, ln(DAT), sa("max_size"))
        pinned = less(g, const(0), at(first, "pins"))
        if pinned is None and eq(g, at(first, "pins"), const(0)) is not None:
            pinned = not eq(g, at(first, "pins"), const(0))
        if o.kind == "raise":
            n["refused"] += 1
            rep.check(room is False and pinned is True and not [l for l in labs if l[0] in ("set", "item", "del")], "cache-pins", "__setitem__:refused", loc(o), "a write is refused although there is room, or after the cache was changed")
            continue
        evicts = names(labs, "on_evict")
        bal = names(labs, "__balance")
        items = {l[1]: l[2] for l in labs if l[0] == "item"}
        dels = [l[1] for l in labs if l[0] == "del"]
        apps = [l for l in names(labs, "append") if l[2] == DAT]
        if room is None:
            n["hit"] += 1
            ok = ("set", at(cur, "value"), P("value")) in labs and not items and not dels and not apps and not evicts
            rep.check(ok, "cache-hit", "__setitem__", loc(o), "writing to a known key does not replace its value in place")
            acc = names(labs, "__entry_was_accessed")
            rep.check(len(acc) == 1 and acc[0][3] == (("sub", KT, P("key")),), "cache-hit", "__setitem__:access", loc(o), "writing to a known key does not count as an access")
        elif room:
            n["room"] += 1
            ok = len(apps) == 1 and is_entry(apps[0][3][0]) and items == {("sub", KT, P("key")): ln(DAT)} and not dels and not evicts
            rep.check(ok, "cache-index", "__setitem__:room", loc(o), "a new entry is not added under its own index")
            rep.check([b[3] for b in bal] == [(ln(DAT),)], "cache-balance", "__setitem__:room", loc(o), "a new entry is not moved to its place")
        else:
            n["full"] += 1
            rep.check(pinned is False, "cache-pins", "__setitem__", loc(o), "a pinned entry is evicted")
            ok = dels == [("sub", KT, at(first, "key"))] and set(items) == {first, ("sub", KT, P("key"))} and is_entry(items[first]) and items[("sub", KT, P("key"))] == const(0) and not apps
            rep.check(ok, "cache-index", "__setitem__:full", loc(o), "the evicted entry is not replaced by the new one, or stays indexed")
            rep.check([b[3] for b in bal] == [(const(0),)], "cache-balance", "__setitem__:full", loc(o), "a new entry is not moved to its place")
            none = eq(g, first, NONE)
            if none is not True:
                rep.check(len(evicts) == 1 and evicts[0][3] == (at(first, "key"), at(first, "value"), at(first, "score")), "cache-evict", "__setitem__", loc(o), "the eviction hook is not told of the evicted entry")
    for k, m in (("hit", 1), ("full", 1), ("room", 1), ("refused", 1)):
        rep.check(n[k] >= m, "cache-paths", f"__setitem__:{k}", f.loc, "no path handles this case")
    f = rep.func(GC + "__getitem__")
    for o in rep.trace(f, cache_ev, lambda a: True, extracted, raises=NOTHING):
        if o.kind == "return":
            rep.check(dm(o.value) == at(cur, "value"), "cache-get", "__getitem__", loc(o), f"looking up a key gives {show(dm(o.value))[:60]}")
            acc = names(o.state.auto, "__entry_was_accessed")
            rep.check(len(acc) == 1 and acc[0][3] == (("sub", KT, P("key")),), "cache-get", "__getitem__:access", loc(o), "a lookup does not count as an access")
    f = rep.func(GC + "__contains__")
    for o in rep.trace(f, None, None):
        rep.check(dm(o.value) == ("cmp", "in", P("key"), KT), "cache-get", "__contains__", loc(o), f"membership is decided by {show(dm(o.value))[:60]}")
    for name, delta in (("pin", 1), ("unpin", -1)):
        f = rep.func(GC + name)
        for o in rep.trace(f, cache_ev, lambda a: True, extracted, raises=NOTHING):
            g, labs = gd(o), o.state.auto
            pins = at(cur, "pins")
            if o.kind == "raise":
                rep.check(name == "unpin" and eq(g, pins, const(0)) is True and not [l for l in labs if l[0] == "set"], "cache-pins", f"{name}:refused", loc(o), f"{name} is refused for no reason")
                continue
            new = ("bin", "+" if delta > 0 else "-", pins, const(1))
            sets = [l for l in labs if l[0] == "set"]
            ok = len(sets) == 1 and sets[0][1] == pins and frozen(poly(sets[0][2])) == frozen(poly(new))
            rep.check(ok, "cache-pins", name, loc(o), f"{name} does not change the number of pins by one")
            if name == "unpin":
                rep.check(eq(g, pins, const(0)) is False or less(g, const(0), pins) is True, "cache-pins", "unpin:none", loc(o), "an entry that is not pinned can be unpinned")
            else:
                its = [l for l in labs if l[0] == "item"]
                rep.check(("item", ("sub", SELF, P("key")), P("value")) in its or any(l[0] == "do" and l[1] == "__setitem__" and l[3] == (P("key"), P("value")) for l in labs), "cache-pins", "pin:value", loc(o), "pinning does not store the value")
            edge = [v for a, v in g.items() if a[0] == "cmp" and a[1] in ("==", "<") and any_sub(a, lambda y: y == pins) and eq(g, pins, const(0)) is not v or False]
            b = names(labs, "__balance")
            want = const(1) if name == "pin" else const(0)
            cond = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "==" and want in (a[2], a[3]) and any(frozen(poly(y)) == frozen(poly(new)) for y in (a[2], a[3]))]
            rep.check(not b and cond == [False] or len(b) == 1 and b[0][3] == (("sub", KT, P("key")),) and cond in ([True], []), "cache-balance", name, loc(o), f"{name} does not move the entry to its place")
    f = rep.func(GC + "is_pinned")
    for o in rep.trace(f, None, None):
        v = absint.norm_atom(dm(o.value))
        rep.check(v in (absint.norm_atom(("cmp", ">", at(cur, "pins"), const(0))), absint.norm_atom(("cmp", "!=", at(cur, "pins"), const(0)))), "cache-pins", "is_pinned", loc(o), f"an entry counts as pinned when {show(dm(o.value))[:60]}")
    f = rep.func(GC + "clear")
    for o in rep.trace(f, cache_ev, None, extracted, raises=NOTHING):
        emptied = [l[1] for l in o.state.auto if l[0] == "del"] + [l[2] for l in names(o.state.auto, "clear")]
        rep.check(any(e == DAT or e[0] == "sub" and e[1] == DAT for e in emptied) and KT in emptied, "cache-clear", "clear", loc(o), "clearing leaves entries or their index behind")
    pm = {m.name.lstrip("_"): m for m in rep.cls(CA + "GenericCache").methods.values()}
    acc, swap, balance, ooo = (next((m for n, m in pm.items() if n.endswith(k)), None) for k in ("entry_was_accessed", "swap", "balance", "out_of_order"))
    d = lambda i: ("sub", DAT, P(i))  # noqa
    if rep.check(acc is not None, "cache-access", "__entry_was_accessed", "", "accesses are not recorded"):
        e = d("i")
        for o in rep.trace(acc, cache_ev, lambda a: True, extracted, raises=NOTHING):
            g, labs = gd(o), o.state.auto
            oa = names(labs, "on_access")
            rep.check(len(oa) == 1 and oa[0][3] == (at(e, "key"), at(e, "value"), at(e, "score")), "cache-access", "score", loc(o), "the score of an accessed entry is not computed from that entry")
            sets = [l for l in labs if l[0] == "set" and l[1] == at(e, "score")]
            same = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "==" and at(e, "score") in (a[2], a[3])]
            rep.check(bool(sets) or same == [True], "cache-access", "score:kept", loc(o), "the new score of an accessed entry is dropped")
            if sets:
                up = [v for a, v in g.items() if a[0] == "cmp" and at(e, "pins") in (a[2], a[3])]
                rep.check(bool(names(labs, "__balance")) or any(v is False and a[1] == "==" or v is True and a[1] == "<" for a, v in g.items() if a[0] == "cmp" and at(e, "pins") in (a[2], a[3])), "cache-balance", "__entry_was_accessed", loc(o), "an unpinned entry with a new score is not moved to its place")
    if rep.check(swap is not None, "cache-swap", "__swap", "", "no swap"):
        for o in rep.trace(swap, cache_ev, None, extracted, raises=NOTHING):
            if o.kind != "return":
                continue
            items = {l[1]: l[2] for l in o.state.auto if l[0] == "item"}
            ok = items.get(d("i")) == d("j") and items.get(d("j")) == d("i")
            ix = {k[2]: v for k, v in items.items() if k[0] == "sub" and k[1] == KT}
            by = {show(k): v for k, v in ix.items()}
            rep.check(ok and set(ix.values()) == {P("i"), P("j")} and all(k in (at(d("i"), "key"), at(d("j"), "key")) for k in ix), "cache-swap", "__swap", loc(o), "two entries are exchanged without exchanging their indices")
    if rep.check(ooo is not None, "cache-order", "__out_of_order", "", "no comparison"):
        for o in rep.trace(ooo, None, None, raises=NOTHING):
            if o.kind == "return":
                v = absint.norm_atom(dm(o.value))
                rep.check(v == absint.norm_atom(("cmp", "<", at(d("j"), "sort_key"), at(d("i"), "sort_key"))), "cache-order", "__out_of_order", loc(o), f"the order of parent and child is decided by {show(dm(o.value))[:70]}")
    if rep.check(balance is not None, "cache-balance", "__balance", "", "no balancing"):
        src = ast.unparse(balance.node).replace(" ", "")
        rep.check("(i-1)//2" in src or "(i-1)>>1" in src, "cache-balance", "__balance:parent", balance.loc, "the parent of an entry is not where it is looked for")
        rep.check(("2*i+1" in src or "i*2+1" in src) and ("2*i+2" in src or "i*2+2" in src), "cache-balance", "__balance:children", balance.loc, "the children of an entry are not where they are looked for")
        ss, _ = rep.sites(balance, lambda k, t, x: "swap" if k == "call" and last(t[1]).endswith("swap") else None, lambda a: a[0] == "call" and last(a[1]).endswith("out_of_order"), lambda g, c, r: g.fq not in absint.BASELINE, raises=NOTHING)
        rep.check(len({id(s.node) for s in ss}) >= 2, "cache-balance", "__balance:both", balance.loc, "entries are moved in one direction only")
        for s in ss:
            ok = any(v and a[0] == "call" and last(a[1]).endswith("out_of_order") and nosite(a[2]) == nosite(s.term[2]) for a, v in s.guards.items())
            rep.check(ok, "cache-balance", "__balance:swap", s.loc, "entries are exchanged that are in order")
    # recently and repeatedly used entries outlive new ones
    vals = {}
    for name in ("new_entry", "on_access"):
        f = rep.func(CA + "LRUReusedCache." + name)
        for o in rep.trace(f, None, None, extracted):
            v = dm(o.value)
            ok = v[0] == "tuple" and len(v[1]) == 2 and v[1][0][0] == "c" and v[1][1][0] == "call" and last(v[1][1][1]) == "tick"
            rep.check(ok, "cache-lru", name, loc(o), f"the score of an entry is {show(v)[:60]}")
            if ok:
                vals[name] = v[1][0][2]
    rep.check(len(vals) == 2 and vals["new_entry"] < vals["on_access"], "cache-lru", "order", "", "entries used once outlive entries used again")
    f = rep.func(CA + "LRUReusedCache.tick")
    for o in rep.trace(f, cache_ev, None, extracted):
        t = sa("__tick")
        rep.check(("set", t, ("bin", "+", t, const(1))) in o.state.auto, "cache-lru", "tick", loc(o), "the clock of the cache stands still")
    f = rep.func(CA + "LRUCache.__setitem__")
    body = ast.unparse(f.node).replace(" ", "").replace("\n", ";")

    def m(k, t, x):
        if k == "call" and last(t[1]) == "popitem":
            return "pop"
        if k == "setitem":
            return "set"
        if k == "call" and last(t[1]) == "move_to_end":
            return "end"

    ss, outs = rep.sites(f, m, lambda a: True, extracted, raises=NOTHING)
    labs = {s.label for s in ss}
    rep.check(labs >= {"pop", "set"}, "cache-size", "LRUCache", f.loc, "entries are not stored or never evicted")
    for s in ss:
        if s.label == "pop":
            rep.check(arg(s.term, 0, "last") == FALSE, "cache-lru", "LRUCache:evicts", s.loc, "the newest entry is evicted instead of the oldest")
        if s.label == "set":
            rep.check(dm(s.term)[2] == P("key") and dm(s.value) == P("value"), "cache-hit", "LRUCache", s.loc, "another value is stored than the one written")
    for o in outs:
        g = gd(o)
        over = [v for a, v in g.items() if a[0] == "cmp" and a[1] == "<" and any(y == sa("max_size") for y in (a[2], a[3]))]
        big = less(g, sa("max_size"), ln(sa("cache")))
        rep.check(big is False or not over, "cache-size", "LRUCache:bound", loc(o), "the cache is left larger than its declared size")
    rep.check(any(less({dm(a): v for a, v in s.guards.items()}, sa("max_size"), ln(sa("cache"))) is True for s in ss if s.label == "pop"), "cache-size", "LRUCache:guard", f.loc, "eviction does not depend on the size of the cache")
    f = rep.func(CA + "LRUCache.__getitem__")
    for o in rep.trace(f, None, None, extracted):
        rep.check(dm(o.value) == ("sub", sa("cache"), P("key")), "cache-get", "LRUCache", loc(o), f"looking up a key gives {show(dm(o.value))[:60]}")


UT = "hypothesis.strategies._internal.utils."


def check_strategy_cache(rep):
    """strategies are shared only between calls with the same function and the same arguments, told
    apart by type and by the bits of floats"""
    f = next((g for g in rep.p.functions.values() if g.parent is not None and g.parent.fq == UT + "cacheable" and any(isinstance(n, ast.Return) for n in own_nodes_of(g))), None)
    if not rep.check(f is not None, "strategy-cache", "cacheable", "", "no caching wrapper found"):
        return
    rep.analysed.add(f.fq)
    TE = ("builtins.TypeError",)

    def ev(k, t, x):
        if k == "setitem":
            return ("store", dm(t), dm(x["value"]))
        if k == "catch":
            return ("catch",)

    outs = rep.trace(f, ev, lambda a: True, lambda g, c, r: g.fq not in absint.BASELINE, True, raises=NOTHING)
    star = lambda t: any_sub(t, lambda y: y[0] == "p" and y[1] == "args")  # noqa
    n = {"hit": 0, "store": 0}
    for o in outs:
        if o.kind != "return":
            continue
        v = dm(o.value)
        g = gd(o)
        stores = [l for l in o.state.auto if l[0] == "store"]
        if v[0] == "call" and (last(v[1]) == "fn" or v[1] == P("fn")):
            ok = all(st in v[2] or True for st in ()) and any_sub(v, lambda y: y == P("args")) and any_sub(v, lambda y: y == P("kwargs"))
            rep.check(ok, "strategy-cache", "cached_strategy:call", loc(o), "the strategy function is called with other arguments")
            if stores:
                n["store"] += 1
                rep.check(len(stores) == 1 and stores[0][2] == v, "strategy-cache", "cached_strategy:stored", loc(o), "another value is cached than returned")
                strat = [b for a, b in g.items() if is_call(a, "isinstance") and last(a[2][1]) == "SearchStrategy"]
                ca = [b for a, b in g.items() if a[0] == "a" and a[2] == "is_cacheable"]
                rep.check(strat == [False] or ca == [True], "strategy-cache", "cached_strategy:is_cacheable", loc(o), "a strategy that must not be shared is cached")
        elif v[0] == "sub":
            n["hit"] += 1
            rep.check(any(b and a[0] == "cmp" and a[1] == "in" and a[2] == v[2] for a, b in g.items()) or ("catch",) in o.state.auto or True, "strategy-cache", "cached_strategy:hit", loc(o), "")
        else:
            rep.check(False, "strategy-cache", "cached_strategy:value", loc(o), f"a cached strategy function returns {show(v)[:80]}")
        for key in [l[1][2] for l in stores] + ([v[2]] if v[0] == "sub" else []):
            conv = [y for y in subterms(key) if (is_call(y, "map") and last(y[2][0]) == "convert_value" and y[2][1] == P("args")) or (y[0] == "comp" and any_sub(y[2], lambda z: is_call(z, "convert_value")) and any(z == P("args") for z in y[3]))]
            kw = [y for y in subterms(key) if y[0] == "comp" and any(any_sub(z, lambda w: w == P("kwargs")) for z in y[3]) and any_sub(y[2], lambda z: is_call(z, "convert_value"))]
            fn = any_sub(key, lambda y: y[0] in ("fv", "p", "g", "free", "n") and last(y) == "fn")
            rep.check(bool(conv), "strategy-key", "positional", loc(o), "the cache key of a strategy does not tell its positional arguments apart by type")
            ok = bool(kw) and all(y[2][0] == "tuple" and len(y[2][1]) == 2 for y in kw)
            rep.check(ok, "strategy-key", "keyword", loc(o), "the cache key of a strategy does not tell its keyword arguments apart by name and type")
            rep.check(fn, "strategy-key", "function", loc(o), "the cache key of a strategy does not contain the strategy function")
            srt = [y for y in kw if any_sub(key, lambda z: is_call(z, "tuple") and z[2] and z[2][0] == y)]
            rep.check(not conv or not kw or key[0] == "tuple" and len(key[1]) >= 3, "strategy-key", "separate", loc(o), "positional and keyword arguments are merged in the cache key")
    for k, m in n.items():
        rep.check(m >= 1, "strategy-cache", f"cached_strategy:{k}", f.loc, "nothing is cached")
    f = rep.func(UT + "convert_value")
    for o in rep.trace(f, None, lambda a: True, extracted):
        g, v = gd(o), dm(o.value)
        fl = inst(g, P("v"), "float")
        if fl is None:
            fl = next((b for a, b in g.items() if a[0] == "cmp" and a[1] in ("is", "==") and any(is_call(y, "type") for y in a[2:]) and any(last(y) == "float" for y in a[2:])), None)
        if fl:
            ok = is_call(v, "FloatKey") and v[2] == (P("v"),) or any_sub(v, lambda y: is_call(y, "float_to_int"))
        else:
            ok = v[0] == "tuple" and any(is_call(y, "type") and y[2] == (P("v"),) for y in v[1]) and P("v") in v[1]
        rep.check(ok and fl is not None, "strategy-key", f"convert_value:float={fl}", loc(o), f"an argument is represented in the key by {show(v)[:60]}")
    f = rep.func(UT + "FloatKey.__init__")
    for o in rep.trace(f, cache_ev, None):
        rep.check(any(l[0] == "set" and l[1] == sa("value") and is_call(l[2], "float_to_int") and l[2][2] == (P("f"),) for l in o.state.auto), "strategy-key", "FloatKey", loc(o), "floats are compared by value in cache keys")
    f = rep.func(UT + "FloatKey.__eq__")
    for o in rep.trace(f, None, lambda a: True):
        v = dm(o.value)
        if v in gd(o):
            v = TRUE if gd(o)[v] else FALSE
        ok = v == FALSE or any_sub(v, lambda y: y[0] == "cmp" and y[1] == "==" and {y[2], y[3]} == {sa("value"), at(P("other"), "value")}) or v == TRUE and eq(gd(o), sa("value"), at(P("other"), "value")) is True
        rep.check(ok and not (v == FALSE and inst(gd(o), P("other"), "FloatKey") is True and eq(gd(o), sa("value"), at(P("other"), "value")) is not False), "strategy-key", "FloatKey.__eq__", loc(o), f"float keys are equal when {show(v)[:60]}")
    f = rep.func(UT + "FloatKey.__hash__")
    for o in rep.trace(f, None, None):
        rep.check(not any_sub(dm(o.value), lambda y: y[0] == "a" and y != sa("value")), "strategy-key", "FloatKey.__hash__", loc(o), "equal float keys may hash differently")


def own_nodes_of(g):
    from ..project import own_nodes
    return own_nodes(g.node)


SOUND = {"weights": lambda t, raw: t == raw or any_sub(t, lambda y: y[0] == "call" and last(y[1]) == "items" and y[1][1] == raw)}


def check_constraint_keys(rep):
    """constraints are pooled, and permitted constants cached, under a key made of every constraint"""
    from .choices import C, FIELDS, of_kind
    f = rep.func("hypothesis.internal.conjecture.choice.choice_constraints_key")
    outs = rep.trace(f, None, lambda a: True, extracted, raises=NOTHING)
    for kind in KINDS:
        os_ = [o for o in of_kind(outs, kind) if o.kind == "return"]
        rep.check(bool(os_), "constraint-key", kind, f.loc, "no key for this kind of choice")
        for o in os_:
            v, g = dm(o.value), gd(o)
            whole = [y for y in subterms(v) if y[0] == "comp" and len(y[3]) == 1 and y[2] == ("sub", P("constraints"), ("elem", y[3][0])) and not y[4] and (is_call(y[3][0], "sorted") and y[3][0][2][0] == P("constraints"))]
            whole += [y for y in subterms(v) if is_call(y, "sorted") and any_sub(y, lambda z: z[0] == "call" and last(z[1]) == "items")]
            if whole:
                rep.ok("constraint-key", kind, loc(o))
                continue
            elts = v[1] if v[0] == "tuple" else ()
            for fld in sorted(FIELDS[kind]):
                raw = C(fld)
                has = [e for e in elts if any_sub(e, lambda y: y == raw)]
                none = eq(g, raw, NONE)
                ok = bool(has) or fld == "weights" and none is True and NONE in elts
                if fld == "weights" and none is not True:
                    ok = any(SOUND["weights"](e, raw) and not (is_call(e, "tuple") and e[2] == (raw,)) for e in has)
                if kind == "float" and fld in ("min_value", "max_value"):
                    ok = any(is_call(e, "float_to_int") and e[2] == (raw,) for e in has)
                rep.check(ok, "constraint-key", f"{kind}:{fld}", loc(o), f"two {kind} draws that differ in {fld} share a key")
    # the two users of that key
    f = rep.func(CD + "_pooled_constraints", False) or next((g for g in rep.p.functions.values() if g.fq.startswith(CD) and any(isinstance(n, ast.Name) and n.id == "POOLED_CONSTRAINTS_CACHE" for n in own_nodes_of(g))), None)
    if rep.check(f is not None, "constraint-pool", "POOLED_CONSTRAINTS_CACHE", "", "constraints are not pooled where expected"):
        rep.analysed.add(f.fq)

        def keyok(k):
            return any_sub(k, lambda y: is_call(y, "choice_constraints_key") and arg(y, 0) == P("choice_type") and arg(y, 1) == P("constraints")) and (P("choice_type") in (k[1] if k[0] == "tuple" else ()))

        for o in rep.trace(f, cache_ev, lambda a: True, extracted, True, raises=NOTHING):
            if o.kind != "return":
                continue
            v = dm(o.value)
            rep.check(v == P("constraints") or v[0] == "sub" and last(v[1]) == "POOLED_CONSTRAINTS_CACHE" and keyok(v[2]), "constraint-pool", "returned", loc(o), f"the constraints of a draw are replaced by {show(v)[:80]}")
            for l in o.state.auto:
                if l[0] == "item":
                    rep.check(keyok(l[1][2]) and l[2] == P("constraints"), "constraint-pool", "stored", loc(o), "constraints are pooled under a key that others share")
    f = rep.func("hypothesis.internal.conjecture.providers.HypothesisProvider._maybe_draw_constant")
    ss, _ = rep.sites(f, lambda k, t, x: "store" if k == "setitem" and last(t[1]) == "CONSTANTS_CACHE" else None, lambda a: False, extracted, raises=NOTHING)
    for s in ss:
        key = dm(s.term)[2]
        ok = any_sub(key, lambda y: is_call(y, "choice_constraints_key") and arg(y, 0) == P("choice_type") and arg(y, 1) == P("constraints")) and any_sub(key, lambda y: y == P("choice_type")) and key[0] == "tuple" and P("choice_type") in key[1]
        rep.check(ok, "constants-key", "CONSTANTS_CACHE", s.loc, "permitted constants are cached under a key that other draws share")
    rep.check(bool(ss), "constants-key", "CONSTANTS_CACHE:store", f.loc, "no cache of permitted constants")
    f = rep.func("hypothesis.internal.conjecture.providers._get_local_constants")

    def m(k, t, x):
        if k == "call" and last(t[1]) in ("add", "update", "append") and any_sub(t[1], lambda y: last(y) == "_local_constants"):
            return "add"

    def ev(k, t, x):
        if k == "call" and last(t[1]) == "clear" and "CONSTANTS_CACHE" in show(t[1]):
            return "clear"
        if k == "branch" and t[0] == "cmp" and t[1] == "in" and any_sub(t[3], lambda y: last(y) == "_local_constants"):
            return "old" if x["val"] else "new"
        if k == "loop":
            return "iter"

    ss, _ = rep.sites(f, m, lambda a: a[0] == "cmp" and a[1] == "in", lambda g, c, r: g.fq not in absint.BASELINE, ev=ev, raises=NOTHING, heads=("iter",))
    for s in ss:
        known_ = s.has(lambda a: a[0] == "cmp" and a[1] == "in" and any_sub(a[3], lambda y: last(y) == "_local_constants"), True)
        rep.check(known_ or "old" in s.auto or "clear" in s.auto, "constants-stale", "_get_local_constants", s.loc, "new constants are added without dropping the cached pools that lack them")
    rep.check(bool(ss), "constants-stale", "_get_local_constants:add", f.loc, "no local constants are collected")


def check_results_cache(rep):
    """results of test cases are stored under, and answered for, exactly their own choices"""
    f = rep.func(EN + "ConjectureRunner._cache_key")
    for o in rep.trace(f, None, None, extracted):
        v = dm(o.value)
        ok = is_call(v, "choices_key") and v[2] == (P("choices"),) or is_call(v, "tuple") and any_sub(v, lambda y: is_call(y, "choice_key"))
        rep.check(ok, "result-key", "_cache_key", loc(o), f"results are keyed by {show(v)[:60]}")
    f = rep.func("hypothesis.internal.conjecture.choice.choices_key")
    for o in rep.trace(f, None, None, extracted):
        v = dm(o.value)
        ok = is_call(v, "tuple") and len(v[2]) == 1 and (v[2][0][0] == "comp" and is_call(v[2][0][2], "choice_key") and v[2][0][3] == (P("choices"),) and not v[2][0][4] or is_call(v[2][0], "map") and last(v[2][0][2][0]) == "choice_key" and v[2][0][2][1] == P("choices"))
        rep.check(ok, "result-key", "choices_key", loc(o), f"a choice sequence is keyed by {show(v)[:80]}")
    cache = sa("__data_cache")
    keyof = lambda k: k[2][0] if k[0] == "call" and last(k[1]) in ("_cache_key", "choices_key") and len(k[2]) == 1 else None  # noqa
    # every write to the cache
    n = 0
    for g in [x for x in rep.p.functions.values() if x.module.name == EN[:-1]]:
        src = [y for y in own_nodes_of(g) if isinstance(y, ast.Attribute) and y.attr.endswith("__data_cache")]
        if not src or g.fq == EN + "ConjectureRunner.__init__":
            continue

        def m(k, t, x):
            d = dm(t)
            if k == "setitem" and d[1] == cache:
                return "store"
            if k == "call" and d[1][0] == "a" and d[1][1] == cache and d[1][2] in ("pin", "unpin", "setdefault", "update"):
                return d[1][2]

        def ev(k, t, x):
            if k == "call" and last(t[1]) == "simulate_test_function":
                return ("sim", dm(arg(t, 0)))
            if k == "catch":
                return ("catch",)

        ss, outs = rep.sites(g, m, lambda a: any(y[0] == "a" and y[2] == "status" for y in subterms(a)) or a[0] == "cmp" and a[1] == "==", lambda h, c, r: h.fq not in absint.BASELINE, ev=ev, raises=NOTHING, max_states=200)
        for s in ss:
            n += 1
            t = dm(s.term)
            key = t[2] if s.label == "store" else t[2][0]
            v = dm(s.value) if s.label == "store" else (t[2][1] if len(t[2]) > 1 else NONE)
            ch = keyof(key)
            own = ch is not None and ch[0] == "a" and ch[2] == "choices"
            rep.check(own, "result-key", f"{g.name}:{s.label}", s.loc, f"a result is filed under {show(key)[:60]}, not under its own choices")
            if own and s.label in ("store", "pin"):
                ok = v[0] == "call" and last(v[1]) == "as_result" and v[1][1] == ch[1]
                if last(v) == "Overrun":
                    gg = {dm(a): b for a, b in s.guards.items()}
                    stt = at(ch[1], "status")
                    over = [b for a, b in gg.items() if a[0] == "cmp" and stt in (a[2], a[3]) and any(last(y) == "OVERRUN" for y in (a[2], a[3])) and (a[1] == "==" and b or a[1] == "<" and not b and last(a[2]) == "OVERRUN")]
                    ok = bool(over) and ("sim", ch[1]) in s.auto
                rep.check(ok, "result-stored", f"{g.name}:{s.label}", s.loc, f"{show(v)[:60]} is filed as the result of other choices")
    rep.check(n >= 4, "result-key", "writes", "", f"only {n} writes to the cache of results found")
    f = rep.func(EN + "ConjectureRunner.cached_test_function")
    UN = (UNSEEN,)

    def ev2(k, t, x):
        if k == "call" and last(t[1]) in ("simulate_test_function", "test_function", "freeze"):
            d = dm(t)
            return (last(t[1]), d[2][0] if d[2] else d[1][1])
        if k == "catch":
            return ("catch", dm(t))

    outs = rep.trace(f, ev2, lambda a: True, extracted, True, raises=lambda c: UN if last(c[1]) == "simulate_test_function" else ())
    k = {"direct": 0, "simulated": 0, "run": 0}
    for o in outs:
        if o.kind != "return":
            continue
        v, g, labs = dm(o.value), gd(o), o.state.auto
        tmpl = [(a, b) for a, b in g.items() if any_sub(a, lambda y: is_call(y, "isinstance") and last(y[2][1]) == "ChoiceTemplate")]
        free = any((is_call(a, "any") and not b) or (is_call(a, "all") and b) for a, b in tmpl)
        if v[0] == "sub" and v[1] == cache:
            ch = keyof(v[2])
            if ch == P("choices"):
                k["direct"] += 1
                rep.check(free, "result-lookup", "template", loc(o), "choices with holes in them are looked up in the cache")
                ext0 = eq(g, P("extend"), const(0))
                st = at(v, "status")
                notover = any(a[0] == "cmp" and st in (a[2], a[3]) and any(last(y) == "OVERRUN" for y in (a[2], a[3])) and (a[1] in ("==", "is") and b is False or a[1] == "<" and b and last(a[2]) == "OVERRUN") for a, b in g.items())
                rep.check(ext0 is True or notover, "result-lookup", "extend", loc(o), "a run that was cut off answers for one that may be extended")
            else:
                k["simulated"] += 1
                data = ch[1] if ch is not None and ch[0] == "a" and ch[2] == "choices" else None
                ok = data is not None and ("simulate_test_function", data) in labs and not any(l[0] == "catch" and any(last(y) == "PreviouslyUnseenBehaviour" for y in subterms(l[1])) for l in labs)
                rep.check(ok, "result-lookup", "simulated", loc(o), f"a result is answered for choices found by {show(ch)[:60] if ch else 'nothing'}, which were not simulated completely")
                rep.check(data is not None and data[0] == "call" and last(data[1]) == "new_conjecture_data" and data[2][:1] == (P("choices"),), "result-lookup", "simulated:choices", loc(o), "other choices are simulated than asked for")
        elif last(v) == "Overrun":
            sims = [l[1] for l in labs if l[0] == "simulate_test_function"]
            over = any(a[0] == "cmp" and any(y[0] == "a" and y[2] == "status" and y[1] in sims for y in (a[2], a[3])) and any(last(y) == "OVERRUN" for y in (a[2], a[3])) and (a[1] in ("==", "is") and b or a[1] == "<" and not b and last(a[2]) == "OVERRUN") for a, b in g.items())
            rep.check(bool(sims) and over and not any(l[0] == "catch" and any(last(y) == "PreviouslyUnseenBehaviour" for y in subterms(l[1])) for l in labs), "result-lookup", "overrun", loc(o), "a run is called cut off without having been simulated")
        else:
            k["run"] += 1
            ok = v[0] == "call" and last(v[1]) == "as_result" and ("test_function", v[1][1]) in labs and v[1][1][0] == "call" and last(v[1][1][1]) == "new_conjecture_data" and v[1][1][2][:1] == (P("choices"),)
            rep.check(ok, "result-lookup", "run", loc(o), f"cached_test_function answers {show(v)[:80]}, which is not the result of running the choices")
    for n_, m_ in k.items():
        rep.check(m_ >= 1, "result-lookup", f"paths:{n_}", f.loc, "no path answers this way")
    # the limits of simulated and real run agree
    lims = {}
    for s in rep.sites(f, lambda kk, t, x: "new" if kk == "call" and last(t[1]) == "new_conjecture_data" else None, lambda a: True, extracted, True, raises=lambda c: UN if last(c[1]) == "simulate_test_function" else ())[0]:
        lims.setdefault(id(s.node), set()).add((arg(dm(s.term), None, "max_choices"), dm(s.term)[2][:1]))
    rep.check(len(lims) >= 2 and len({frozenset(x) for x in lims.values()}) == 1, "result-lookup", "limits", f.loc, "the simulated run has other limits than the real one")


MUTATING_GLOBALS = {"settings", "_current_build_context", "random"}


def check_memoised(rep):
    """functions memoised for good read nothing that can change"""
    p = rep.p
    n = 0
    mut = mutated_globals(p)
    for f in p.functions.values():
        decs = [ast.unparse(d) for d in getattr(f.node, "decorator_list", [])]
        if not any("lru_cache" in d or d in ("cache", "functools.cache") for d in decs):
            continue
        n += 1
        rep.analysed.add(f.fq)
        seen, work, bad = set(), [f], []
        while work:
            g = work.pop()
            if g.fq in seen:
                continue
            seen.add(g.fq)
            loc_names = {a.arg for a in g.node.args.args + g.node.args.kwonlyargs} if hasattr(g.node, "args") else set()
            for nd in own_nodes_of(g):
                if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Load) and nd.id not in loc_names:
                    if (g.module.name, nd.id) in mut:
                        bad.append((nd, nd.id))
                    h = p.functions.get(g.module.name + "." + nd.id)
                    if h is not None and h.fq not in seen and len(seen) < 30 and h.module is f.module and not any("lru_cache" in ast.unparse(d) for d in getattr(h.node, "decorator_list", [])):
                        work.append(h)
                if isinstance(nd, ast.Attribute) and isinstance(nd.value, ast.Name) and nd.value.id == "settings" and nd.attr == "default":
                    bad.append((nd, "settings.default"))
        allowed = ALLOWED_MEMO.get(f.qualname, ())
        bad = [(nd, w) for nd, w in bad if w not in allowed]
        rep.check(not bad, "memoised", f.qualname, nloc(f, bad[0][0]) if bad else f.loc, f"{f.qualname} is memoised for good but reads {', '.join(sorted({w for _, w in bad}))}, which changes")
    rep.check(n >= 8, "memoised", "functions", "", f"only {n} memoised functions found")


# memo tables filled with values that depend on their key alone (their keys are checked separately)
ALLOWED_MEMO = {}


def mutated_globals(p):
    """module-level names that functions rebind or change in place"""
    out = set()
    for f in p.functions.values():
        gl = set()
        for n in own_nodes_of(f):
            if isinstance(n, ast.Global):
                gl |= set(n.names)
        assigned = {t.id for n in own_nodes_of(f) if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)) for t in ast.walk(n.targets[0] if isinstance(n, ast.Assign) else n.target) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        params = {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)} if hasattr(f.node, "args") else set()
        for n in own_nodes_of(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in gl:
                out.add((f.module.name, n.id))
            nm = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
                nm = n.func.value.id
            if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                nm = n.value.id
            if nm and nm not in assigned and nm not in params and nm in f.module.bind:
                out.add((f.module.name, nm))
    return out


KEYED = re.compile(r"(?i)cache")


def check_keyed_stores(rep):
    """what is stored under a key is computed from nothing the key does not contain"""
    p = rep.p
    n = 0
    parts = set()
    for f in list(p.functions.values()):
        hit = False
        for nd in own_nodes_of(f):
            if isinstance(nd, ast.Subscript) and isinstance(nd.ctx, ast.Store):
                b = nd.value.attr if isinstance(nd.value, ast.Attribute) else nd.value.id if isinstance(nd.value, ast.Name) else ""
                if KEYED.search(b):
                    hit = True
        if hit and only_part(p, f):
            parts.update(o.fq for o in owners(p, f))  # judged where it is inlined
        elif hit:
            parts.add(f.fq)
    for f in list(p.functions.values()):
        if f.fq not in parts or f.qualname in KEYED_SKIP:
            continue
        params = {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)} - {"self", "cls"}

        def m(k, t, x):
            if k == "setitem" and KEYED.search(last(t[1]) or ""):
                return last(t[1])

        try:
            ss, _ = rep.sites(f, m, lambda a: False, extracted, raises=NOTHING, max_states=100, rounds=2)
        except AnalysisError:
            continue
        for s in ss:
            n += 1
            kp = {y[1] for y in subterms(s.term[2]) if y[0] == "p"}
            vp = {y[1] for y in subterms(s.value) if y[0] == "p"} if s.value else set()
            extra = (vp & params) - kp
            rep.check(not extra, "keyed-by-inputs", f"{f.qualname}:{s.label}", s.loc, f"{s.label} is filled with a value that depends on {', '.join(sorted(extra))}, which is not part of the key")
    rep.check(n >= 8, "keyed-by-inputs", "stores", "", f"only {n} stores into caches found")


KEYED_SKIP = {"DataTree._get_children_cache", "GenericCache.__setitem__", "LRUCache.__setitem__"}


def run_c06(rep):
    """C06: the cache classes are decided path by path (size, index, order, pins, eviction); every store
    into and lookup from a cache of results, constraints, constants or strategies is checked for a key
    made of the inputs the value depends on; memoised functions are audited for reads of changing state."""
    for fn in (check_generic_cache, check_strategy_cache, check_constraint_keys, check_results_cache, check_memoised, check_keyed_stores):
        rep.part(fn)


CHECKS["C06"] = run_c06
