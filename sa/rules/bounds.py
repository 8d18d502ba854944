"""S07: bounds go unchanged from the arguments of a strategy to its draws."""
from __future__ import annotations

from ..lib import *
from .choices import NOTHING, P, SELF, extracted, lt
from .filters import call_, is_inf, kw_of, truth
from .strat import closure, fz
from .tree import at, dm, eq, gd, inst, less, ln, sa, val

ST = "hypothesis.strategies._internal."
NU, DTM, TX, CO, IP = ST + "numbers.", ST + "datetime.", ST + "strings.", ST + "core.", ST + "ipaddress."
CDATA = "hypothesis.internal.conjecture.data.ConjectureData."
DATA = P("data")
FL = "hypothesis.internal.floats."
CAP = ("g", "hypothesis.internal.conjecture.providers.COLLECTION_DEFAULT_MAX_SIZE")


def paths(rep, fq, ev=None, **kw):
    f = rep.func(fq)
    kw.setdefault("raises", NOTHING)
    inline = kw.pop("inline", extracted)
    return f, rep.trace(f, ev, kw.pop("relevant", lambda a: True), inline, **kw)


def results(rep, fq, ev=None, **kw):
    """(outcome, path conditions, value) of every normal path"""
    f, outs = paths(rep, fq, ev, **kw)
    got = [(o, gd(o), dm(o.value)) for o in outs if o.kind == "return"]
    rep.check(bool(got), "returns", f.qualname, f.loc, f"{f.qualname} never returns")
    return f, got


def check_stored(rep):
    """each bounded strategy keeps exactly the bounds it was made with"""
    def kept(cls, *attrs):
        fq = cls + ".__init__"
        ev = lambda k, t, x: ("set", t[2], dm(x["value"])) if k == "setattr" and t[1] == SELF and t[2] in dict(attrs) else None  # noqa
        f, outs = paths(rep, fq, ev, cap=60)
        for o in outs:
            if o.kind != "return":
                continue
            last_ = {l[1]: l[2] for l in o.state.auto if isinstance(l, tuple) and l[0] == "set"}
            g = gd(o)
            for a, want in attrs:
                v = last_.get(a)
                w = want(g) if callable(want) else want
                rep.check(v is not None and v == w, "stored", f"{cls.rsplit('.', 1)[1]}.{a}", f.loc, f"{a} is {show(v) if v else 'not set'}, the argument is {show(w)}")
        for a, _ in attrs:
            only_writers(rep, a, {fq, TX + "_string_filter_rewrite"}, "bound-writer", "the bounds of a strategy never change", module=cls.rsplit(".", 1)[0], cls=cls.rsplit(".", 1)[1])

    kept(NU + "IntegersStrategy", ("start", P("start")), ("end", P("end")))
    kept(NU + "FloatStrategy", *((a, P(a)) for a in ("min_value", "max_value", "allow_nan", "smallest_nonzero_magnitude")))
    kept(DTM + "DateStrategy", ("min_value", P("min_value")), ("max_value", P("max_value")))
    kept(DTM + "TimedeltaStrategy", ("min_value", P("min_value")), ("max_value", P("max_value")))
    kept(DTM + "TimeStrategy", ("min_value", P("min_value")), ("max_value", P("max_value")), ("tz_strat", P("timezones_strat")))
    kept(DTM + "DatetimeStrategy", ("min_value", P("min_value")), ("max_value", P("max_value")), ("tz_strat", P("timezones_strat")), ("allow_imaginary", P("allow_imaginary")))
    kept(TX + "OneCharStringStrategy", ("intervals", P("intervals")))
    kept(TX + "BytesStrategy", ("min_size", P("min_size")), ("max_size", lambda g: CAP if eq(g, P("max_size"), NONE) else P("max_size")))


def drawn(t, kind):
    return is_call(t, "draw_" + kind) and t[1][0] == "a" and t[1][1] == DATA


def check_drawn(rep):
    """each draw is made with the bounds of its strategy"""
    def one(fq, kind, extra=(), **want):
        f, got = results(rep, fq)
        pos = {"integer": ("min_value", "max_value"), "float": ("min_value", "max_value"), "string": ("intervals",), "bytes": ("min_size", "max_size")}[kind]
        for o, g, v in got:
            if not rep.check(drawn(v, kind), "draw", f.qualname, loc(o), f"{f.qualname} returns {show(v)[:80]} instead of a drawn value"):
                continue
            for n, w in want.items():
                a = kw_of(v, n, pos.index(n) if n in pos else None)
                w = w(g, f) if callable(w) else w
                rep.check(a is not None and a == w, "draw", f"{f.qualname}:{n}", loc(o), f"{n} of the draw is {show(a)[:60] if a else 'left out'}, expected {show(w)[:60]}")
            names = {k for k, _ in v[3]} | set(pos[:len(v[2])])
            rep.check(names <= set(want) | set(extra), "draw", f"{f.qualname}:others", loc(o), f"the draw has further arguments: {sorted(names - set(want))}")
        return f, got

    s, e = sa("start"), sa("end")
    f, got = one(NU + "IntegersStrategy.do_draw", "integer", ("weights",), min_value=s, max_value=e)
    for o, g, v in got:
        w = kw_of(v, "weights") if v[0] == "call" else None
        if w is None or w == NONE:
            continue
        if not rep.check(w[0] == "dict", "weights", "dict", loc(o), "weights that are not understood"):
            continue
        # the weighted values lie within the bounds: start + k and end - k with k below a proven width
        width = -1
        for k, b in g.items():
            if k[0] == "cmp" and k[1] == "<" and b:
                p = poly(("bin", "-", k[3], k[2]))  # k[2] < k[3]
                c = p.get((), 0)
                rest = {m: x for m, x in p.items() if m != ()}
                if rest == poly(("bin", "-", e, s)):
                    width = max(width, 1 - c)
        for k, x in w[1]:
            a, b = poly(("bin", "-", k, s)), poly(("bin", "-", e, k))
            d = a.get((), 0) if not set(a) - {()} else b.get((), 0) if not set(b) - {()} else None
            rep.check(d is not None and 0 <= d <= width, "weights", f"{show(k)}", loc(o), f"the weighted value {show(k)} may be out of bounds")
    one(NU + "FloatStrategy.do_draw", "float", **{a: sa(a) for a in ("min_value", "max_value", "allow_nan", "smallest_nonzero_magnitude")})
    one(TX + "BytesStrategy.do_draw", "bytes", min_size=sa("min_size"), max_size=sa("max_size"))
    one(TX + "OneCharStringStrategy.do_draw", "string", min_size=const(1), max_size=const(1), intervals=sa("intervals"))
    # text: either the string draw with the intervals of the element strategy, or the joined list draw
    f, got = results(rep, TX + "TextStrategy.do_draw")
    el = call_(ST + "lazy.unwrap_strategies", sa("element_strategy"))
    seen = set()
    for o, g, v in got:
        i = inst(g, el, "OneCharStringStrategy")
        if drawn(v, "string"):
            seen.add("direct")
            rep.check(i is True and kw_of(v, "intervals", 0) == at(el, "intervals"), "draw", "text:intervals", loc(o), "text is drawn from other characters than those of its alphabet")
            rep.check(kw_of(v, "min_size") == sa("min_size"), "draw", "text:min_size", loc(o), "text is drawn with another min_size")
            inf = any(v2 for k, v2 in g.items() if k[0] == "cmp" and k[1] == "==" and sa("max_size") in k[2:4] and any(is_inf(z, 1) for z in k[2:4]))
            ms = kw_of(v, "max_size")
            rep.check(ms == (CAP if inf else sa("max_size")), "draw", "text:max_size", loc(o), f"text is drawn with max_size {show(ms) if ms else 'left out'}")
        else:
            seen.add("joined")
            ok = is_call(v, "join") and v[1] == at(const(""), "join") and len(v[2]) == 1 and is_call(v[2][0], "do_draw") and v[2][0][2] == (DATA,) and "super" in show(v[2][0])
            rep.check(ok, "draw", "text:joined", loc(o), f"text is {show(v)[:80]}, not the joined characters of the list draw")
    rep.check(seen == {"direct", "joined"}, "draw", "text:both", f.loc, f"text is only drawn {seen}")


def check_entries(rep):
    """the draw functions record every argument as the constraint of the same name"""
    want = {
        "integer": ("min_value", "max_value", "weights", "shrink_towards"),
        "float": ("min_value", "max_value", "allow_nan", "smallest_nonzero_magnitude"),
        "string": ("intervals", "min_size", "max_size"),
        "bytes": ("min_size", "max_size"),
        "boolean": ("p",),
    }
    for kind, names in want.items():
        f, got = results(rep, CDATA + "draw_" + kind)
        a = f.node.args
        for n in names:
            rep.check(n in {x.arg for x in a.args + a.kwonlyargs}, "entry", f"draw_{kind}:{n}", f.loc, f"draw_{kind} does not take {n}")
        for o, g, v in got:
            ok = is_call(v, "_draw") and v[1][1] == SELF and v[2][:1] == (const(kind),)
            if not rep.check(ok, "entry", f"draw_{kind}", loc(o), f"draw_{kind} returns {show(v)[:80]}"):
                continue
            c = kw_of(v, "constraints", 1)
            if c is not None and is_call(c, "_pooled_constraints"):
                rep.check(kw_of(c, "choice_type", 0) == const(kind), "entry", f"draw_{kind}:pool", loc(o), "the constraints are pooled under another kind")
                c = kw_of(c, "constraints", 1)
            d = {k[2]: x for k, x in c[1] if k[0] == "c"} if c is not None and c[0] == "dict" else {}
            rep.check(d == {n: P(n) for n in names}, "entry", f"draw_{kind}:constraints", loc(o), f"draw_{kind} records {{{', '.join(f'{k}: {show(x)[:30]}' for k, x in d.items())}}}")
            rep.check(kw_of(v, "forced") == P("forced") and kw_of(v, "observe") == P("observe"), "entry", f"draw_{kind}:forced", loc(o), "the forced value or the observe flag is not passed on")


def check_parts(rep):
    """dates, times and durations: each part is drawn between the parts of the bounds as long as the earlier parts
    are equal to those of the bound"""
    # the loop is judged through its variables at the loop head: two flags that start true
    for fq, low_end, high_end, start, stop, names in (
            (DTM + "draw_capped_multipart", "datetime.datetime.min", "datetime.datetime.max", P("min_value"), P("max_value"), None),
            (DTM + "TimedeltaStrategy.do_draw", "datetime.timedelta.min", "datetime.timedelta.max", sa("min_value"), sa("max_value"), ("days", "seconds", "microseconds"))):
        f = rep.func(fq)
        judge_parts(rep, f, low_end, high_end, start, stop, names)
    # what is built from the parts
    f, got = results(rep, DTM + "TimedeltaStrategy.do_draw", items=True)
    for o, g, v in got:
        rep.check(is_call(v, "timedelta") and not v[2] and len(v[3]) == 1 and v[3][0][0] == "**", "built", "timedelta", loc(o), f"a timedelta is built as {show(v)[:60]}")


def judge_parts(rep, f, low_end, high_end, start, stop, names):
    """one iteration over the parts from an arbitrary state of the two flags that say whether the earlier parts equal
    those of the bounds: what is drawn, and what the flags become"""
    who = f.qualname

    def ev(k, t, x):
        if k in ("enter", "back"):
            return (k, frozenset((n, dm(v)) for n, v in x["values"].items()), frozenset(gd_of(x["st"]).items()))
        if k == "loop":
            return ("loop",)
        if k == "call" and is_call(t, "draw_integer"):
            return ("draw", dm(t))
        if k == "setitem":
            return ("put", dm(t), dm(x["value"]))
        return None

    segs, outs = rep.segments(f, ev, (("loop",),), lambda a: True, extracted, raises=NOTHING, rounds=2, max_states=4000, cap=60)
    steps = []
    starts = {}
    for head, labs, how in segs:
        for l in labs:
            if l[0] == "enter":
                starts.update(dict(l[1]))
        back = next((l for l in labs if l[0] == "back"), None)
        if head == ("loop",) and back is not None:
            steps.append(([l for l in labs[:labs.index(back)]], dict(back[1]), dict(back[2])))
        elif head == ("loop",):
            for l in labs:
                if l[0] == "draw":
                    rep.check(l[1][2] == (const(0), const(1)), "parts", f"{who}:fold", f.loc, f"another draw is made: {show(l[1])[:80]}")
                if l[0] == "put":
                    rep.check(l[1][0] == "sub" and l[1][2] == const("fold"), "parts", f"{who}:fold", f.loc, f"another part is stored: {show(l[1])[:80]}")
    flags = sorted({n for _, vals, _ in steps for n in vals if n in starts and any(k[:2] == ("phi", n) for _, _, g in steps for k in g)})
    rep.check(len(steps) >= 4, "parts", f"{who}:iterations", f.loc, "the loop over the parts was not found")
    best = None
    for lf in flags:
        for hf in flags:
            bad = [y for st in steps for y in judge_step(st, lf, hf, low_end, high_end, start, stop)]
            for n, b in ((lf, "lower"), (hf, "upper")):
                if starts.get(n) != TRUE:
                    bad.append(("start", f"the first part is not drawn at the {b} bound"))
            if best is None or len(bad) < len(best):
                best = bad
    if not rep.check(best is not None, "parts", f"{who}:flags", f.loc, "no flag says whether the earlier parts are at the bounds"):
        return
    for r in ("draw", "stored", "low", "high", "day", "tight-low", "tight-high", "start"):
        ms = sorted({m for k, m in best if k == r})
        rep.check(not ms, "parts", f"{who}:{r}", f.loc, "; ".join(ms)[:300])


def judge_step(step, lf, hf, low_end, high_end, start, stop):
    labs, vals, g = step

    def flag(n):
        return next((v for k, v in g.items() if k[:2] == ("phi", n)), None)
    draws = [l[1] for l in labs if l[0] == "draw"]
    puts = [(l[1], l[2]) for l in labs if l[0] == "put"]
    if len(draws) != 1:
        yield "draw", f"{len(draws)} draws are made for one part"
        return
    d = draws[0]
    lo, hi = kw_of(d, "min_value", 0), kw_of(d, "max_value", 1)
    keys = [t[2] for t, v in puts if v == d and t[0] == "sub"]
    if len(puts) != 1 or not keys or keys[0][0] != "elem":
        yield "stored", "the drawn value is not stored under the name of its part"
        return
    n = keys[0]
    at_low, at_high = flag(lf), flag(hf)
    get = lambda b: {call_("builtins.getattr", b, n), call_("getattr", b, n)}  # noqa
    lows = {False: get(("g", low_end)), True: get(start)}
    highs = {False: get(("g", high_end)), True: get(stop)}
    if at_low is None or lo not in lows[at_low]:
        yield "low", f"a part is drawn from {show(lo)[:60]} where the earlier parts are {'at' if at_low else 'above'} the lower bound" if at_low is not None else "the lower end does not depend on the earlier parts"
    day = eq(g, n, const("day"))
    month = hi is not None and hi[0] == "sub" and hi[2] == const(1) and is_call(hi[1], "monthrange")
    if at_high is None:
        yield "high", "the upper end does not depend on the earlier parts"
    elif month:
        if day is not True or at_high:
            yield "day", "the length of the month is used for something else than the day below the upper bound"
    elif hi not in highs[at_high]:
        yield "high", f"a part is drawn up to {show(hi)[:60]} where the earlier parts are {'at' if at_high else 'below'} the upper bound"
    elif not at_high and day is not False and "timedelta" not in high_end:
        yield "day", "a day below the upper bound is not limited by the length of the month"
    for name, at_, b, r in ((lf, at_low, lo, "tight-low"), (hf, at_high, hi, "tight-high")):
        v = vals.get(name)
        e = eq(g, d, b)
        if v is not None and v[:2] == ("phi", name):
            got = at_
        elif v in (TRUE, FALSE):
            got = v == TRUE
        elif v is not None and v[0] == "cmp" and v[1] == "==" and set(v[2:4]) == {d, b}:
            got = e if e is not None else "eq"
        else:
            got = None
        want = False if at_ is False else e if e is not None else "eq"
        if got != want:
            yield r, f"after a part {'at' if at_ else 'off'} the {'lower' if b == lo else 'upper'} bound, with the drawn value {'equal to' if e else 'different from' if e is False else 'not compared with'} it, the next part is taken to be {'at the bound' if got is True else 'off the bound' if got is False else 'undecided'}"


def gd_of(st):
    return {dm(a): v for a, v in st.guards}


CHECKS = {}


def check_dates(rep):
    """dates(), times(), datetimes() and timedeltas() hand their bounds on, or the only value there is"""
    for fn, cls, args in (("dates", "DateStrategy", ("min_value", "max_value")), ("timedeltas", "TimedeltaStrategy", ("min_value", "max_value")),
                          ("times", "TimeStrategy", ("min_value", "max_value", "timezones")), ("datetimes", "DatetimeStrategy", ("min_value", "max_value", "timezones", "allow_imaginary"))):
        f, got = results(rep, DTM + fn)
        names = [{"timezones_strat": "timezones"}.get(x.arg, x.arg) for x in rep.func(DTM + cls + ".__init__").node.args.args[1:]]
        built = False
        for o, g, v in got:
            if is_call(v, "just") or is_call(v, "JustStrategy", "SampledFromStrategy", "sampled_from"):
                one = v[2][0] if v[2] else None
                one = one[1][0] if one is not None and one[0] in ("tuple", "list") and len(one[1]) == 1 else one
                rep.check(one in (P("min_value"), P("max_value")) and eq(g, P("min_value"), P("max_value")) is True and len(args) == 2, "factory", f"{fn}:single", loc(o), f"{fn}() always gives {show(one)[:40]} although the bounds may differ")
                continue
            if not rep.check(is_call(v, cls), "factory", fn, loc(o), f"{fn}() returns {show(v)[:60]}"):
                continue
            built = True
            given = dict(zip(names, v[2]))
            given.update({{"timezones_strat": "timezones"}.get(k, k): x for k, x in v[3]})
            for a in args:
                rep.check(given.get(a) == P(a), "factory", f"{fn}:{a}", loc(o), f"{a} of {fn}() is passed on as {show(given[a])[:40] if a in given else 'nothing'}")
        rep.check(built, "factory", f"{fn}:built", f.loc, f"{fn}() never builds its strategy")
    for cls, kind in (("DateStrategy", "date"), ("TimeStrategy", "time")):
        f, got = results(rep, DTM + cls + ".do_draw")
        for o, g, v in got:
            ok = is_call(v, kind) and not v[2] and any(k == "**" and is_call(x, "draw_capped_multipart") for k, x in v[3])
            if rep.check(ok, "built", cls, loc(o), f"{cls} returns {show(v)[:80]}"):
                m = dict(v[3])["**"]
                rep.check(m[2][:3] == (DATA, sa("min_value"), sa("max_value")), "built", f"{cls}:bounds", loc(o), f"the parts are drawn between {show(m)[:80]}")
                nm = kw_of(m, "duration_names", 3)
                want = "DATENAMES" if kind == "date" else "TIMENAMES"
                rep.check(nm == ("g", DTM + want), "built", f"{cls}:names", loc(o), f"the parts are {show(nm) if nm else 'the default ones'}")
                if kind == "time":
                    tz = dict(v[3]).get("tzinfo")
                    rep.check(tz is not None and is_call(tz, "draw") and tz[2] == (sa("tz_strat"),), "built", f"{cls}:tz", loc(o), "the timezone is not the drawn one")
    f, got = results(rep, DTM + "DatetimeStrategy.draw_naive_datetime_and_combine")
    for o, g, v in got:
        ok = is_call(v, "replace_tzinfo") and v[2] and is_call(v[2][0], "datetime") and [k for k, _ in v[2][0][3]] == ["**"] and kw_of(v, "timezone", 1) == P("tz")
        m = dict(v[2][0][3])["**"] if ok else None
        rep.check(ok and is_call(m, "draw_capped_multipart") and m[2] == (DATA, sa("min_value"), sa("max_value")) and not m[3], "built", "DatetimeStrategy", loc(o), f"a datetime is built as {show(v)[:100]}")
    f, got = results(rep, DTM + "DatetimeStrategy.do_draw", noreturn=lambda c, g: last(c[1]) == "mark_invalid")
    for o, g, v in got:
        ok = is_call(v, "draw_naive_datetime_and_combine") and v[2][0] == DATA and is_call(v[2][1], "draw") and v[2][1][2] == (sa("tz_strat"),)
        rep.check(ok, "built", "DatetimeStrategy:result", loc(o), f"datetimes() gives {show(v)[:100]}")
        rep.check(val(g, sa("allow_imaginary")) is True or val(g, call_(DTM + "datetime_does_not_exist", v)) is False, "built", "DatetimeStrategy:imaginary", loc(o), "an imaginary time may be given although allow_imaginary is false")
    for n, want in (("DATENAMES", ("year", "month", "day")), ("TIMENAMES", ("hour", "minute", "second", "microsecond"))):
        b = rep.p.modules[DTM[:-1]].bind.get(n)
        x = b[1] if b and b[0] == "var" else None
        try:
            got = ast.literal_eval(x.value if isinstance(x, (ast.Assign, ast.AnnAssign)) else x)
        except Exception:
            got = None
        if got is not None:
            rep.check(tuple(got) == want, "built", n, "", f"{n} is {got}")


def check_integers(rep):
    """integers() passes on the bounds as integers"""
    f, got = results(rep, NU + "integers")
    for o, g, v in got:
        if not rep.check(is_call(v, "IntegersStrategy"), "factory", "integers", loc(o), f"integers() returns {show(v)[:60]}"):
            continue
        for i, (a, n) in enumerate((("min_value", "start"), ("max_value", "end"))):
            x, p = kw_of(v, n, i), P(a)
            if eq(g, p, NONE) is True:
                ok = x in (p, NONE)
            else:
                it = call_("builtins.int", p)
                ok = eq(g, p, NONE) is False and (x == it or x == p) and eq(g, p, it) is True
            rep.check(ok, "factory", f"integers:{a}", loc(o), f"{a} of integers() becomes {show(x)[:60] if x else 'nothing'}")


def check_floats(rep):
    """floats(): exclusion, infinities, nan and subnormals, for each side and for both"""
    fq = NU + "floats"
    W = P("width")
    other = {"min": "max", "max": "min"}
    MIN, MAX, AI, AS, AN = P("min_value"), P("max_value"), P("allow_infinity"), P("allow_subnormal"), P("allow_nan")
    arg_ = {"min": MIN, "max": MAX}
    SMALL = ("g", FL + "SMALLEST_SUBNORMAL")
    NORM = ("sub", ("g", FL + "width_smallest_normals"), W)

    def strategy(o, g, v):
        """the FloatStrategy behind the value, and the downcast exactly for narrow floats"""
        narrow = less(g, W, const(64))
        if narrow is None:
            narrow = {False: True, True: False}.get(eq(g, W, const(64)))
        inner = v
        if is_call(v, "map") and v[1][0] == "a":
            inner = v[1][1]
            rep.check(len(v[2]) == 1 and downcasts(v[2][0]), "floats", "downcast", loc(o), "the drawn value is mapped by something else than the conversion to the width")
        rep.check(narrow is (inner is not v), "floats", "width", loc(o), "values are converted to the width exactly if it is below 64")
        if rep.check(is_call(inner, "FloatStrategy"), "floats", "strategy", loc(o), f"floats() returns {show(v)[:80]}"):
            return inner
        return None

    known = {}

    def downcasts(t):
        if t in known:
            return known[t]
        h = closure(rep, t)
        ok = h is not None
        if ok:
            x = P(h.node.args.args[0].arg)
            for o in rep.trace(h, None, lambda a: True, extracted, raises=NOTHING):
                if o.kind == "return":
                    r = dm(o.value)
                    ok = ok and is_call(r, "float_of") and r[2][0] == x and kw_of(r, "width", 1) is not None and last_name(kw_of(r, "width", 1)) == "width"
        known[t] = ok
        return ok

    def sub_ok(t, g):
        """the value of allow_subnormal that the step over an excluded bound assumes: True unless it was refused"""
        assumed = eq(g, AS, NONE) is True or val(g, AS) is True
        if t == TRUE:
            return assumed
        if t == FALSE:
            return not assumed
        return t == AS and eq(g, AS, NONE) is False

    def base(s, g):
        """the bound of side s that is in force on this path, or None if undecided"""
        p = arg_[s]
        if eq(g, p, NONE) is True:
            return ("inf",)
        b0 = call_(FL + "float_of", p, W)
        ex = val(g, P("exclude_" + s))
        step = "next_up_normal" if s == "min" else "next_down_normal"
        if ex or (less(g, b0, p) if s == "min" else less(g, p, b0)) is True:
            return (step, b0, p)
        return ("is", b0)

    def is_step(t, step, b0, p, g):
        """next_up_normal(b0), applied once more where the first step only changed the sign of zero"""
        def once(t):
            return is_call(t, step) and kw_of(t, "width", 1) == W and kw_of(t, "allow_subnormal", 2) is not None and sub_ok(kw_of(t, "allow_subnormal", 2), g)
        if not once(t):
            return False
        inner = t[2][0]
        if inner == b0:
            return eq(g, t, p) is False or eq(g, t, p) is None and (less(g, t, p) is False or less(g, p, t) is not None)
        return once(inner) and inner[2][0] == b0 and eq(g, inner, p) is True

    def matches(t, s, g):
        """t is the bound in force on side s, with infinities cut off where they are not allowed"""
        sign = -1 if s == "min" else 1
        cut = call_(FL + ("next_up" if s == "min" else "next_down"))
        b = base(s, g)

        def plain(t):
            if is_inf(t, sign):
                # unbounded, or the bound is itself the infinity of this side
                if b[0] == "inf":
                    return True
                cands = {x for k, v in g.items() if v and k[0] == "cmp" and k[1] in ("==", "is") and any(is_inf(z, sign) for z in k[2:4]) for x in k[2:4]}
                return any(x == b[1] if b[0] == "is" else is_step(x, *b, g) for x in cands)
            if b[0] == "inf":
                return False
            return t == b[1] if b[0] == "is" else is_step(t, *b, g)
        if is_call(t, "max" if s == "min" else "min") and len(t[2]) == 2 and not t[3]:
            c = [x for x in t[2] if is_call(x, "next_up" if s == "min" else "next_down") and len(x[2]) == 1 and not x[3] and is_inf(x[2][0], sign)]
            r = [x for x in t[2] if x not in c]
            return len(c) == 1 and len(r) == 1 and plain(r[0]), True
        return plain(t), False

    def infinite(g, lo, hi):
        """are infinities allowed: as asked, else unless both sides are bounded"""
        if eq(g, AI, NONE) is True:
            return lo == "inf" or hi == "inf"
        return val(g, AI)

    def unreal(g):
        """conditions no call satisfies: None compares equal to a number, or a value both is and is not None"""
        for k, b in g.items():
            if k[0] == "cmp" and k[1] in ("==", "is") and b and NONE in k[2:4]:
                x = k[3] if k[2] == NONE else k[2]
                if x[0] != "p" or val(g, ("cmp", "==", x, NONE), ("cmp", "==", NONE, x)) is False or val(g, ("cmp", "is", x, NONE)) is False:
                    return True
        return False

    def judge(o, g, v, side):
        if unreal(g):
            return None
        if side in other:
            g[("cmp", "is", arg_[other[side]], NONE)] = True
        m = strategy(o, g, v)
        if m is None:
            return
        lo, hi = kw_of(m, "min_value"), kw_of(m, "max_value")
        if not rep.check(lo is not None and hi is not None, "floats", f"{side}:bounds", loc(o), "a bound is not passed on"):
            return
        cuts, ends = [], []
        for s, t in (("min", lo), ("max", hi)):
            ok, cut = matches(t, s, g)
            cuts.append(cut)
            rep.check(ok, "floats", f"{side}:{s}_value", loc(o), f"{s}_value of floats() becomes {show(t)[:110]} (exclude_{s} {val(g, P('exclude_' + s))})")
            x = next((z for z in t[2] if not is_call(z, "next_up", "next_down")), t) if cut else t
            ends.append("inf" if is_inf(x, -1 if s == "min" else 1) else "fin")
        want = infinite(g, *ends)
        if want is not None:
            rep.check(cuts == [not want] * 2, "floats", f"{side}:infinity", loc(o), f"infinities are {'cut off' if cuts[0] else 'kept'} on a path where they are {'allowed' if want else 'not allowed'}")
        else:
            rep.check(False, "floats", f"{side}:infinity", loc(o), "whether infinities are generated does not depend on allow_infinity")
        n = kw_of(m, "smallest_nonzero_magnitude")
        asked = None if eq(g, AS, NONE) is True else val(g, AS)
        if asked is None and eq(g, AS, NONE) is True:
            # allowed if the interval reaches below the smallest normal
            def inside(s, t):
                x = next((z for z in t[2] if not is_call(z, "next_up", "next_down")), t) if is_call(t, "min", "max") else t
                if is_inf(x, -1 if s == "min" else 1):
                    return True
                return less(g, x, NORM) if s == "min" else less(g, ("un", "-", NORM), x)
            a, b = inside("min", lo), inside("max", hi)
            bl, bh = base("min", g)[-1], base("max", g)[-1]
            if "inf" not in (bl, bh) and eq(g, base("min", g)[1], base("max", g)[1]):
                # one value: it may be compared under either name
                x, y = base("min", g)[1], base("max", g)[1]
                a = next((r for r in (less(g, z, NORM) for z in (x, y)) if r is not None), a)
                b = next((r for r in (less(g, ("un", "-", NORM), z) for z in (x, y)) if r is not None), b)
            asked = False if a is False or b is False else True if a and b else None
        if asked is None:
            rep.check(eq(g, AS, NONE) is None, "floats", f"{side}:subnormal", loc(o), "whether subnormals are generated is not decided by the bounds")
            return
        rep.check(n == (SMALL if asked else NORM), "floats", f"{side}:subnormal", loc(o), f"the smallest magnitude is {show(n)[:60]} where subnormals are {'allowed' if asked else 'not allowed'}")
        return m

    for s in ("min", "max"):
        f, got = results(rep, fq, max_states=30000, params={other[s] + "_value": NONE, "exclude_" + other[s]: FALSE, "allow_nan": FALSE})
        for o, g, v in got:
            m = judge(o, g, v, s)
            if m is not None:
                rep.check(kw_of(m, "allow_nan") == FALSE, "floats", f"{s}:nan", loc(o), f"allow_nan becomes {show(kw_of(m, 'allow_nan'))[:40]}")
    f, got = results(rep, fq, max_states=60000, params={"exclude_min": FALSE, "exclude_max": FALSE, "allow_nan": FALSE, "width": const(64)})
    for o, g, v in got:
        if eq(g, MIN, NONE) is False and eq(g, MAX, NONE) is False:
            g = dict(g)
            judge64(rep, judge, o, g, v)
    f, got = results(rep, fq, max_states=20000, params={"min_value": NONE, "max_value": NONE, "exclude_min": FALSE, "exclude_max": FALSE})
    for o, g, v in got:
        m = v[1][1] if is_call(v, "map") else v
        n = kw_of(m, "allow_nan") if is_call(m, "FloatStrategy") else None
        want = TRUE if eq(g, AN, NONE) is True else AN
        rep.check(n == want or want == AN and n == const(bool(val(g, AN))) and val(g, AN) is not None or want == TRUE and is_call(n, "bool"), "floats", "nan:unbounded", loc(o), f"allow_nan becomes {show(n)[:60] if n else None}")
    for s in ("min", "max"):
        f, outs = paths(rep, fq, max_states=30000, params={other[s] + "_value": NONE, "exclude_" + other[s]: FALSE, "exclude_" + s: FALSE, "allow_infinity": NONE, "allow_subnormal": NONE, "width": const(64)})
        for o in outs:
            g = gd(o)
            if o.kind != "return" or unreal(g) or eq(g, arg_[s], NONE) is not False:
                continue
            v = dm(o.value)
            n = kw_of(v, "allow_nan") if is_call(v, "FloatStrategy") else None
            rep.check(n == FALSE or n == AN and val(g, AN) is False or is_call(n, "bool") and eq(g, AN, NONE) is True, "floats", f"nan:{s}", loc(o), f"nan may be generated although {s}_value is given")


def judge64(rep, judge, o, g, v):
    # constant width: the table of smallest normals is indexed with 64
    def sub64(t):
        if not isinstance(t, tuple):
            return t
        if t == const(64):
            return P("width")
        return tuple(sub64(x) for x in t)
    g2 = {sub64(k): b for k, b in g.items()}
    g2[("cmp", "<", P("width"), const(64))] = False
    judge(o, g2, sub64(v), "both")


def last_name(t):
    return t[1] if t[0] in ("p", "free", "v") else last(t) if t[0] in ("g", "a") else t[-1] if isinstance(t[-1], str) else None


def const_of(t):
    return t[2] if isinstance(t, tuple) and t[:1] == ("c",) else None


def check_text(rep):
    """text() and binary() hand on their sizes, and text() draws from exactly its alphabet"""
    A, MS, XS = P("alphabet"), P("min_size"), P("max_size")
    f, got = results(rep, CO + "text", max_states=4000)
    cs = call_(ST + "lazy.unwrap_strategies", A)
    for o, g, v in got:
        size = (MS, XS)
        if is_call(v, "just"):
            ok = v[2] == (const(""),) and truth(g, MS) is False
            empty = eq(g, XS, const(0)) is True or any(b and k[0] == "a" and k[2] == "is_empty" for k, b in g.items())
            rep.check(ok and empty, "factory", "text:empty", loc(o), "text() always gives '' although other strings are allowed")
            continue
        sizes = (kw_of(v, "min_size", 1), kw_of(v, "max_size", 2)) if v[0] == "call" else None
        rep.check(sizes == size, "factory", "text:sizes", loc(o), f"text() passes the sizes on as {[show(x) if x else 'nothing' for x in sizes or ()]}")
        if is_call(v, "text"):
            ok = kw_of(v, "alphabet", 0) == at(cs, "elements") and inst(g, cs, "SampledFromStrategy") is True and val(g, at(cs, "_transformations")) is False
            rep.check(ok, "factory", "text:sampled", loc(o), "text() draws from the elements of a sampled_from() strategy without its mappings and filters")
            continue
        if not rep.check(is_call(v, "TextStrategy"), "factory", "text", loc(o), f"text() returns {show(v)[:60]}"):
            continue
        e = v[2][0] if v[2] else dict(v[3]).get("elements")
        if inst(g, A, "SearchStrategy"):
            ok = e == cs and inst(g, cs, "OneCharStringStrategy") is True or is_call(e, "map") and e[1] == at(cs, "map") and last_name(e[2][0]) == "_check_is_single_character"
        else:
            ok = is_call(e, "nothing") and truth(g, A) is False or is_call(e, "characters") and truth(g, A) is not False and dict(e[3]) == {"categories": ("tuple", ()), "include_characters": A}
        rep.check(ok, "factory", "text:alphabet", loc(o), f"text() draws its characters from {show(e)[:80]}")
    f, got = results(rep, TX + "_check_is_single_character")
    p = P(f.node.args.args[0].arg)
    for o, g, v in got:
        n = [b for k, b in g.items() if k[0] == "cmp" and k[1] == "==" and call_("builtins.len", p) in k[2:4] and const(1) in k[2:4]]
        rep.check(v == p and inst(g, p, "str") is True and n == [True], "factory", "text:one-character", loc(o), "an element of an alphabet that is not one character is let through")
    f, got = results(rep, CO + "binary")
    for o, g, v in got:
        rep.check(is_call(v, "BytesStrategy") and (kw_of(v, "min_size", 0), kw_of(v, "max_size", 1)) == (MS, XS), "factory", "binary", loc(o), f"binary() returns {show(v)[:80]}")


def check_characters(rep):
    """characters(): the codepoints, categories and single characters reach the query for the intervals, and the query
    keeps exactly what they allow"""
    fq = CO + "characters"
    old = {"exclude_characters": "blacklist_characters", "include_characters": "whitelist_characters", "categories": "whitelist_categories", "exclude_categories": "blacklist_categories"}
    chars = {n: NONE for n in ("categories", "exclude_categories", "whitelist_categories", "blacklist_categories")}
    single = {n: NONE for n in ("exclude_characters", "include_characters", "blacklist_characters", "whitelist_characters")}
    gencat = lambda x: is_call(x, "as_general_categories")  # noqa

    def given(g, spec, n):
        """the argument in force under its present and its deprecated name"""
        if old[n] not in spec and eq(g, P(old[n]), NONE) is False:
            return P(old[n])
        return NONE if n in spec else P(n)

    f = None
    for spec in (dict(chars, codec=NONE), dict(single, codec=NONE), dict(single, **{k: v for k, v in chars.items() if k != "categories"}), dict(single, **{k: v for k, v in chars.items() if k != "exclude_categories"})):
        spec["min_codepoint"] = NONE if "codec" in spec and spec is not chars else spec.get("min_codepoint", P("min_codepoint"))
        spec.pop("min_codepoint")
        f, got = results(rep, fq, max_states=20000, params=spec)
        for o, g, v in got:
            if any(b and k[0] == "cmp" and k[1] == "is" and k[2][0] not in ("p", "c") and k[3] == NONE for k, b in g.items()):
                continue  # a looked-up name is not None
            if not rep.check(is_call(v, "from_characters_args") and not v[2], "factory", "characters", loc(o), f"characters() returns {show(v)[:80]}"):
                continue
            d = dict(v[3])
            for n in ("exclude_characters", "include_characters"):
                src, x = given(g, spec, n), d.get(n)
                t = truth(g, src)
                ok = x == src or x in (const(""), NONE) and (src == NONE or t is False)
                rep.check(ok, "factory", f"characters:{n}", loc(o), f"{n} becomes {show(x)[:60] if x else 'nothing'}")
            rep.check(d.get("min_codepoint") == P("min_codepoint"), "factory", "characters:min_codepoint", loc(o), "min_codepoint is not passed on")
            c, m, cats = d.get("codec"), d.get("max_codepoint"), d.get("categories")
            low = eq(g, P("max_codepoint"), NONE) is True or less(g, const(127), P("max_codepoint")) is True
            name = next((k[2] if k[3] == const("ascii") else k[3] for k, b in g.items() if b and k[0] == "cmp" and k[1] == "==" and const("ascii") in k[2:4]), None)
            if name is not None:
                ok = c == NONE and (m == const(127) and low or m == P("max_codepoint") and eq(g, P("max_codepoint"), NONE) is False and less(g, const(127), P("max_codepoint")) is False) or c == name and m == P("max_codepoint")
                rep.check(ok, "factory", "characters:ascii", loc(o), f"with codec='ascii' max_codepoint becomes {show(m)[:40] if m else None}, codec {show(c)[:40] if c else None}")
            else:
                rep.check(m == P("max_codepoint"), "factory", "characters:max_codepoint", loc(o), f"max_codepoint becomes {show(m)[:40] if m else None}")
                none = "codec" in spec or eq(g, P("codec"), NONE) is True
                rep.check(c in (NONE, P("codec")) if none else c is not None and c[0] == "a" and c[2] == "name" and is_call(c[1], "lookup") and c[1][2] == (P("codec"),), "factory", "characters:codec", loc(o), f"codec becomes {show(c)[:60] if c else None}")
            utf8 = any(b and k[0] == "cmp" and k[1] == "==" and const("utf-8") in k[2:4] for k, b in g.items())
            inc, exc = given(g, spec, "categories"), given(g, spec, "exclude_categories")
            ui, ue = eq(g, inc, NONE), eq(g, exc, NONE)
            base = cats
            if utf8:
                ok = cats is not None and (is_call(cats, "tuple") and cats[2][0][0] == "comp" or cats[0] == "comp")
                cm = (cats[2][0] if ok and is_call(cats, "tuple") else cats) if ok else None
                e = ("elem", cm[3][0]) if ok else None
                conds = {(dm(t), b) if isinstance(b, bool) else t for t, b in cm[4]} if ok and cm[4] and isinstance(cm[4][0], tuple) and len(cm[4][0]) == 2 and isinstance(cm[4][0][1], bool) else set(cm[4]) if ok else set()
                ok = ok and cm[2] == e and "Cs" in show(cm) and len(cm[4]) == 1
                rep.check(ok, "factory", "characters:utf-8", loc(o), f"with codec='utf-8' the categories become {show(cats)[:80] if cats else None}")
                if not ok:
                    continue
                base = cm[3][0]
            if exc != NONE and ue is False:
                ok = base is not None and base[0] == "bin" and base[1] == "-" and all_of(base[2], lambda y: is_call(y, "categories", "all_categories")) and all_of(base[3], lambda y: gencat(y) and y[2][0] == exc)
                rep.check(ok, "factory", "characters:exclude_categories", loc(o), f"exclude_categories become {show(base)[:80] if base else None}")
            elif inc != NONE and ui is False:
                rep.check(base is not None and gencat(base) and base[2][0] == inc, "factory", "characters:categories", loc(o), f"categories become {show(base)[:80] if base else None}")
            else:
                rep.check(base == NONE or base is not None and (base == inc or is_call(base, "categories", "all_categories") and utf8), "factory", "characters:all", loc(o), f"without categories they become {show(base)[:80] if base else None}")

    # the intervals
    f, got = results(rep, TX + "OneCharStringStrategy.from_characters_args")
    names = ("min_codepoint", "max_codepoint", "categories", "exclude_characters", "include_characters")
    for o, g, v in got:
        iv = v[2][0] if v[0] == "call" and v[2] else dict(v[3]).get("intervals") if v[0] == "call" else None
        q = iv
        has_codec = eq(g, P("codec"), NONE) is False
        if has_codec:
            ok = iv is not None and iv[0] == "bin" and iv[1] == "&" and any(is_call(z, "intervals_from_codec") and z[2] == (P("codec"),) for z in iv[2:4])
            rep.check(ok, "intervals", "codec", loc(o), "the characters are not limited to those of the codec")
            q = next((z for z in iv[2:4] if is_call(z, "query")), None) if ok else None
        ok = q is not None and is_call(q, "query") and {k: x for k, x in q[3]} == {n: P(n) for n in names}
        rep.check(ok, "intervals", "query", loc(o), f"the characters are those of {show(q)[:120] if q else None}")
    CM = "hypothesis.internal.charmap."
    f = rep.func(CM + "query")
    ev = lambda k, t, x: ("item", dm(t), dm(x["value"])) if k == "setitem" else None  # noqa
    f, outs = paths(rep, CM + "query", ev, max_states=4000, cap=40)
    MN, MX = P("min_codepoint"), P("max_codepoint")

    def judge(v, g):
        """(base | included) - excluded, with base cut to the codepoints"""
        lo = const(0) if eq(g, MN, NONE) is True else MN
        hi = (("g", "sys.maxunicode"), const(1114111)) if eq(g, MX, NONE) is True else (MX,)
        sets = lambda n: [call_("hypothesis.internal.intervalsets.IntervalSet.from_string", x) for x in (P(n), const(""), ("or", P(n), const("")))]  # noqa
        if not (v[0] == "bin" and v[1] == "-" and v[3][0] == "call" and okset(v[3], "exclude_characters", g)):
            return "the excluded characters are not taken away last"
        u = v[2]
        if not (u[0] == "bin" and u[1] == "|"):
            return "the included characters are not added"
        inc = [z for z in u[2:4] if okset(z, "include_characters", g)]
        rest = [z for z in u[2:4] if z not in inc]
        if len(inc) != 1 or len(rest) != 1 or not is_call(rest[0], "IntervalSet"):
            return "the included characters are not added"
        c = rest[0][2][0]
        c = c[2][0] if is_call(c, "tuple", "list") else c
        if c[0] != "comp" or c[2][0] != "tuple" or len(c[2][1]) != 2 or not is_call(c[3][0], "_query_for_key"):
            return f"the intervals are {show(c)[:80]}"
        e = ("elem", c[3][0])
        a, b = sub_(e, 0), sub_(e, 1)
        x, y = c[2][1]
        if not (is_call(x, "max") and set(x[2]) == {a, lo} and is_call(y, "min") and b in y[2] and any(set(y[2]) == {b, h} for h in hi)):
            return f"an interval of the categories is cut to {show(c[2])[:120]}"
        return None if conds_ok(c[4], b, lo, a, hi) else f"an interval is kept under {[show(z)[:50] for z in c[4]]}"

    def okset(z, n, g):
        if not is_call(z, "from_string"):
            return False
        x = z[2][0]
        return x == P(n) or x == const("") and truth(g, P(n)) is False or x[0] in ("or", "boolop") and P(n) in x and const("") in x

    stored = set()
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        g, v = gd(o), dm(o.value)
        if v[0] == "sub":
            key = v[2]
        else:
            n += 1
            m = judge(v, g)
            rep.check(m is None, "intervals", "charmap.query", loc(o), m or "")
            puts = [l for l in o.state.auto if isinstance(l, tuple) and l[0] == "item"]
            for _, t, x in puts:
                rep.check(x == v, "intervals", "charmap.query:cached", loc(o), "the cached characters are not those that are returned")
            if not puts:
                continue
            key = puts[0][1][2]
        parts_ = key[1] if key[0] == "tuple" else ()
        lo = const(0) if eq(g, MN, NONE) is True else MN
        ok = lo in parts_ and any(z in parts_ for z in (("g", "sys.maxunicode"), const(1114111), MX)) and any(is_call(z, "_category_key") and z[2] == (P("categories"),) for z in parts_)
        ok = ok and all(any(any_sub(z, lambda y: okset(y, nm, g)) for z in parts_) for nm in ("include_characters", "exclude_characters")) and len(parts_) >= 5
        rep.check(ok, "intervals", "charmap.query:key", loc(o), f"the cache of characters is keyed by {show(key)[:100]}")
    rep.check(n > 0, "intervals", "charmap.query:computed", f.loc, "the characters are never computed")


def all_of(t, ok):
    """a set of exactly the elements of a term"""
    while is_call(t, "set", "frozenset", "tuple", "list") and len(t[2]) == 1 and not t[3]:
        t = t[2][0]
    return ok(t)


def sub_(t, i):
    return ("sub", t, const(i))


def conds_ok(conds, b, lo, a, hi):
    """the filter of the comprehension: b >= lo and a <= hi"""
    flat = []

    def go(c):
        if isinstance(c, tuple) and c and c[0] in ("and", "boolop") and len(c) > 1:
            for z in c[1:]:
                if isinstance(z, tuple) and z and isinstance(z[0], tuple):
                    for w in z:
                        go(w)
                elif isinstance(z, tuple):
                    go(z)
            return
        flat.append(c)
    for c in conds:
        go(c)
    t = {(lt(x[2], x[3]), v) for x, v in map(norm_atom, flat) if x[:2] == ("cmp", "<")}
    return len(flat) == len(t) == 2 and (lt(b, lo), False) in t and any((lt(h, a), False) in t for h in hi)


def check_decimals(rep):
    """decimals(): infinities and nan exactly where the bounds allow them, finite values between the bounds, and no
    rounding out of them"""
    fq = CO + "decimals"
    AI, AN, PL = P("allow_infinity"), P("allow_nan"), P("places")
    conv = CO + "_as_finite_decimal"
    B = {s: call_(conv, P(s + "_value"), const(s + "_value"), AI) for s in ("min", "max")}
    ev = lambda k, t, x: dm(t) if k == "call" else None  # noqa
    f, outs = paths(rep, fq, ev, max_states=4000, cap=60)
    fns = {}
    for o in outs:
        if o.kind != "return":
            continue
        g, v = gd(o), dm(o.value)
        text = set()
        for l in o.state.auto:
            any_sub(l, lambda y: text.add(const_of(y)) if isinstance(const_of(y), str) else None) if isinstance(l, tuple) else None
        text = {x.lower() for x in text}
        absent = {s: eq(g, B[s], NONE) for s in B}
        if any(b and k[0] == "cmp" and k[1] == "in" and k[2] == NONE and k[3][0] in ("tuple", "list") and set(k[3][1]) == set(B.values()) for k, b in g.items()):
            if absent == {"min": False, "max": False}:
                continue  # one of them is None
        for s, words in (("max", {"infinity", "inf", "+infinity", "+inf"}), ("min", {"-infinity", "-inf"})):
            off = any(val(g, ("cmp", op, AI, FALSE), ("cmp", op, FALSE, AI)) for op in ("is", "=="))
            want = False if absent[s] is False else True if absent[s] and not off else False if off else None
            rep.check(want is (bool(text & words)), "decimals", f"infinity:{s}", loc(o), f"{'-' if s == 'min' else ''}Infinity {'may' if text & words else 'may not'} be generated with {s}_value {'absent' if absent[s] else 'given' if absent[s] is False else 'not looked at'} and allow_infinity {show_g(g, AI)}")
        nan = any("nan" in w and len(w) <= 5 for w in text)
        open_ = absent["min"] is True or absent["max"] is True
        want = True if truth(g, AN) else False if eq(g, AN, NONE) is False else open_
        rep.check(nan is want, "decimals", "nan", loc(o), f"NaN {'may' if nan else 'may not'} be generated with allow_nan {show_g(g, AN)}")
        fin = v[2] if v[0] == "bin" and v[1] == "|" else v
        if not rep.check(is_call(fin, "map") and fin[1][0] == "a", "decimals", "finite", loc(o), f"finite decimals are {show(fin)[:60]}"):
            continue
        src, fn = fin[1][1], fin[2][0]
        if is_call(src, "fractions"):
            rep.check((kw_of(src, "min_value", 0), kw_of(src, "max_value", 1)) == (B["min"], B["max"]) and eq(g, PL, NONE) is not False, "decimals", "fractions", loc(o), f"decimals are converted from {show(src)[:80]}")
            fns["fraction"] = fn
        elif rep.check(is_call(src, "integers") and eq(g, PL, NONE) is False, "decimals", "integers", loc(o), f"decimals are converted from {show(src)[:80]}"):
            fns["places"] = fn
            for s, i, r in (("min", 0, "ceil"), ("max", 1, "floor")):
                x = kw_of(src, s + "_value", i)
                if absent[s]:
                    rep.check(x is None or x == NONE, "decimals", f"places:{s}", loc(o), f"an absent {s}_value becomes {show(x)[:60] if x else None}")
                    continue
                ok = is_call(x, r) and exact_scale(x[2][0], B[s], PL)
                rep.check(ok, "decimals", f"places:{s}", loc(o), f"the {'smallest' if s == 'min' else 'largest'} multiple is {show(x)[:120] if x else None}, not the {r} of the exact quotient")
    rep.check(set(fns) == {"fraction", "places"}, "decimals", "both", f.loc, f"decimals are only built from {sorted(fns)}")
    h = closure(rep, fns["fraction"]) if "fraction" in fns else None
    if h is not None:
        x = P(h.node.args.args[0].arg)
        fr = {s: ("free", s + "_value") for s in B}
        for o in rep.trace(h, None, lambda a: True, extracted, raises=NOTHING):
            if o.kind != "return":
                continue
            g, v = gd(o), dm(o.value)
            free = lambda t, s: t is not None and t[0] in ("free", "v", "p") and t[1] == s + "_value" or t is not None and last_name(t) == s + "_value"  # noqa
            for s in B:
                other_ = [k for k in g if k[0] == "cmp" and k[1] == "<" and any(free(z, s) for z in k[2:4])]
                none = any(b and k[0] == "cmp" and k[1] in ("is", "==") and free(k[2], s) and k[3] == NONE for k, b in g.items())
                if any(free(v, z) for z in B):
                    z = next(z for z in B if free(v, z))
                    k = next((k for k, b in g.items() if b and k[0] == "cmp" and k[1] == "<" and (free(k[3], z) if z == "min" else free(k[2], z))), None)
                    rep.check(k is not None, "decimals", "rounded:bound", loc(o), f"{z}_value is returned for a value that does not lie outside it")
                    break
                if is_call(v, "max", "min"):
                    break
                inside_ = any(not b and k[0] == "cmp" and k[1] == "<" and (k[2] == v and free(k[3], s) if s == "min" else k[3] == v and free(k[2], s)) for k, b in g.items())
                rep.check(none or inside_, "decimals", f"rounded:{s}", loc(o), f"the converted value may be rounded {'below min_value' if s == 'min' else 'above max_value'}")
    h = closure(rep, fns["places"]) if "places" in fns else None
    if h is not None:
        x = P(h.node.args.args[0].arg)
        for o in rep.trace(h, None, lambda a: True, lambda t, c, r: True, raises=NOTHING, depth=1):
            if o.kind != "return":
                continue
            v = dm(o.value)
            ok = is_call(v, "quantize") and len(v[2]) == 2 and is_call(v[2][0], "multiply") and set(v[2][0][2]) == {x, v[2][1]} and v[2][1] != x
            rep.check(ok, "decimals", "places:value", loc(o), f"the drawn integer becomes {show(v)[:80]}, not its multiple of the last place")
    # which bounds count as absent
    f, got = results(rep, conv, max_states=2000)
    V = P("value")
    for o, g, v in got:
        if v == NONE or v == V and eq(g, V, NONE) is True:
            inf = [k for k, b in g.items() if b and is_call(k, "is_infinite")]
            rep.check(eq(g, V, NONE) is True or bool(inf) and not (eq(g, AI, NONE) is False and truth(g, AI) is False), "decimals", "absent", loc(o), "a bound is dropped although it is finite, or infinite while infinities are refused")
            if inf:
                b = inf[0][1][1]
                low = less(g, b, const(0))
                high = less(g, const(0), b)
                is_min = next((bb for k, bb in g.items() if k[0] == "cmp" and k[1] == "in" and k[3] == P("name") or k[0] == "cmp" and k[1] in ("in", "==") and k[2] == const("min") and k[3] == P("name")), None)
                rep.check((low is True) if is_min else (high is True) if is_min is False else False, "decimals", "absent:side", loc(o), "a bound is dropped that is infinite on the other side")
        else:
            rep.check(any(b and is_call(k, "is_finite") and k[1][1] == v for k, b in g.items()), "decimals", "bound", loc(o), "a bound that is not finite is used")


def show_g(g, t):
    return "None" if eq(g, t, NONE) is True else str(truth(g, t))


def exact_scale(t, b, places):
    """b * 10**places without rounding: an exact product with a Fraction of b"""
    if t[0] == "bin" and t[1] == "*":
        fr = [z for z in t[2:4] if is_call(z, "Fraction") and z[2] == (b,)]
        ten = [z for z in t[2:4] if z[0] == "bin" and z[1] == "**" and z[2] == const(10) and z[3] == places]
        return len(fr) == 1 and len(ten) == 1
    if t[0] == "bin" and t[1] == "/":
        return is_call(t[2], "Fraction") and t[2][2] == (b,) and is_call(t[3], "Fraction")
    return False


def check_fractions(rep):
    """fractions(): numerator and denominator for every denominator drawn stay within the bounds"""
    fq = CO + "fractions"
    B = {s: call_("hypothesis.internal.validation.try_convert", ("g", "fractions.Fraction"), P(s + "_value"), const(s + "_value")) for s in ("min", "max")}
    MD = P("max_denominator")
    f, got = results(rep, fq, max_states=4000)
    dms = {}
    for o, g, v in got:
        if is_call(v, "just"):
            rep.check(v[2][0] in (B["min"], B["max"]) and eq(g, B["min"], B["max"]) is True, "fractions", "single", loc(o), "fractions() always gives the same value although the bounds differ")
            continue
        if eq(g, MD, NONE) is True:
            fm = v
        else:
            ok = is_call(v, "map") and v[1][0] == "a"
            fm = v[1][1] if ok else v
            h = closure(rep, v[2][0]) if ok else None
            good = h is not None
            if good:
                p = P(h.node.args.args[0].arg)
                rs = [dm(o2.value) for o2 in rep.trace(h, None, lambda a: True, extracted, raises=NOTHING) if o2.kind == "return"]
                good = bool(rs) and all(is_call(r, "limit_denominator") and r[1][1] == p and last_name(r[2][0]) == "max_denominator" for r in rs)
            rep.check(good, "fractions", "max_denominator", loc(o), "the result is not limited to max_denominator")
        ok = is_call(fm, "flatmap") and fm[1][0] == "a" and is_call(fm[1][1], "integers")
        if not rep.check(ok, "fractions", "denominator", loc(o), f"fractions() returns {show(v)[:80]}"):
            continue
        d = fm[1][1]
        rep.check(kw_of(d, "min_value", 0) == const(1) and kw_of(d, "max_value", 1) in (None, NONE, MD), "fractions", "denominator:bounds", loc(o), f"the denominator is drawn from {show(d)[:60]}")
        dms[fm[2][0]] = True
    for t in dms:
        h = closure(rep, t)
        if not rep.check(h is not None, "fractions", "builder", f.loc, "the function that builds a fraction is not found"):
            continue
        D = P(h.node.args.args[0].arg)
        for o in rep.trace(h, None, lambda a: True, extracted, raises=NOTHING):
            if o.kind != "return":
                continue
            g, v = gd(o), dm(o.value)
            ok = is_call(v, "builds") and len(v[2]) == 3 and last_name(v[2][0]) == "Fraction" and is_call(v[2][1], "integers") and is_call(v[2][2], "just")
            if not rep.check(ok, "fractions", "built", loc(o), f"a fraction is built as {show(v)[:80]}"):
                continue
            num, den = v[2][1], v[2][2][2][0]
            dn = quotient(den)
            for s, i in (("min", 0), ("max", 1)):
                none = next((b for k, b in g.items() if k[0] == "cmp" and k[1] in ("is", "==") and last_name(k[2]) == s + "_value" and k[3] == NONE), None)
                x = kw_of(num, s + "_value", i)
                if x is None or x == NONE:
                    rep.check(none is True, "fractions", f"bound:{s}", loc(o), f"{s}_value is dropped")
                    continue
                if not rep.check(none is False, "fractions", f"bound:{s}", loc(o), f"the numerator is bounded on a path where {s}_value is not known to be given"):
                    continue
                ref = next(k[2] for k in g if k[0] == "cmp" and k[1] in ("is", "==") and last_name(k[2]) == s + "_value" and k[3] == NONE)
                xn = quotient(x)
                lhs = poly(("bin", "*", ("bin", "*", xn[0], dn[1]), at(ref, "denominator")))
                rhs = poly(("bin", "*", ("bin", "*", at(ref, "numerator"), dn[0]), xn[1]))
                rep.check(lhs == rhs, "fractions", f"bound:{s}", loc(o), f"numerator bound / denominator is not {s}_value: {show(x)[:80]} over {show(den)[:60]}")
                for q in (x, den):
                    for num_, div in divisions(q):
                        rep.check(divides(div, num_, D), "fractions", "exact", loc(o), f"{show(num_)[:60]} is not known to be a multiple of {show(div)[:60]}")


def divisions(t):
    out = []
    any_sub(t, lambda y: out.append((y[2], y[3])) if y[:2] == ("bin", "//") else None)
    return out


def divides(div, num, D):
    """div is a gcd of terms one of which divides num"""
    leaves = []

    def go(t):
        if is_call(t, "gcd"):
            for z in t[2]:
                go(z)
        else:
            leaves.append(t)
    go(div)
    if not is_call(div, "gcd"):
        return False
    return any(poly(l) == poly(num) or poly(("bin", "*", D, l)) == poly(num) for l in leaves)


def quotient(t):
    """t as numerator and denominator, with exact floor divisions as divisions"""
    if t[0] == "bin" and t[1] == "//":
        a = quotient(t[2])
        return a[0], ("bin", "*", a[1], t[3])
    if t[0] == "bin" and t[1] == "*":
        a, b = quotient(t[2]), quotient(t[3])
        return ("bin", "*", a[0], b[0]), ("bin", "*", a[1], b[1])
    return t, const(1)


def check_s07(rep):
    """Value-flow analysis of every bound from the arguments of a public strategy function over the strategy's
    attributes to the draw and to the recorded constraints; the part-by-part drawing of dates and durations is
    enumerated with the names of the parts as constants; floats() is decided per side by path tables."""
    rep.part(check_stored)
    rep.part(check_drawn)
    rep.part(check_entries)
    rep.part(check_parts)
    rep.part(check_dates)
    rep.part(check_integers)
    rep.part(check_text)
    rep.part(check_characters)
    rep.part(check_decimals)
    rep.part(check_fractions)
    rep.part(check_floats)


CHECKS["S07"] = check_s07
