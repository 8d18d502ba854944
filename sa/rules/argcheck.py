"""S05: the arguments of the strategy functions are checked, and refused with InvalidArgument."""
from __future__ import annotations

from ..lib import *
from .bounds import CO, DTM, IP, NU, ST, paths
from .choices import NOTHING, P, SELF, extracted
from .filters import is_inf, kw_of, truth
from .tree import dm, eq, gd, inst, less, val

V = "hypothesis.internal.validation."
CHECK = ST + "strategies.check_strategy"
SAMPLE = "hypothesis.internal.conjecture.utils.check_sample"
REFUSED = "hypothesis.errors.InvalidArgument"


def not_(a):
    return None if a is None else not a


def and_(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def or_(*xs):
    return not_(and_(*map(not_, xs)))


def none(g, *ts):
    for t in ts:
        v = eq(g, t, NONE)
        if v is not None:
            return v
    for t in ts:  # an instance of something, a number that was compared: not None
        for k, v in g.items():
            if v and is_call(k, "isinstance") and k[2][0] == t:
                return False
    return None


def truthy(g, t):
    return False if none(g, t) is True else truth(g, t)


def isin(g, t, *names):
    """isinstance(t, one of names), from several isinstance calls together"""
    v = inst(g, t, *names)
    if v is None:
        out = set()
        for k, b in g.items():
            if is_call(k, "isinstance") and k[2][0] == t and not b:
                out |= type_names(k[2][1])
        if set(names) <= out:
            return False
    return v


def among(g, t, consts):
    """is t one of the constants"""
    vals = set(consts)
    poss = []
    for k, v in g.items():
        if k[0] == "cmp" and k[1] == "in" and k[2] == t and k[3][0] in ("tuple", "list", "set"):
            cs = {x[2] for x in k[3][1] if x[0] == "c"}
            if len(cs) != len(k[3][1]):
                continue
            if v and cs <= vals:
                return True
            if not v and vals <= cs:
                return False
        elif k[0] == "cmp" and k[1] in ("==", "is") and t in (k[2], k[3]):
            o = k[3] if k[2] == t else k[2]
            if o[0] == "c":
                if v:
                    return o[2] in vals
                poss.append(o[2])
    if vals <= set(poss):
        return False
    return None


# ------------------------------------------------------------------ the validators
def check_validators(rep):
    """each validator returns exactly for the valid arguments and refuses the others with InvalidArgument"""
    def judge(fq, valid, nested=(), result=None, asserts=False):
        f, outs = paths(rep, fq, inline=lambda g, c, r: extracted(g, c, r) or g.fq in nested, cap=60)
        kinds = set()
        for o in outs:
            g = gd(o)
            w = valid(g)
            if o.kind == "return":
                kinds.add("returns")
                rep.check(w is True, "accepts", f.qualname, loc(o), f"{f.qualname} accepts an argument that is not known to be valid: {facts(g)}")
                if result is not None:
                    rep.check(result(g, dm(o.value)), "result", f.qualname, loc(o), f"{f.qualname} returns {show(dm(o.value))[:80]}")
            elif o.type == "builtins.AssertionError":
                rep.check(asserts, "assert", f.qualname, loc(o), f"{f.qualname} fails an assertion")
            else:
                kinds.add("refuses")
                rep.check(o.type == REFUSED, "refusal", f.qualname, loc(o), f"{f.qualname} fails with {o.type}, not InvalidArgument")
                rep.check(w is False, "refuses", f.qualname, loc(o), f"{f.qualname} refuses an argument that is not known to be invalid: {facts(g)}")
        return f, kinds, outs

    both = {"returns", "refuses"}

    def need(fq, *a, kinds=both, **kw):
        f, got, outs = judge(fq, *a, **kw)
        rep.check(got == kinds, "outcomes", f.qualname, f.loc, f"{f.qualname} only {sorted(got)}")
        return f, outs

    arg, value, name, typ = P("arg"), P("value"), P("name"), P("typ")
    isa = lambda g, a, *ts: inst(g, a, *ts)  # noqa
    exact = lambda g, a, t: val(g, ("call", ("g", "builtins.isinstance"), (a, t), (), 0))  # noqa

    def isinst(g, a, t):
        got = [v for k, v in g.items() if is_call(k, "isinstance") and k[2] == (a, t)]
        return got[0] if got else None

    need(V + "check_type", lambda g: isinst(g, arg, typ), asserts=True)
    need(CHECK, lambda g: inst(g, arg, "SearchStrategy"), asserts=True)
    ctype = (V + "check_type",)
    need(V + "check_valid_integer", lambda g: or_(none(g, value), inst(g, value, "int")), nested=ctype, asserts=True)

    def nan(g):
        return next((v for k, v in g.items() if is_call(k, "isnan") and k[2] == (value,) or is_call(k, "is_nan") and k[1][1] == value), None)

    real = lambda g: or_(inst(g, value, "int", "Rational"), and_(isin(g, value, "int", "Rational", "Real", "Decimal"), not_(nan(g))))  # noqa
    need(V + "check_valid_bound", lambda g: or_(none(g, value), real(g)))
    # a NaN of type Decimal is only asked with is_nan(), which signalling NaNs answer too
    f, outs = paths(rep, V + "check_valid_bound", cap=60)
    for o in outs:
        g = gd(o)
        if any(is_call(k, "isnan") for k in g):
            rep.check(inst(g, value, "Decimal") is False, "signalling", "check_valid_bound", loc(o), "math.isnan() of a Decimal fails with a ValueError when it is a signalling NaN")
    neg = lambda g: less(g, value, const(0))  # noqa
    bound = lambda o: any(l == "bound" for l in o.state.auto)  # noqa
    need(V + "check_valid_magnitude", lambda g: or_(and_(none(g, value), not_(eq(g, name, const("min_magnitude")))), and_(not_(none(g, value)), not_(neg(g)))))
    f, outs = paths(rep, V + "check_valid_magnitude", lambda k, t, x: "bound" if k == "call" and last(t[1]) == "check_valid_bound" and kw_of(dm(t), "value", 0) == value else None)
    for o in outs:
        if o.kind == "return":
            rep.check(bound(o), "bound", "check_valid_magnitude", loc(o), "a magnitude is accepted without check_valid_bound")

    optional = lambda g: and_(none(g, value), not_(among(g, name, ("min_size", "size"))))  # noqa
    # sizes: None (where that is documented) or an int that is not negative
    need(V + "check_valid_size", lambda g: or_(optional(g), and_(inst(g, value, "int"), not_(neg(g)))), nested=ctype, asserts=True)
    lo, hi = P("lower_bound"), P("upper_bound")
    need(V + "check_valid_interval", lambda g: or_(none(g, lo), none(g, hi), not_(less(g, hi, lo))))
    # a conversion: the value itself, None, or typ(value); and every failure of typ(value) is refused
    conv = lambda t: t[0] == "call" and t[1] == typ and t[2] == (value,)  # noqa
    f, outs = paths(rep, V + "try_convert")
    for o in outs:
        if o.kind == "return":
            g, v = gd(o), dm(o.value)
            ok = v in (NONE, value) and none(g, value) is True or v == value and isinst(g, value, typ) is True or conv(v)
            rep.check(ok, "convert", "try_convert", loc(o), f"try_convert returns {show(v)[:60]}")
    for e in ("builtins.TypeError", "builtins.ValueError", "builtins.ArithmeticError", "builtins.OverflowError", "builtins.ZeroDivisionError"):
        f, outs = paths(rep, V + "try_convert", exc=True, raises=lambda c, e=e: (e,) if conv(dm(c)) else ())
        bad = [o for o in outs if o.kind == "raise" and o.type != REFUSED]
        rep.check(any(o.kind == "raise" for o in outs) and not bad, "convert-error", f"try_convert:{last_(e)}", f.loc, f"a conversion that fails with {last_(e)} is not refused with InvalidArgument")
    f, outs = paths(rep, SAMPLE)
    for o in outs:
        if o.kind == "raise":
            rep.check(o.type == REFUSED, "refusal", "check_sample", loc(o), f"check_sample fails with {o.type}")
        else:
            g, v = gd(o), dm(o.value)
            val_ = P("values")
            ok = inst(g, val_, "OrderedDict", "Sequence", "EnumMeta") is True or any(is_call(k, "isinstance") and k[2][0] == val_ and "ndarray" in show(k[2][1]) and b for k, b in g.items()) and any(b and k[0] == "cmp" and k[1] == "==" and "ndim" in show(k) and const(1) in k[2:4] for k, b in g.items())
            rep.check(ok, "accepts", "check_sample", loc(o), f"check_sample accepts a collection that has no order: {facts(g)}")
            rep.check(v == val_ or v[0] == "call" and last(v[1]) == "tuple" and v[2] == (val_,), "result", "check_sample", loc(o), f"check_sample returns {show(v)[:60]}")


def last_(fq):
    return fq.rsplit(".", 1)[-1]


def facts(g):
    return ", ".join(f"{show(k)[:50]}={v}" for k, v in list(g.items())[:5])


# ------------------------------------------------------------------ which argument is checked by what
def size(n):
    return [("check_valid_size", n, n)]


SIZES = size("min_size") + size("max_size") + [("check_valid_interval", "min_size", "max_size")]


def flag(*ns):
    return [("check_type", "bool", n) for n in ns]


def of(t, *ns):
    return [("check_type", t, n) for n in ns]


def between(a, b):
    return [("check_valid_interval", a, b)]


TABLE = {
    CO + "binary": SIZES,
    CO + "lists": SIZES + [("check_strategy", "elements")],
    CO + "text": SIZES,
    CO + "characters": size("min_codepoint") + size("max_codepoint") + between("min_codepoint", "max_codepoint"),
    CO + "complex_numbers": [("check_valid_magnitude", "min_magnitude"), ("check_valid_magnitude", "max_magnitude")] + between("min_magnitude", "max_magnitude") + flag("allow_subnormal"),
    CO + "decimals": [("check_valid_integer", "places")],
    CO + "fractions": [("check_valid_integer", "max_denominator"), ("try_convert", "Fraction", "min_value"), ("try_convert", "Fraction", "max_value")] + between("min_value", "max_value"),
    CO + "fixed_dictionaries": of("dict", "mapping"),
    CO + "from_regex": flag("fullmatch") + of("str|bytes|Pattern", "regex"),
    CO + "permutations": [("check_sample", "values")],
    CO + "sampled_from": [("check_sample", "elements")],
    CO + "randoms": flag("note_method_calls", "use_true_random"),
    CO + "slices": size("size"),
    CO + "uuids": flag("allow_nil"),
    NU + "integers": [("check_valid_bound", "min_value"), ("check_valid_bound", "max_value")] + between("min_value", "max_value"),
    NU + "floats": [("check_valid_bound", "min_value"), ("check_valid_bound", "max_value")] + flag("exclude_min", "exclude_max"),
    DTM + "datetimes": of("datetime", "min_value", "max_value") + flag("allow_imaginary") + between("min_value", "max_value"),
    DTM + "times": of("time", "min_value", "max_value") + between("min_value", "max_value"),
    DTM + "timedeltas": of("timedelta", "min_value", "max_value") + between("min_value", "max_value"),
    DTM + "dates": between("min_value", "max_value"),
    DTM + "timezones": flag("no_cache"),
    DTM + "timezone_keys": flag("allow_prefix"),
    CO + "dictionaries": SIZES,
}
# ... and those that are checked only where the argument is used
WHEN = {
    CO + "dictionaries": [(("check_strategy", "keys"), lambda g: eq(g, P("max_size"), const(0)) is not True), (("check_strategy", "values"), lambda g: eq(g, P("max_size"), const(0)) is not True)],
    CO + "fixed_dictionaries": [(("check_type", "dict", "optional"), lambda g: none(g, P("optional")) is not True)],
    CO + "from_regex": [(("check_type", "str|SearchStrategy", "alphabet"), lambda g: none(g, P("alphabet")) is not True)],
    IP + "ip_addresses": [(("check_type", "int", "v"), lambda g: none(g, P("v")) is not True)],
}
# validators whose first argument is a type
TYPED = {"check_type", "try_convert"}
VALIDATORS = {r[0] for rows in TABLE.values() for r in rows} | {r[0] for rows in WHEN.values() for r, _ in rows} | {"check_valid_sizes"}


def type_names(t):
    return {last(x) for x in (t[1] if t[0] == "tuple" else (t,))}


def origin(t):
    """the parameter that t is, or is a conversion of"""
    while t[0] == "call" and t[2] and last(t[1]) in ("try_convert", "_as_finite_decimal", "int", "float_of", "_fraction_to_decimal"):
        t = t[2][1] if last(t[1]) == "try_convert" else t[2][0]
    return t[1] if t[0] == "p" else None


def checked(t):
    """the rows of the table that one call fulfils"""
    t = dm(t)
    n = last(t[1])
    if n in TYPED:
        ty, v = kw_of(t, "typ", 0), kw_of(t, "arg" if n == "check_type" else "value", 1)
        if ty is None or v is None or v[0] != "p":
            return []
        ts = type_names(ty)
        return [(n, frozenset(ts), v[1])]
    if n == "check_valid_interval":
        a, b = kw_of(t, "lower_bound", 0), kw_of(t, "upper_bound", 1)
        return [(n, origin(a), origin(b))] if a is not None and b is not None else []
    first = {"check_strategy": "arg", "check_sample": "values"}.get(n, "value")
    v = kw_of(t, first, 0)
    if v is None or v[0] != "p":
        return []
    if n == "check_valid_size":
        nm = kw_of(t, "name", 1)
        return [(n, v[1], nm[2] if nm is not None and nm[0] == "c" else None)]
    return [(n, v[1])]


def check_calls(rep):
    """on every path on which a strategy function returns a strategy, each argument went through its validator"""
    always = lambda g: True  # noqa
    for fq in sorted(set(TABLE) | set(WHEN)):
        rows = [(r, always) for r in TABLE.get(fq, ())] + WHEN.get(fq, [])

        def ev(k, t, x):
            if k == "call" and last(t[1]) in VALIDATORS:
                return [("chk", *c) for c in checked(t)]
        inl = lambda g, c, r: extracted(g, c, r) or g.fq == V + "check_valid_sizes"  # noqa
        names = {a.arg for a in rep.func(fq).node.args.args + rep.func(fq).node.args.kwonlyargs}
        f, outs = paths(rep, fq, ev, inline=inl, max_states=3000, cap=60)
        rets = [o for o in outs if o.kind == "return"]
        rep.check(bool(rets), "returns", f.qualname, f.loc, f"{f.qualname} never returns")
        for r, when in rows:
            params = [x for x in (r[1:] if r[0] not in TYPED else r[2:]) if x is not None]
            rep.check(set(params) <= names, "parameter", f"{f.qualname}:{params[0]}", f.loc, f"{f.qualname} has no argument {params}")
            if r[0] in TYPED:
                want = ("chk", r[0], frozenset(r[1].split("|")), r[2])
            elif r[0] == "check_valid_size":
                # None is only refused for the names min_size and size
                want = ("chk", r[0], r[1], r[2])
            else:
                want = ("chk", *r)
            for o in rets:
                if not when(gd(o)):
                    continue
                rep.check(want in o.state.auto, "checked", f"{f.qualname}:{params[0]}:{r[0]}", loc(o), f"{f.qualname} returns a strategy without {r[0]}({', '.join(map(str, r[1:]))})")


# ------------------------------------------------------------------ combinations that must be refused
def forbidden():
    p = P
    V_ = p("v")
    ver = p("version")
    net = [p("network"), ("call", ("g", "ipaddress.ip_network"), (p("network"),), (), 0)]

    def strat(n):
        return lambda g: not_(inst(g, p(n), "SearchStrategy"))

    def is_dt(n):
        return lambda g: inst(g, p(n), "datetime")

    yield CO + "uuids", "version", lambda g: not_(or_(none(g, ver), among(g, ver, (1, 2, 3, 4, 5)), among(g, ver, (None, 1, 2, 3, 4, 5))))
    yield CO + "uuids", "nil-version", lambda g: and_(truthy(g, p("allow_nil")), not_(none(g, ver)))
    yield IP + "ip_addresses", "v", lambda g: not_(or_(none(g, V_), among(g, V_, (4, 6))))
    yield DTM + "datetimes", "timezones", strat("timezones")
    yield DTM + "times", "timezones", strat("timezones")
    yield CO + "fractions", "max_denominator", lambda g: and_(not_(none(g, p("max_denominator"))), less(g, p("max_denominator"), const(1)))
    yield CO + "decimals", "places", lambda g: and_(not_(none(g, p("places"))), less(g, p("places"), const(0)))
    flag_ = lambda g: any(b and is_call(k, "issubclass") and k[2][0] == p("elements") and last(k[2][1]) == "Flag" for k, b in g.items())  # noqa
    yield CO + "sampled_from", "empty", lambda g: not (flag_(g) or any(b and is_call(k, "check_sample") for k, b in g.items()))
    yield CO + "lists", "unique_by", lambda g: and_(truthy(g, p("unique")), not_(none(g, p("unique_by"))))
    text_ = lambda g: any(inst(g, t, "str") is True for t in (p("regex"), ("a", p("regex"), "pattern")))  # noqa
    yield CO + "from_regex", "alphabet:bytes", lambda g: and_(not_(none(g, p("alphabet"))), not text_(g))
    none_, off = {"min_value": NONE, "max_value": NONE}, {"exclude_min": FALSE, "exclude_max": FALSE, "width": const(64)}
    yield NU + "floats", "width", lambda g: not_(among(g, p("width"), (16, 32, 64))), {**none_, "exclude_min": FALSE, "exclude_max": FALSE}
    yield CO + "complex_numbers", "width", lambda g: not_(among(g, p("width"), (32, 64, 128)))
    nan = lambda n: lambda g: and_(truthy(g, p("allow_nan")), not_(none(g, p(n))))  # noqa
    yield NU + "floats", "allow_nan:min_value", nan("min_value"), {**off, "max_value": NONE}
    yield NU + "floats", "allow_nan:max_value", nan("max_value"), {**off, "min_value": NONE}

    def given(g, n, sign):
        """the bound is given and is not the infinity that means no bound"""
        v = none(g, p(n))
        if v is not False:
            return not_(v)
        return not any(b and k[0] == "cmp" and k[1] in ("==", "is") and any(is_inf(z, sign) for z in k[2:4]) and any(origin(z) == n for z in k[2:4]) for k, b in g.items())
    yield NU + "floats", "allow_infinity", lambda g: and_(truthy(g, p("allow_infinity")), given(g, "min_value", -1), given(g, "max_value", 1)), {**off, "allow_nan": FALSE}


def unreal(g):
    """conditions no call satisfies: a converted number is None, or a value both is and is not None"""
    for k, b in g.items():
        if k[0] == "cmp" and k[1] in ("==", "is") and b and NONE in k[2:4]:
            x = k[3] if k[2] == NONE else k[2]
            if is_call(x, "float_of") or any(val(g, ("cmp", op, x, NONE), ("cmp", op, NONE, x)) is False for op in ("==", "is")):
                return True
    return False


def check_refused(rep):
    """combinations of arguments that are documented as errors never give a strategy"""
    got = {}
    for fq, what, bad, *params in forbidden():
        key = (fq, *params[0].items()) if params else fq
        if key not in got:
            got[key] = paths(rep, fq, max_states=30000, cap=60, **({"params": params[0]} if params else {}))
        f, outs = got[key]
        n = 0
        for o in outs:
            if o.kind == "return":
                g = gd(o)
                if unreal(g):
                    continue
                n += 1
                rep.check(bad(g) is False, "combination", f"{f.qualname}:{what}", loc(o), f"{f.qualname} may return a strategy for a bad {what}: {facts(g)}")
        rep.check(n > 0, "returns", f.qualname, f.loc, f"{f.qualname} never returns")


# ------------------------------------------------------------------ the kind of error, and no draws
def check_errors(rep):
    """every error raised for an argument is InvalidArgument"""
    allowed = {REFUSED, "builtins.AssertionError", "AssertionError"}
    m = rep.p.modules["hypothesis.strategies"]
    names = [e.value for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "__all__" for e in n.value.elts]
    rep.check(len(names) > 40, "functions", "__all__", m.rel if hasattr(m, "rel") else "strategies/__init__.py", "the list of strategy functions is not understood")
    seen = 0
    for n in names:
        fq = next((c for mod in ("core", "numbers", "datetime", "ipaddress", "strings", "collections", "misc", "shared", "deferred", "functions", "random", "strategies") if (c := f"{ST}{mod}.{n}") in rep.p.functions), None)
        if fq is None:
            continue
        seen += 1
        ev = lambda k, t, x: "draws" if k == "call" and (last(t[1]) or "") in ("draw", "do_draw", "example", "draw_integer", "draw_boolean", "draw_float", "draw_bytes", "draw_string") else None  # noqa
        f, outs = paths(rep, fq, ev, max_states=3000, cap=60)
        for o in outs:
            if o.kind == "raise":
                ok = o.type in allowed or fq == NU + "floats" and last_(o.type or "") == "FloatingPointError"
                rep.check(ok, "error", f.qualname, loc(o), f"{f.qualname} raises {o.type} for its arguments")
            if n not in ("slices",):
                rep.check("draws" not in o.state.auto, "draws", f.qualname, loc(o), f"{f.qualname} draws while the strategy is built")
    rep.check(seen > 35, "functions", "found", "strategies", f"only {seen} strategy functions were found")


# ------------------------------------------------------------------ validation reaches every part
CHILD = {
    ST + "strategies.OneOfStrategy": ("element_strategies", True),
    ST + "strategies.MappedStrategy": ("mapped_strategy", False),
    ST + "strategies.FilteredStrategy": ("filtered_strategy", False),
    ST + "collections.TupleStrategy": ("element_strategies", True),
    ST + "collections.ListStrategy": ("element_strategy", False),
    ST + "lazy.LazyStrategy": ("wrapped_strategy", False),
    ST + "recursive.LimitedStrategy": ("base_strategy", False),
    ST + "recursive.RecursiveStrategy": ("limited_base", False),
}


def check_children(rep):
    """a strategy is validated before its first draw, and validation reaches its parts"""
    for cls, (attr, many) in CHILD.items():
        a = ("a", SELF, attr)

        def ev(k, t, x):
            if k == "call" and last(t[1]) == "validate" and dm(t)[1][0] == "a":
                o = dm(t)[1][1]
                if o == a or many and o[0] in ("elem", "each") and o[1] == a:
                    return "validated"
            if k == "loop":
                return "entered"
            if k == "call" and (last(t[1]) or "").startswith(("draw", "do_draw", "example")):
                return "draws"
        f, outs = paths(rep, cls + ".do_validate", ev)
        got = False
        for o in outs:
            rep.check("draws" not in o.state.auto, "draws", f.qualname, loc(o), f"{f.qualname} draws")
            if o.kind == "return":
                ok = "validated" in o.state.auto
                got |= ok
                if many:
                    ok |= "entered" not in o.state.auto
                rep.check(ok, "validates", f.qualname, loc(o), f"{f.qualname} returns without validating {attr}")
            elif o.kind == "raise":
                rep.check(o.type in (REFUSED, "builtins.AssertionError"), "error", f.qualname, loc(o), f"{f.qualname} raises {o.type}")
        rep.check(got, "validates", f"{f.qualname}:some", f.loc, f"{f.qualname} never validates {attr}")
    # validate(): do_validate unless that succeeded before; a failure is not remembered as a success
    fq = ST + "strategies.SearchStrategy.validate"

    def ev(k, t, x):
        if k == "call" and dm(t)[1] == ("a", SELF, "do_validate"):
            return "done"
        if k == "setattr" and t[1] == SELF and t[2] == "validate_called":
            return ("flag", dm(x["value"]))
    for exc in (None, "hypothesis.errors.InvalidArgument", "builtins.TypeError"):
        rz = NOTHING if exc is None else (lambda c: (exc,) if dm(c)[1] == ("a", SELF, "do_validate") else ())
        f, outs = paths(rep, fq, ev, raises=rz, exc=exc is not None, uniq=False)
        for o in outs:
            flags = [l[1] for l in o.state.auto if isinstance(l, tuple) and l[0] == "flag"]
            g = gd(o)
            if o.kind == "return":
                rep.check("done" in o.state.auto or truth(g, ("a", SELF, "validate_called")) is True, "once", "validate", loc(o), "validate() returns although do_validate() was never called")
            elif exc is not None and o.kind == "raise":
                rep.check(flags[-1:] == [FALSE] or not flags, "failed", "validate", loc(o), "a failed validation is remembered as a success: the next use of the strategy is not refused")
    only_writers(rep, "validate_called", {fq, ST + "strategies.SearchStrategy.__init__", ST + "lazy.LazyStrategy.__init__"}, "flag-writer", "only validate() marks a strategy as validated", module=ST + "strategies", cls="SearchStrategy")
    # draw(): validate() first
    fq = "hypothesis.internal.conjecture.data.ConjectureData.draw"
    s = P("strategy")

    def ev(k, t, x):
        if k == "call" and dm(t)[1] == ("a", s, "validate"):
            return "validated"
        if k == "call" and dm(t)[1] == ("a", s, "do_draw"):
            return "draw"
    f, sites = rep.func(fq), None
    outs = rep.trace(f, ev, lambda a: True, extracted, raises=NOTHING, uniq=False)
    n = 0
    for o in outs:
        seq = [l for l in o.state.auto if l in ("validated", "draw")]
        if "draw" in seq:
            n += 1
            rep.check(seq[0] == "validated", "before-draw", "ConjectureData.draw", loc(o), "a strategy draws before it was validated")
    rep.check(n > 0, "before-draw", "ConjectureData.draw:draws", f.loc, "draw() never draws")


def check_s05(rep):
    """Decision tables of the validators; must-call analysis of every path of the strategy functions; path tables for
    the combinations that must be refused; the types of all explicit raises; must-call analysis of the validation of
    parts and of validation before the first draw."""
    rep.part(check_validators)
    rep.part(check_calls)
    rep.part(check_refused)
    rep.part(check_errors)
    rep.part(check_children)


CHECKS = {"S05": check_s05}
