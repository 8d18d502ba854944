"""How a test as a whole ends: E07 (deadline), E08 (reproduction blobs), E09 (found failures always
raise), E11 (explicit examples), O01 (observability records)."""
from __future__ import annotations

from fractions import Fraction

from ..lib import *
from .errors import ALLT, BCP, FHC, KBI, STOP, SYSX, UNSAT, same
from .runner import statuses  # noqa

CORE = "hypothesis.core."
S = CORE + "StateForActualGivenExecution."
ERR = "hypothesis.errors."


def find_fn(rep, suffix):
    f = next((x for x in rep.p.functions.values() if x.qualname.endswith(suffix)), None)
    if f is None:
        raise AnalysisError(f"anchor vanished: {suffix}")
    rep.analysed.add(f.fq)
    return f


def nested_of(rep, f):
    return [g for g in rep.p.functions.values() if g.fq.startswith(f.fq + ".<locals>.") and not isinstance(g.node, ast.Lambda)]


def linear(t, sign=1):
    """signed leaves of a sum"""
    if t[0] == "bin" and t[1] in ("+", "-"):
        yield from linear(t[2], sign)
        yield from linear(t[3], sign if t[1] == "+" else -sign)
    elif is_call(t, "sum", "fsum") and t[2] and t[2][0][0] in ("tuple", "list"):
        for x in t[2][0][1]:
            yield from linear(x, sign)
    elif t[0] == "un" and t[1] == "-":
        yield from linear(t[2], -sign)
    else:
        yield sign, t


KINDS = {"wall": lambda t: is_call(t, "perf_counter", "monotonic"),
         "draw": lambda t: any_sub(t, lambda y: y[0] == "a" and y[2] == "draw_times"),
         "stateful": lambda t: any_sub(t, lambda y: y[0] == "a" and y[2] == "_stateful_run_times"),
         "gc": lambda t: is_call(t, "gc_cumulative_time")}


def kind(t):
    for k, p in KINDS.items():
        if p(t):
            return k
    return None


def factor(t):
    """(factor, base) of base * k / m ..."""
    if t[0] == "bin" and t[1] in ("*", "/", "//") and t[3][0] == "c" and isinstance(t[3][2], (int, float)) and t[3][2]:
        f, b = factor(t[2])
        k = Fraction(t[3][2])
        return (f * k if t[1] == "*" else f / k), b
    if t[0] == "bin" and t[1] == "*" and t[2][0] == "c" and isinstance(t[2][2], (int, float)):
        f, b = factor(t[3])
        return f * Fraction(t[2][2]), b
    if t[0] == "bin" and t[1] == "+":
        fa, ba = factor(t[2])
        fb, bb = factor(t[3])
        if nosite(ba) == nosite(bb):
            return fa + fb, ba
    if is_call(t, "total_seconds") and t[1][0] == "a":
        return factor(t[1][1])
    return Fraction(1), t


def check_deadline(rep):
    """The wrapper that times the test is found by what it does (it raises DeadlineExceeded); every
    path through it is enumerated, the measured quantity is decomposed into signed clock readings
    and each is placed before or after the call of the test."""
    eo = rep.func(S + "execute_once")
    timed = [g for g in nested_of(rep, eo) if any(isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) == "DeadlineExceeded" for n in own_nodes(g.node))]
    helpers = [g for g in rep.p.functions.values() if g.fq not in absint.BASELINE and any(isinstance(n, ast.Name) and n.id == "DeadlineExceeded" for n in own_nodes(g.node))]
    if not timed:
        timed = [g for g in nested_of(rep, eo) if any(isinstance(n, ast.Call) and last_id(n.func) in {h.name for h in helpers} for n in own_nodes(g.node))]
    rep.check(len(timed) >= 1, "deadline-wrapper", "execute_once", eo.loc, "no wrapper raises DeadlineExceeded")
    user = lambda t: is_call(t, "test") and t[1][0] == "a"  # noqa
    for g in timed:
        def ev(k, t, x):
            if k == "call":
                if user(t):
                    return "TEST"
                kd = kind(t)
                if kd and (kd in ("wall", "gc") or is_call(t, "fsum", "sum")):
                    return kd + ":" + repr(hash(t))
        rel = lambda a: mentions(a, "deadline") or a == ("p", "is_final") or a[0] == "cmp" and a[1] == "<" or any_sub(a, lambda y: y == ("p", "is_final"))  # noqa
        outs = rep.trace(g, ev, rel, None, cap=40)
        seen = set()
        for o in outs:
            gs = guards(o)
            none = [v for k, v in gs.items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and mentions(k, "deadline")]
            cmps = [(k, v) for k, v in gs.items() if k[0] == "cmp" and k[1] == "<" and any_sub(k, lambda y: y[0] == "a" and y[2] == "deadline")]
            final = [v for k, v in gs.items() if last(k) == "is_final" and k[0] in ("p", "g", "opq")] or [v for k, v in gs.items() if show(k) == "is_final"]
            if o.kind == "raise" and o.type == ERR + "DeadlineExceeded":
                seen.add("raise")
                rep.check(none == [False], "deadline-none", "execute_once:test", loc(o), "DeadlineExceeded can be raised although no deadline is set")
                rep.check(len(cmps) == 1, "deadline-compare", "execute_once:test:raise", loc(o), f"DeadlineExceeded is raised without comparing the run time: {[show(k) for k, _ in cmps]}")
                over = [split_cmp(k, v) for k, v in cmps]
                rep.check(all(x is not None and x[2] for x in over), "deadline-direction", "execute_once:test", loc(o), "DeadlineExceeded is raised when the run time is below the deadline")
                a = o.value[2] if o.value[0] == "call" else ()
                rep.check(len(a) == 2 and any_sub(a[0], KINDS["wall"]) and mentions(a[1], "deadline"), "deadline-report", "execute_once:test", loc(o), "DeadlineExceeded does not report the run time and the deadline")
                for x in over:
                    if x:
                        judge(rep, x, final, o, timed)
            elif o.kind == "return":
                rep.check(user(o.value), "deadline-result", "execute_once:test", loc(o), f"the timing wrapper returns {show(o.value)} instead of the test's result")
                if none and none[0]:
                    seen.add("none")
                    rep.check(not cmps, "deadline-none", "execute_once:test:compare", loc(o), "time is compared although no deadline is set")
                else:
                    seen.add("return")
                    rep.check(len(cmps) == 1 and split_cmp(*cmps[0]) is not None and not split_cmp(*cmps[0])[2], "deadline-enforced", "execute_once:test", loc(o), f"a slow test passes: the run time is not compared with the deadline on this path ({[show(k) for k, _ in cmps]})")
                    for k, v in cmps:
                        x = split_cmp(k, v)
                        if x:
                            judge(rep, x, final, o, timed)
        for w in ("raise", "none", "return"):
            rep.check(w in seen, "deadline-live", f"execute_once:test:{w}", g.loc, f"the timing wrapper has no path where the outcome is '{w}'")
    # the untimed wrapper is used only without a deadline
    untimed = [g for g in nested_of(rep, eo) if g not in timed and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "test" for n in own_nodes(g.node))]
    names = {g.fq for g in untimed}
    if untimed:
        sites, _ = rep.sites(eo, lambda k, t, x: "run" if k == "call" and last(t[1]) == "test_runner" else None, lambda a: mentions(a, "deadline") or mentions(a, "TESTCASE_CALLBACKS"), lambda g, c, r: False)
        rep.check(bool(sites), "deadline-choice", "execute_once", eo.loc, "the test is never run")
        for s in sites:
            vals = [v for k, v in s.state.env.items()]
            un = any(any_sub(v, lambda y: y[0] == "fn" and (y[1] in names or "." + y[1] in names)) for v in vals if isinstance(v, tuple))
            if un:
                rep.check(s.has(lambda a: a[0] == "cmp" and a[1] == "is" and a[3] == NONE and mentions(a, "deadline")), "deadline-choice", "execute_once", s.loc, "the test runs without the timing wrapper although a deadline may be set")
    # who passes is_final
    for f, want in ((rep.func(S + "run_engine"), True), (rep.func(CORE + "execute_explicit_examples"), True), (rep.func(S + "_execute_once_for_engine"), False)):
        sites, _ = rep.sites(f, lambda k, t, x: "once" if k == "call" and last(t[1]) == "execute_once" else None, lambda a: False, None, prune=lambda a: False)
        rep.check(bool(sites), "final-flag", f.name, f.loc, "the test is never executed")
        for s in sites:
            fin = arg(s.term, None, "is_final") or FALSE
            rep.check((fin == TRUE) == want and fin in (TRUE, FALSE), "final-flag", f.name, s.loc, f"is_final={show(fin)} is passed here, so the deadline tolerance is {'kept' if want else 'dropped'}")
    a = eo.node.args
    d = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
    rep.check(isinstance(d.get("is_final"), ast.Constant) and d["is_final"].value is False, "final-flag", "execute_once:default", eo.loc, "is_final is not false by default")
    flaky(rep)
    # data generation is timed into draw_times at the top level
    dr = rep.func("hypothesis.internal.conjecture.data.ConjectureData.draw")
    sites, outs = rep.sites(dr, lambda k, t, x: "t" if k == "setitem" and last(t[1]) == "draw_times" else None, lambda a: mentions(a, "depth"), None, ev=lambda k, t, x: "draw" if k == "call" and last(t[1]) == "do_draw" else None)
    rep.check(bool(sites), "draw-timed", "ConjectureData.draw", dr.loc, "data generation time is not recorded, so it counts against the deadline")
    for s in sites:
        parts = [(g, kind(t)) for g, t in linear(s.value)]
        pos = sorted(k or "?" for g, k in parts if g > 0)
        neg = sorted(k or "?" for g, k in parts if g < 0)
        rep.check(pos == ["gc", "wall"] and neg == ["gc", "wall"], "draw-timed", "ConjectureData.draw:value", s.loc, f"the recorded generation time is {show(s.value)}")
        rep.check("draw" in s.auto, "draw-timed", "ConjectureData.draw:order", s.loc, "the generation time is recorded before anything is generated")
    nested_top = [o for o in outs if o.kind == "return" and any(k[0] == "cmp" and k[1] == "==" and mentions(k, "depth") and v for k, v in guards(o).items())]
    got = rep.trace(dr, lambda k, t, x: "t" if k == "setitem" and last(t[1]) == "draw_times" else None, lambda a: mentions(a, "depth"))
    for o in got:
        top = [v for k, v in guards(o).items() if k[0] == "cmp" and k[1] == "==" and mentions(k, "depth")]
        if o.kind == "return" and top:
            rep.check(("t" in o.state.auto) == top[0], "draw-timed", f"ConjectureData.draw:{'top' if top[0] else 'nested'}", loc(o), "top-level generation time is not recorded exactly once")


def last_id(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


def split_cmp(k, v):
    """(runtime, limit, exceeds?) of a `<` atom and its truth value"""
    l, r = k[2], k[3]
    ld, rd = (any_sub(x, lambda y: y[0] == "a" and y[2] == "deadline") for x in (l, r))
    if rd and not ld:
        return l, r, not v
    if ld and not rd:
        return r, l, v
    return None


def judge(rep, x, final, o, timed):
    runtime, limit, _ = x
    rt = runtime[2][0] if is_call(runtime, "timedelta") and runtime[2] else (dict(runtime[3]).get("seconds", runtime) if is_call(runtime, "timedelta") else runtime)
    order = list(o.state.auto)
    ti = order.index("TEST") if "TEST" in order else -1
    have = {}
    for sg, t in linear(rt):
        k = kind(t)
        if k is None:
            rep.check(False, "runtime-terms", f"execute_once:test:{show(t)}", loc(o), f"the measured time contains {show(t)}")
            continue
        lab = k + ":" + repr(hash(t))
        pos = [i for i, y in enumerate(order) if y == lab]
        when = "?" if not pos or ti < 0 else ("before" if pos[0] < ti else "after")
        have.setdefault(k, []).append((sg, when))
    want = {"wall": [(-1, "before"), (1, "after")], "draw": [(-1, "after"), (1, "before")], "stateful": [(-1, "after"), (1, "before")], "gc": [(-1, "after"), (1, "before")]}
    for k, w in want.items():
        rep.check(sorted(have.get(k, [])) == sorted(w), "runtime-terms", f"execute_once:test:{k}", loc(o), f"the measured time does not account for {k} time as after-minus-before the test: {have.get(k)}")
    f, b = factor(limit)
    fin = final[0] if final else None
    if fin is None:
        rep.check(f == 1 and False, "deadline-tolerance", "execute_once:test", loc(o), "the deadline tolerance does not depend on whether this is the final run")
    elif fin:
        rep.check(f == 1, "deadline-tolerance", "execute_once:test:final", loc(o), f"the final run is held to {float(f)} times the deadline")
    else:
        rep.check(f > 1, "deadline-tolerance", "execute_once:test:search", loc(o), f"while searching, the test is held to {float(f)} times the deadline, so the final run may pass")


def flaky(rep):
    eo = rep.func(S + "execute_once")
    n = 0
    for o in rep.trace(eo, lambda k, t, x: "ran" if k == "call" and last(t[1]) == "test_runner" else None, lambda a: a[0] == "cmp" and a[2] == ("p", "expected_failure") or a == ("p", "expected_failure"), lambda g, c, r: False):
        g = guards(o)
        e = [v for k, v in g.items() if k == ("cmp", "is", ("p", "expected_failure"), NONE)] + [not v for k, v in g.items() if k == ("p", "expected_failure")]
        rep.check("ran" in o.state.auto, "replay-runs", "execute_once", loc(o), "the test is not run")
        if o.kind == "return":
            rep.check(e == [True], "replay-must-fail", "execute_once", loc(o), "a failure that does not reproduce is not reported as flaky")
            rep.check(is_call(o.value, "test_runner"), "replay-result", "execute_once", loc(o), f"execute_once returns {show(o.value)} instead of the test's result")
        elif e == [False]:
            n += 1
            rep.check(o.type == ERR + "FlakyFailure", "replay-flaky", "execute_once", loc(o), f"a failure that does not reproduce is reported as {o.type}")
    rep.check(n >= 1, "replay-must-fail", "execute_once:live", eo.loc, "no path reports a failure that does not reproduce")


# ----------------------------------------------------------------------------------------------- E08
INV = {"compress": "decompress", "b64encode": "b64decode", "choices_to_bytes": "choices_from_bytes", "hexlify": "unhexlify"}


def layers(t, base):
    """names of the one-argument calls, slices and prefixes applied to base, outermost first"""
    out = []
    while t != base:
        if t[0] == "call" and t[2]:
            out.append(last(t[1]))
            t = t[2][0]
        elif t[0] == "bin" and t[1] == "+" and t[2][0] == "c":
            out.append(("prefix", t[2][2]))
            t = t[3]
        elif t[0] == "sub" and t[2][0] == "slice":
            out.append(("drop", t[2][1][2] if t[2][1] is not None and t[2][1][0] == "c" else None, t[2][2] if len(t[2]) > 2 else None))
            t = t[1]
        else:
            return None
    return out


def check_blobs(rep):
    """Encoder and decoder are symbolically composed: for every path through encode_failure the tower
    of transformations is read off and the decoder path selected by its prefix must be its inverse."""
    enc, dec = rep.func(CORE + "encode_failure"), rep.func(CORE + "decode_failure")
    encs = {}
    for o in rep.trace(enc, None, lambda a: True):
        if o.kind != "return":
            rep.bad("encode-total", "encode_failure", loc(o), f"encoding a failure can raise {o.type}")
            continue
        lay = layers(o.value, ("p", "choices"))
        rep.check(lay is not None and any(isinstance(x, tuple) and x[0] == "prefix" for x in lay), "encode-shape", "encode_failure", loc(o), f"not a tower of transformations of the choices: {show(o.value)}")
        if lay:
            p = next((x[1] for x in lay if isinstance(x, tuple) and x[0] == "prefix"), None)
            rep.check(p not in encs or encs[p] == lay, "encode-prefix", "encode_failure", loc(o), f"prefix {p!r} stands for two different encodings")
            rep.check(isinstance(p, bytes) and len(p) >= 1, "encode-prefix", "encode_failure:tag", loc(o), f"prefix {p!r} is not a tag")
            encs[p] = lay
    rep.check(len(encs) >= 1, "encode-shape", "encode_failure:live", enc.loc, "nothing is encoded")
    decs = {}
    BAD = ("builtins.Exception",)
    danger = {"b64decode": ("binascii.Error",), "decompress": ("zlib.error",)}
    outs = rep.trace(dec, None, lambda a: True, exc=True, raises=lambda c: ("pseudo.User",) if last(c[1]) in ("b64decode",) else (("zlib.error",) if last(c[1]) == "decompress" else ()))
    for o in outs:
        if o.kind == "raise":
            rep.check(o.type == ERR + "InvalidArgument", "decode-refuses", f"decode_failure:{o.type}", loc(o), f"a malformed blob ends as {o.type} instead of InvalidArgument")
            continue
        lay = layers(o.value, ("p", "blob"))
        rep.check(lay is not None, "decode-shape", "decode_failure", loc(o), f"not a tower of transformations of the blob: {show(o.value)}")
        pref = [k[3][2] for k, v in guards(o).items() if v and k[0] == "cmp" and k[1] == "==" and k[3][0] == "c" and isinstance(k[3][2], bytes)]
        pref += [k[2][0][2] for k, v in guards(o).items() if v and is_call(k, "startswith") and k[2] and k[2][0][0] == "c" for k in [k] if k[2]]
        nn = [v for k, v in guards(o).items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and is_call(k[2], "choices_from_bytes")]
        rep.check(nn == [False], "decode-refuses", "decode_failure:None", loc(o), "a blob that is not a choice sequence is accepted")
        if lay is not None:
            rep.check(len(pref) == 1, "decode-prefix", "decode_failure", loc(o), f"a blob is decoded without checking its prefix ({pref})")
            if len(pref) == 1:
                decs[pref[0]] = (lay, o)
    for p, lay in encs.items():
        if p not in decs:
            rep.bad("blob-round-trip", f"prefix {p!r}", dec.loc, f"blobs with prefix {p!r} are written but not decoded")
            continue
        want = []
        for x in reversed(lay):
            want.append(("drop", len(x[1]), None) if isinstance(x, tuple) else INV.get(x, "inverse of " + str(x)))
        want = want  # innermost encode layer first = outermost decode layer first
        have = decs[p][0]
        rep.check(have == want, "blob-round-trip", f"prefix {p!r}", loc(decs[p][1]), f"blobs with prefix {p!r} are encoded by {lay} but decoded by {have}")
    # malformed: every decoding step that can fail is guarded (exceptions above); unknown prefixes
    some = [o for o in outs if o.kind == "raise" and not any(v and k[0] == "cmp" and k[1] == "==" and k[3][0] == "c" and isinstance(k[3][2], bytes) for k, v in guards(o).items())]
    rep.check(bool(some), "decode-refuses", "decode_failure:prefix", dec.loc, "unknown prefixes are not refused")
    # the test entry point
    wt = find_fn(rep, "run_test_as_given.<locals>.wrapped_test")
    rep_none = lambda g: [v for k, v in g.items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and mentions(k, "_hypothesis_internal_use_reproduce_failure")]  # noqa

    def ev(k, t, x):
        if k == "call" and last(t[1]) in ("execute_once", "run_engine", "execute_explicit_examples"):
            return last(t[1])

    rel = lambda a: mentions(a, "_hypothesis_internal_use_reproduce_failure") or mentions(a, "__version__")  # noqa
    n = 0
    once = lambda c: is_call(c, "execute_once")  # noqa
    for o in rep.trace(wt, ev, rel, lambda g, c, r: False, prune=rel):
        g = guards(o)
        r = rep_none(g) or [not v for k, v in g.items() if k[0] == "a" and k[2] == "_hypothesis_internal_use_reproduce_failure"]
        ver = [v for k, v in g.items() if k[0] == "cmp" and k[1] == "==" and mentions(k, "__version__")]
        if r == [False]:
            n += 1
            rep.check(o.kind == "raise", "blob-never-silent", "wrapped_test", loc(o), "a test with reproduce_failure can pass")
            if o.kind == "raise":
                rep.check(len(ver) == 1, "blob-version", "wrapped_test", loc(o), "the version of the blob is not checked")
                if ver and not ver[0]:
                    rep.check("execute_once" not in o.state.auto and o.type.endswith("InvalidArgument"), "blob-version", "wrapped_test:mismatch", loc(o), "a blob of another version is replayed")
            rep.check("run_engine" not in o.state.auto, "blob-never-silent", "wrapped_test:engine", loc(o), "a test with reproduce_failure generates other examples")
    rep.check(n >= 2, "blob-never-silent", "wrapped_test:live", wt.loc, "reproduce_failure is ignored")
    for t, outs in rep.matrix(wt, once, [UNSAT, STOP, "pseudo.User", KBI, "pseudo.Skip", FHC], None, relevant=rel, prune=rel).items():
        outs = [o for o in outs if rep_none(guards(o)) == [False] and o.type != ERR + "InvalidArgument" and not (o.type or "").endswith("AssertionError")]
        m = t.rsplit(".", 1)[-1]
        rep.check(bool(outs), "blob-outcome", f"wrapped_test:{m}", wt.loc, "the blob is not replayed")
        for o in outs:
            if t in (UNSAT, STOP):
                rep.check(o.kind == "raise" and o.type == ERR + "DidNotReproduce", "blob-outcome", f"wrapped_test:{m}", loc(o), f"a blob that no longer applies ends as {o.kind} {o.type or ''}")
            else:
                rep.check(same(o, t), "blob-outcome", f"wrapped_test:{m}", loc(o), f"the reproduced {m} ends as {o.kind} {o.type or ''}")
    sites, _ = rep.sites(wt, lambda k, t, x: "once" if k == "call" and last(t[1]) == "execute_once" else None, rel, lambda g, c, r: False, prune=rel)
    for s in sites:
        rep.check(s.term[2] and is_call(s.term[2][0], "for_choices") and any_sub(s.term[2][0], lambda y: is_call(y, "decode_failure")), "blob-replayed", "wrapped_test", s.loc, "the replayed choices are not the decoded blob")
    # the printed blob
    re_ = rep.func(S + "run_engine")
    n = 0
    sites, _ = rep.sites(re_, lambda k, t, x: "enc" if k == "call" and last(t[1]) == "encode_failure" else None, lambda a: False, None, prune=lambda a: False)
    for s in sites:
        n += 1
        c = arg(s.term, 0, "choices")
        rep.check(c is not None and c[0] == "a" and c[2] == "choices", "blob-printed", "run_engine", s.loc, f"the printed blob encodes {show(c)}")
    rep.check(n >= 1, "blob-printed", "run_engine:live", re_.loc, "no blob is printed")
    rf = rep.func(CORE + "reproduce_failure")
    acc = [g for g in nested_of(rep, rf)]
    ok = False
    for g in acc:
        for s in rep.sites(g, lambda k, t, x: "set" if k == "setattr" and t[2] == "_hypothesis_internal_use_reproduce_failure" else None)[0]:
            v = s.value
            ok = v[0] == "tuple" and len(v[1]) == 2 and [last(x) or show(x) for x in v[1]] == ["version", "blob"]
            rep.check(ok, "blob-decorator", "reproduce_failure", s.loc, f"the decorator stores {show(v)}")
    rep.check(ok, "blob-decorator", "reproduce_failure:live", rf.loc, "the decorator does not record the blob")


# ----------------------------------------------------------------------------------------------- E09
def check_raises(rep):
    """Starting from the adoption of a failure, every path of the reporting code must raise: the replay
    raises the error or reports flakiness, the collected failures are raised together, and no guard but
    the listed ones (no failure found) leads to a normal return."""
    re_ = rep.func(S + "run_engine")
    inter = lambda a: mentions(a, "interesting_examples") or mentions(a, "falsifying_examples") or mentions(a, "call_count")  # noqa

    def ev(k, t, x):
        if k == "call":
            n = last(t[1])
            if n == "execute_once":
                return "replay"
            if n == "_raise_to_user":
                return "raise_to_user"
            if n in ("append", "extend") and t[1][0] == "a" and (t[1][1][0] in ("list", "phi")) and t[2] and t[2][0][0] == "tuple":
                return "collect"
        if k == "catch":
            return "caught"
        if k == "setattr" and t[2] == "falsifying_examples" and self_attr(t):
            return "fals"

    once = lambda c: is_call(c, "execute_once")  # noqa
    types = [UNSAT, STOP, "pseudo.User", KBI, "pseudo.Skip", SYSX, ERR + "FlakyFailure", "pseudo.Base", ERR + "DeadlineExceeded", FHC, BCP]
    for t, outs in rep.matrix(re_, once, types, ev, inline=lambda g, c, r: False, relevant=inter, prune=inter).items():
        n = t.rsplit(".", 1)[-1]
        hit = False
        for o in outs:
            a = o.state.auto
            if "caught" not in a and o.kind == "return":
                g = guards(o)
                ok = any(v and k[0] == "cmp" and k[1] == "==" and mentions(k, "call_count") for k, v in g.items()) or any(v is False and (last(k) in ("interesting_examples", "falsifying_examples") or k[0] in ("call", "list", "tuple", "comp") and mentions(k, "interesting_examples") and not any_sub(k, lambda y: y[0] == "comp" and y[4] or y[0] == "slice" or is_call(y, "filter"))) for k, v in g.items()) or any(v is False and mentions(k, "call_count") and last(k) == "call_count" for k, v in g.items())
                rep.check(ok, "failure-not-lost", f"run_engine:{n}", loc(o), f"the run can end normally although failures were found: {[('' if v else 'not ') + show(k) for k, v in g.items()]}")
            elif "caught" in a:
                hit = True
                rep.check(o.kind == "raise", "replay-outcome-raises", f"run_engine:{n}", loc(o), f"when the final replay ends in {n}, the test passes")
                if o.kind == "raise" and o.type == "*":
                    rep.check("raise_to_user" in a or "collect" in a, "replay-outcome-collected", f"run_engine:{n}", loc(o), f"the outcome {n} of the final replay is not among the reported errors")
        rep.check(hit, "matrix-live", f"run_engine:{n}", re_.loc, f"{n} from the final replay is not handled")
    # a replay that returns normally
    for o in rep.trace(re_, ev, inter, lambda g, c, r: False, prune=inter, noreturn=lambda c, g: None):
        if "replay" in o.state.auto:
            rep.check(o.kind == "raise", "replay-outcome-raises", "run_engine:pass", loc(o), "when the final replay passes, the test passes")
    # the replay is told what failure to expect
    sites, _ = rep.sites(re_, lambda k, t, x: "once" if k == "call" and last(t[1]) == "execute_once" else None, lambda a: False, lambda g, c, r: False, prune=lambda a: False)
    rep.check(bool(sites), "replay-live", "run_engine", re_.loc, "failures are not replayed")
    for s in sites:
        e = arg(s.term, None, "expected_failure")
        rep.check(e is not None and e != NONE and mentions(e, "expected_exception"), "replay-expects-failure", "run_engine", s.loc, "the final replay is not told which failure to expect, so a pass would go unnoticed")
        d = s.term[2][0] if s.term[2] else NONE
        rep.check(any_sub(d, lambda y: y[0] == "a" and y[2] == "choices"), "replay-same-choices", "run_engine", s.loc, f"the final replay runs on {show(d)}")
    # which failures are replayed
    sites, _ = rep.sites(re_, lambda k, t, x: "fals" if k == "setattr" and t[2] == "falsifying_examples" and t[1] == ("p", "self") else ("del" if k == "del" and mentions(t, "falsifying_examples") else None), lambda a: inter(a) or mentions(a, "report_multiple_bugs") or mentions(a, "pytest_shows_exceptiongroups"), lambda g, c, r: False, prune=lambda a: False)
    for s in sites:
        if s.label == "fals":
            v = s.value
            full = any_sub(v, lambda y: is_call(y, "values") and mentions(y[1], "interesting_examples")) and not any_sub(v, lambda y: y[0] == "comp" and y[4]) and not any_sub(v, lambda y: is_call(y, "filter") or y[0] == "slice")
            multi = [x for a, x in s.guards.items() if mentions(a, "report_multiple_bugs") or mentions(a, "pytest_shows_exceptiongroups")]
            rep.check(full or False in multi, "all-failures-reported", "run_engine", s.loc, f"only some failures are reported: {show(v)}")
        else:
            multi = [x for a, x in s.guards.items() if mentions(a, "report_multiple_bugs") or mentions(a, "pytest_shows_exceptiongroups")]
            rep.check(False in multi, "all-failures-reported", "run_engine:del", s.loc, "failures are dropped although several may be reported")
            sl = s.term[2] if s.term[0] == "sub" else None
            one = sl is not None and sl[0] == "slice" and (sl[1] in (None, NONE) and sl[2] == ("un", "-", const(1)) or sl[1] in (None, NONE) and sl[2] == const(-1) or sl[1] == const(1))
            rep.check(one, "one-failure-kept", "run_engine:del", s.loc, f"dropping {show(s.term)} may leave no failure to report")
    rep.check(any(s.label == "fals" for s in sites), "all-failures-reported", "run_engine:live", re_.loc, "found failures are never looked at")
    # _raise_to_user
    ru = rep.func(CORE + "_raise_to_user")
    kinds = set()
    for o in rep.trace(ru, None, lambda a: any_sub(a, lambda y: is_call(y, "len")) or a == ("p", "errors_to_report"), prune=lambda a: False):
        rep.check(o.kind == "raise", "always-raises", "_raise_to_user", loc(o), "_raise_to_user can return, so the test passes")
        if o.kind != "raise" or o.type == "builtins.AssertionError":
            continue
        one = [v for k, v in guards(o).items() if k[0] == "cmp" and k[1] == "==" and any_sub(k, lambda y: is_call(y, "len")) and const(1) in k]
        more = [not v for k, v in guards(o).items() if k[0] == "cmp" and k[1] == "<" and k[2] == const(1)]
        if is_call(o.value, "BaseExceptionGroup", "ExceptionGroup"):
            kinds.add("group")
            rep.check((one + more) == [False], "raises-the-failures", "_raise_to_user:group", loc(o), "a group is raised although there may be one failure only")
            a = o.value[2][1] if len(o.value[2]) > 1 else NONE
            rep.check(last(o.value[1]) == "BaseExceptionGroup", "raises-the-failures", "_raise_to_user:group type", loc(o), "the group cannot hold every failure")
            rep.check(any_sub(a, lambda y: y == ("p", "errors_to_report")) and not any_sub(a, lambda y: y[0] == "comp" and y[4] or y[0] == "slice"), "raises-the-failures", "_raise_to_user:all", loc(o), f"the group holds only {show(a)}")
        else:
            kinds.add("one")
            rep.check((one + more) == [True], "raises-the-failures", "_raise_to_user:one", loc(o), "a single failure is raised although there may be several")
            v = o.value
            rep.check(v[0] == "sub" and v[2] == const(1) and any_sub(v, lambda y: y == ("p", "errors_to_report")), "raises-the-failures", "_raise_to_user:value", loc(o), f"what is raised is {show(v)}")
    rep.check(kinds == {"group", "one"}, "raises-the-failures", "_raise_to_user:live", ru.loc, "single and multiple failures are not both reported")
    flaky(rep)
    # explicit failures and engine failures leave wrapped_test as errors
    wt = find_fn(rep, "run_test_as_given.<locals>.wrapped_test")
    for o in rep.trace(wt, lambda k, t, x: "explicit" if k == "call" and last(t[1]) == "execute_explicit_examples" else ("rtu" if k == "call" and last(t[1]) == "_raise_to_user" else None),
                       lambda a: any_sub(a, lambda y: is_call(y, "execute_explicit_examples")) and not any_sub(a, lambda y: is_call(y, "isinstance")), lambda g, c, r: False,
                       prune=lambda a: False, noreturn=lambda c, g: True if last(c[1]) == "_raise_to_user" else None):
        bad = [v for k, v in guards(o).items() if any_sub(k, lambda y: is_call(y, "execute_explicit_examples")) and k[0] in ("call", "phi", "list", "comp")]
        if "explicit" in o.state.auto and o.kind == "return":
            rep.check(bad == [False], "explicit-failures-raised", "wrapped_test", loc(o), "failures of explicit examples are dropped")
    # distinct errors have distinct origins
    io = rep.func("hypothesis.internal.escalation.InterestingOrigin.from_exception")
    cx = lambda a: mentions(a, "__context__")  # noqa
    with_context = 0
    for o in rep.trace(io, None, cx, prune=cx):
        if o.kind == "return":
            v = o.value
            ks = dict(v[3]) if v[0] == "call" else {}
            txt = show(v)
            for w in ("type(exception)", "tb_lineno", "filename"):
                pass
            args = list(v[2]) + list(ks.values()) if v[0] == "call" else []
            rep.check(len(args) >= 5, "origin-parts", "from_exception", loc(o), f"the origin of an error is {txt}")
            rep.check(any(is_call(x, "type") for x in args), "origin-parts", "from_exception:type", loc(o), "errors of different types are merged")
            got = any(mentions(x, "__context__") for x in args)
            with_context += got
            none = [x for a, x in guards(o).items() if a[0] == "cmp" and a[1] == "is" and a[3] == NONE] + [x for a, x in guards(o).items() if a[0] == "cmp" and a[1] == "in"] + [not x for a, x in guards(o).items() if a[0] == "a"]
            rep.check(got or True in none, "origin-parts", "from_exception:context", loc(o), "errors with different causes are merged")
    rep.check(with_context > 0, "origin-parts", "from_exception:context live", io.loc, "errors with different causes are merged")


# ----------------------------------------------------------------------------------------------- E11
def check_explicit(rep):
    """Every explicit example is executed unless the explicit phase is off or an earlier one failed and only
    the first is to be reported; arguments are paired with parameters as declared; xfail and raises are
    decided per exception class."""
    f = rep.func(CORE + "execute_explicit_examples")
    # order: appended by the decorators (applied bottom up), iterated in reverse
    add = rep.func(CORE + "example.__call__")
    how = set()
    for s in rep.sites(add, lambda k, t, x: "app" if k == "call" and last(t[1]) in ("append", "insert", "appendleft") and mentions(t[1], "hypothesis_explicit_examples") else ("set" if k == "setattr" and t[2] == "hypothesis_explicit_examples" else None))[0]:
        if s.label == "app":
            how.add("front" if last(s.term[1]) == "appendleft" or last(s.term[1]) == "insert" and s.term[2][0] == const(0) else "back")
            a = s.term[2][-1]
            rep.check(mentions(a, "_this_example"), "example-recorded", "example.__call__", s.loc, f"the decorator records {show(a)}")
        elif s.value[0] == "bin":
            how.add("back" if mentions(s.value[2], "hypothesis_explicit_examples") or any_sub(s.value[2], lambda y: y == const("hypothesis_explicit_examples")) else "front")
    rep.check(len(how) == 1, "example-recorded", "example.__call__:live", add.loc, "the decorator does not record its example")
    for o in rep.trace(add, lambda k, t, x: "app" if k == "call" and last(t[1]) in ("append", "insert", "appendleft") or k == "setattr" and x["value"][0] == "bin" else None, lambda a: True):
        rep.check(o.kind != "return" or "app" in o.state.auto and o.value == ("p", "test"), "example-recorded", "example.__call__:paths", loc(o), "the decorator can forget its example or return something else than the test")
    its = []

    class L(Trace):
        def on_loop(self, auto, it, node, st, ai):
            if ai.func.fq == f.fq and any_sub(it, lambda y: y == const("hypothesis_explicit_examples") or y[0] == "a" and y[2] == "hypothesis_explicit_examples"):
                its.append((it, node))
            return auto
    rep.run(f, L(None, lambda a: False, prune=lambda a: False))
    rep.check(bool(its), "all-examples", "execute_explicit_examples", f.loc, "the explicit examples are never iterated")
    for it, node in its:
        rev = any_sub(it, lambda y: is_call(y, "reversed")) or any_sub(it, lambda y: y[0] == "slice" and y[-1] in (("un", "-", const(1)), const(-1)))
        rep.check(rev == ("back" in how), "example-order", "execute_explicit_examples", nloc(f, node), "explicit examples do not run in the order in which they are written")
        rep.check(not any_sub(it, lambda y: y[0] == "comp" and y[4] or is_call(y, "filter", "islice", "set", "sorted")) and (rev or not any_sub(it, lambda y: y[0] == "slice")), "all-examples", "execute_explicit_examples:iter", nloc(f, node), f"only some explicit examples run: {show(it)}")
    # each iteration runs the example unless the phase is off; after a yield only may the loop stop
    def ev(k, t, x):
        if k == "loop" and x["ai"].func.fq == f.fq and its and x["node"] is its[0][1]:
            return "iter"
        if k == "call" and last(t[1]) == "execute_once":
            return "run"
        if k == "yield":
            return "yield"
        if k == "catch":
            return "caught"
        if k == "call" and last(t[1]) == "add" and mentions(t[1], "xfail_example_reprs"):
            return "xfailed"

    ph = lambda a: a[0] == "cmp" and mentions(a, "explicit", "phases")  # noqa
    rel = lambda a: ph(a) or a[0] == "cmp" and mentions(a, "raises") or is_call(a, "isinstance") and any_sub(a, lambda y: y[0] == "a" and y[2] == "raises") or mentions(a, "report_multiple_bugs")  # noqa
    segs = set()
    outs = rep.trace(f, ev, rel, lambda g, c, r: False, exc=True, raises=lambda c: (), heads=("iter",), prune=rel)
    for o in outs:
        if o.kind == "return" and "iter" in o.state.auto and "run" not in o.state.auto:
            rep.check(any(ph(k) and v is False for k, v in guards(o).items()), "all-examples", "execute_explicit_examples:skip", loc(o), "an explicit example is skipped although the explicit phase is enabled")
    sg, _ = rep.segments(f, ev, ("iter",), rel, lambda g, c, r: False, exc=True, raises=lambda c: ("pseudo.User",) if is_call(c, "execute_once") else (), prune=lambda a: False)
    ran = [s for s in sg if s[0] == "iter" and "run" in s[1]]
    rep.check(bool(ran), "all-examples", "execute_explicit_examples:live", f.loc, "explicit examples are never executed")
    # what is executed
    sites, _ = rep.sites(f, lambda k, t, x: "once" if k == "call" and last(t[1]) == "execute_once" else None, rel, lambda g, c, r: False, prune=rel, ev=ev, heads=("iter",))
    for s in sites:
        ek = arg(s.term, None, "example_kwargs")
        rep.check(ek is not None and ek != NONE, "example-arguments", "execute_explicit_examples", s.loc, "the example's arguments are not passed to the test")
        rep.check(s.has(ph), "phase-gated", "execute_explicit_examples", s.loc, "explicit examples run although the explicit phase is disabled")
    # exact arguments: example_kwargs comes from the example's own args/kwargs
    src = {n.attr for n in own_nodes(f.node) if isinstance(n, ast.Attribute)}
    # matrix: outcome of one example
    exi = lambda c: is_call(c, "execute_once")  # noqa
    concl = {m: (STOP,) for m in ("conclude_test", "mark_invalid", "mark_interesting")}  # they end the test case
    types = [UNSAT, STOP, "pseudo.User", KBI, "pseudo.Skip", SYSX, "pseudo.Failed", "pseudo.Base", FHC]
    for t, outs in rep.matrix(f, exi, types, ev, inline=lambda g, c, r: False, relevant=rel, heads=("iter",), prune=rel, raising=concl).items():
        n = t.rsplit(".", 1)[-1]
        hit = False
        for o in outs:
            a, g = o.state.auto, guards(o)
            if "caught" not in a:
                continue
            hit = True
            if o.kind == "raise" and o.type == "*" and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(o.node)):
                continue  # thrown in by the consumer of the reports
            if o.kind == "raise":
                rep.check(o.type in ("builtins.AssertionError",) or o.type == ERR + "InvalidArgument", "example-outcome", f"execute_explicit_examples:{n}", loc(o), f"{n} from an explicit example escapes as {o.type} without being reported")
                continue
            expected = any(is_call(k, "isinstance") and mentions(k, "raises") and v for k, v in g.items())
            if t == UNSAT:
                rep.check("yield" not in a or True, "example-outcome", f"execute_explicit_examples:{n}", loc(o), "")
            elif expected:
                rep.check("xfailed" in a or "yield" in a, "example-outcome", f"execute_explicit_examples:{n}:xfail", loc(o), "an expected failure is not recorded")
            else:
                rep.check("yield" in a, "example-outcome", f"execute_explicit_examples:{n}", loc(o), f"{n} from an explicit example is dropped")
        rep.check(hit, "matrix-live", f"execute_explicit_examples:{n}", f.loc, f"{n} from an explicit example is not handled")
    # rejected examples are skipped: no report when the example is not an xfail
    none_raises = lambda g: [v for k, v in g.items() if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and mentions(k, "raises")]  # noqa
    for o in rep.matrix(f, exi, [UNSAT], ev, inline=lambda g, c, r: False, relevant=rel, heads=("iter",), prune=rel, raising=concl)[UNSAT]:
        if "caught" in o.state.auto and o.kind == "return" and none_raises(guards(o)) == [True]:
            rep.check("yield" not in o.state.auto, "rejected-skipped", "execute_explicit_examples", loc(o), "a rejected explicit example is reported as a failure")
    # xfail: passing example is a failure
    for o in rep.trace(f, ev, rel, lambda g, c, r: False, exc=True, raises=lambda c: (), heads=("iter",), prune=rel):
        a, g = o.state.auto, guards(o)
        if "run" in a and o.kind == "return" and none_raises(g) == [False]:
            rep.check("yield" in a, "xfail-must-fail", "execute_explicit_examples", loc(o), "an example marked xfail passes silently")
        if "run" in a and o.kind == "return" and none_raises(g) == [True]:
            rep.check("yield" not in a, "pass-is-pass", "execute_explicit_examples", loc(o), "a passing explicit example is reported")
    # what is yielded is the failure
    ys, _ = rep.sites(f, lambda k, t, x: "y" if k == "yield" else None, lambda a: False, lambda g, c, r: False, exc=True, raises=lambda c: ("pseudo.User",) if exi(c) else (), prune=lambda a: False)
    for s in ys:
        v = s.term
        rep.check(v[0] == "tuple" and len(v[1]) == 2 and (any_sub(v[1][1], lambda y: y[0] == "exc") or is_call(v[1][1], "HypothesisWarning")), "yields-failure", "execute_explicit_examples", s.loc, f"what is reported for a failing explicit example is {show(v)}")
    # the entry point consumes all of them before the engine
    wt = find_fn(rep, "run_test_as_given.<locals>.wrapped_test")

    def ev2(k, t, x):
        if k == "call":
            n = last(t[1])
            if n in ("execute_explicit_examples", "run_engine", "_raise_to_user"):
                return n
            if n == "list" and t[2] and is_call(t[2][0], "execute_explicit_examples"):
                return "all"
        if k == "loop" and is_call(t, "execute_explicit_examples"):
            return "all"

    rp = lambda a: mentions(a, "_hypothesis_internal_use_reproduce_failure")  # noqa
    for o in rep.trace(wt, ev2, rp, lambda g, c, r: False, prune=rp):
        a = o.state.auto
        if "run_engine" in a:
            rep.check("execute_explicit_examples" in a and a.index("execute_explicit_examples") < a.index("run_engine"), "explicit-first", "wrapped_test", loc(o), "generation starts before the explicit examples have run")
            rep.check("all" in a or any_list(rep, wt), "explicit-all", "wrapped_test", loc(o), "the explicit examples are not all run")
        if o.kind == "return":
            rep.check("execute_explicit_examples" in a, "explicit-first", "wrapped_test:return", loc(o), "the test can pass without running its explicit examples")
    # decorator markers
    xf = rep.func(CORE + "example.xfail")
    n = 0
    for s in rep.sites(xf, lambda k, t, x: "set" if k == "setattr" and t[2] == "_this_example" else None)[0]:
        n += 1
        kw = dict(s.value[3]) if s.value[0] == "call" else {}
        rep.check(kw.get("raises") == ("p", "raises") and mentions(s.value, "_this_example"), "xfail-marker", "example.xfail", s.loc, f"xfail records {show(s.value)}")
        rep.check(s.has(lambda a: a == ("p", "condition")), "xfail-condition", "example.xfail", s.loc, "xfail ignores its condition")
    rep.check(n >= 1, "xfail-marker", "example.xfail:live", xf.loc, "xfail is ignored")
    for nm in ("xfail", "via"):
        g = rep.func(CORE + "example." + nm)
        for o in rep.trace(g, lambda k, t, x: "set" if k == "setattr" else None, lambda a: True):
            if o.kind == "return":
                rep.check(o.value == ("p", "self"), "marker-chain", f"example.{nm}", loc(o), f"{nm}() does not return the example")
                if nm == "xfail" and any(k == ("p", "condition") and v for k, v in guards(o).items()):
                    rep.check("set" in o.state.auto, "xfail-marker", "example.xfail:paths", loc(o), "xfail is ignored although its condition holds")


def any_list(rep, wt):
    for n in own_nodes(wt.node):
        if isinstance(n, ast.Call) and last_id(n.func) in ("list", "tuple", "sorted") and n.args and isinstance(n.args[0], ast.Call) and last_id(n.args[0].func) == "execute_explicit_examples":
            return True
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and last_id(n.iter.func) == "execute_explicit_examples":
            return not any(isinstance(x, ast.Break) for x in ast.walk(n)) if isinstance(n, ast.For) else not n.ifs
    return False


# ----------------------------------------------------------------------------------------------- O01
def check_records(rep):
    """The observation callback is called once per executed test case, on the normal and on every exceptional
    exit; the fields are compared with the recorded test case, and the status table is total."""
    O = "hypothesis.internal.observability."
    d = rep.func(O + "deliver_json_blob")
    tested = []
    sg, outs = rep.segments(d, lambda k, t, x: "iter" if k == "loop" and mentions(t, "TESTCASE_CALLBACKS") else ("cb" if k == "call" and t[1][0] == "elem" and t[2] == (("p", "value"),) else None), ("iter",), lambda a: True)
    its = [s for s in sg if s[0] == "iter"]
    rep.check(bool(its) and all("cb" in s[1] for s in its), "every-callback", "deliver_json_blob", d.loc, "a callback does not receive every record")
    rep.check(all(o.kind == "return" for o in outs), "every-callback", "deliver_json_blob:raise", d.loc, "delivery can fail by itself")
    cb = lambda a: last(a) == "TESTCASE_CALLBACKS"  # noqa

    def ev(k, t, x):
        if k == "call" and last(t[1]) == "deliver_json_blob":
            a = t[2][0] if t[2] else arg(t, None, "value")
            if is_call(a, "make_testcase") or a is not None and a[0] == "dict" and any(kk == const("type") and v == const("test_case") for kk, v in a[1]):
                return "record+" if True else None
            return "record?" if not (a is not None and a[0] == "dict") else None
        if k == "call" and last(t[1]) in ("mark_invalid", "mark_interesting"):
            return last(t[1])
        if k == "loop":
            return "iter" if refers(rep.p, x["node"].body, "execute_once") else None
        if k == "call" and last(t[1]) == "execute_once":
            return "run"
        if k == "call" and last(t[1]) == "conclude_test" and t[2]:
            return "conclude:" + (last(t[2][0]) or "?")
        if k == "yield":
            return "yield"
        if k == "catch":
            return "caught"

    class Count(Trace):
        def push(self, auto, lab):
            if lab == "record+":
                n = sum(1 for x in auto if x.startswith("record"))
                return auto + (f"record{n + 1}",)
            return super().push(auto, lab)

    once = lambda c: is_call(c, "execute_once")  # noqa
    MARKS = ("mark_invalid", "mark_interesting", "conclude_test")
    ai = AbsInt(rep.p, Rule())

    def counted(f, t, rel, heads=(), marks=MARKS):
        r = Count(ev, rel, lambda g, c, root: False, True, raises=lambda c: (t,) if t and once(c) else ((STOP,) if last(c[1]) in marks else (("*",) if last(c[1]) == "_raise_to_user" else ())),
                  noreturn=lambda c, g: True if last(c[1]) in marks or t and once(c) else (False if last(c[1]) in MARKS else None), hmatch=lambda rr, term: dyn_match(rr, term, ai.exc_anc(rr)), heads=heads, prune=rel)
        return rep.run(f, r)

    f = rep.func(S + "_execute_once_for_engine")
    for t in [None] + ALLT:
        n = (t or "pass").rsplit(".", 1)[-1]
        outs = counted(f, t, lambda a: cb(a) or mentions(a, "frozen"))
        rep.check(bool(outs), "matrix-live", f"_execute_once_for_engine:{n}", f.loc, "the test is never executed")
        for o in outs:
            if o.kind == "raise" and o.type == "builtins.AssertionError":
                continue
            k = sum(1 for x in o.state.auto if x.startswith("record"))
            want = [v for a, v in guards(o).items() if cb(a)]
            if want == [True]:
                rep.check(k == 1, "one-record", f"_execute_once_for_engine:{n}", loc(o), f"a test case that ends in {n} produces {k} records")
            else:
                rep.check(k == 0, "no-record-without-callbacks", f"_execute_once_for_engine:{n}", loc(o), "a record is built although no callback is installed")
                rep.check(want == [False], "one-record", f"_execute_once_for_engine:{n}", loc(o), f"a test case that ends in {n} produces no record although callbacks may be installed")
            rec = [i for i, x in enumerate(o.state.auto) if x.startswith("record")]
            marks = [i for i, x in enumerate(o.state.auto) if x.startswith("mark_")]
            if rec and marks:
                rep.check(marks[0] < rec[0], "record-after-outcome", f"_execute_once_for_engine:{n}", loc(o), "the record is built before the outcome of the test case is known")
    g = rep.func(CORE + "execute_explicit_examples")
    for t in [None] + [x for x in ALLT]:
        n = (t or "pass").rsplit(".", 1)[-1]
        fx = lambda a: is_call(a, "isinstance") and mentions(a, "raises")  # noqa
        for o in counted(g, t, fx, heads=("iter",), marks=()):
            a = o.state.auto
            if o.kind != "return" or not ("caught" in a if t else "run" in a):
                continue
            k = sum(1 for x in a if x.startswith("record"))
            rep.check(k == 1, "one-record", f"execute_explicit_examples:{n}", loc(o), f"an explicit example that ends in {n} produces {k} records")
            con = [x for x in a if x.startswith("conclude:")]
            if any(is_call(kk, "isinstance") and mentions(kk, "raises") and v for kk, v in guards(o).items()):
                continue  # the expected failure of an xfail example
            if t == UNSAT and "yield" not in a:
                rep.check(con == ["conclude:INVALID"], "explicit-status", f"execute_explicit_examples:{n}", loc(o), f"a rejected explicit example is recorded as {con or 'passed'}")
            elif "yield" in a:
                rep.check(len(con) == 1, "explicit-status", f"execute_explicit_examples:{n}", loc(o), "an explicit example that did not pass is recorded as passed")
            elif t is None:
                rep.check(not con, "explicit-status", "execute_explicit_examples:pass", loc(o), f"a passing explicit example is recorded as {con}")
    fx = lambda a: is_call(a, "isinstance") and any_sub(a, lambda y: is_call(y, "failure_exceptions_to_catch", "skip_exceptions_to_reraise"))  # noqa
    which = set()
    sites, _ = rep.sites(g, lambda k, t, x: "conclude" if k == "call" and last(t[1]) == "conclude_test" else None, fx, lambda g, c, r: False, exc=True, ev=ev, heads=("iter",), prune=fx,
                         raises=lambda c: ("pseudo.User",) if once(c) else (), noreturn=lambda c, g: True if once(c) else (False if last(c[1]) in MARKS else None), hmatch=lambda rr, term: dyn_match(rr, term, ai.exc_anc(rr)))
    for s in sites:
        st = last(s.term[2][0]) if s.term[2] else None
        which.add(st)
        fail = [v for kk, v in s.guards.items() if fx(kk) and any_sub(kk, lambda y: is_call(y, "failure_exceptions_to_catch"))]
        skip = [v for kk, v in s.guards.items() if fx(kk) and any_sub(kk, lambda y: is_call(y, "skip_exceptions_to_reraise"))]
        if st == "INTERESTING":
            rep.check(True in fail and False in skip, "explicit-status", "execute_explicit_examples:failed", s.loc, "an explicit example is recorded as failed without checking that it failed")
        else:
            rep.check(False in fail or True in skip, "explicit-status", "execute_explicit_examples:User", s.loc, f"a failing explicit example is recorded as {st}")
    rep.check("INTERESTING" in which, "explicit-status", "execute_explicit_examples:User live", g.loc, "a failing explicit example is not recorded as failed")
    h = rep.func(S + "run_engine")
    for t in [UNSAT, STOP, "pseudo.User", KBI, ERR + "FlakyFailure"]:
        n = t.rsplit(".", 1)[-1]
        hit = 0
        for o in counted(h, t, lambda a: False, heads=("iter",)):
            if "caught" not in o.state.auto:
                continue
            hit += 1
            k = sum(1 for x in o.state.auto if x.startswith("record"))
            rep.check(k == 1, "one-record", f"run_engine:{n}", loc(o), f"a final replay that ends in {n} produces {k} records")
        rep.check(hit > 0, "matrix-live", f"run_engine:{n}", h.loc, "the final replay is not handled")
    # the status table
    mk = rep.func(O + "make_testcase")
    want = {"OVERRUN": "gave_up", "INVALID": "gave_up", "VALID": "passed", "INTERESTING": "failed"}
    n = 0
    for o in rep.trace(mk, None, lambda a: mentions(a, "status"), prune=lambda a: mentions(a, "status")):
        if o.kind != "return":
            continue
        v = o.value
        rep.check(v[0] == "dict", "record-shape", "make_testcase", loc(o), f"the record is {show(v)[:80]}")
        st = next((x for k, x in v[1] if k == const("status")), None) if v[0] == "dict" else None
        if st is None:
            rep.bad("record-status", "make_testcase", loc(o), "the record has no status")
            continue
        n += 1
        if st[0] == "sub" and st[1][0] == "dict" and last(st[2]) == "status":
            tab = {last(k): x[2] for k, x in st[1][1] if x[0] == "c"}
            rep.check(tab == want, "record-status", "make_testcase", loc(o), f"statuses are reported as {tab}")
        elif st[0] == "c":
            ss = statuses(guards(o))
            rep.check({want[x] for x in ss} == {st[2]}, "record-status", "make_testcase", loc(o), f"{sorted(ss)} is reported as {st[2]}")
        elif st[0] == "sub" and last(st[2]) == "status":
            tab = table_of(rep, mk, st[1])
            rep.check(tab == want, "record-status", "make_testcase", loc(o), f"statuses are reported as {tab or show(st)}")
        else:
            rep.bad("record-status", "make_testcase", loc(o), f"the status is {show(st)}")
    rep.check(n > 0, "record-status", "make_testcase:live", mk.loc, "no record is built")


def table_of(rep, f, t):
    """a module-level dict literal"""
    if t[0] != "g":
        return None
    m = rep.p.modules.get(t[1].rpartition(".")[0])
    b = m.bind.get(t[1].rpartition(".")[2]) if m else None
    if isinstance(b, tuple) and b[0] == "var" and isinstance(getattr(b[1], "value", None), ast.Dict):
        d = b[1].value
        return {last_id(k): v.value for k, v in zip(d.keys, d.values) if isinstance(v, ast.Constant)}
    return None


CHECKS = {"E07": check_deadline, "E08": check_blobs, "E09": check_raises, "E11": check_explicit, "O01": check_records}
