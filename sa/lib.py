"""Shared vocabulary for the property rules: reports, trace rule, queries."""
from __future__ import annotations

import ast
import json
import os
import re
import time

from . import absint
from .absint import AbsInt, Rule, norm_atom
from .normal import line
from .project import AnalysisError, Class, Func, Project, own_nodes
from .terms import *  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, project, tier="quick"):
        self.incomplete = []
        self.pid, self.p, self.tier = pid, project, tier
        self.obl = []  # (rule, construct, loc, ok, msg)
        self.minima = []
        self.analysed = set()
        self.paths = 0
        self.joins = 0
        self.notes = []
        self.violations = {}

    def part(self, fn, *args, reraise=False):
        """run one independent group of rules; when it cannot find what it analyses the others go on"""
        try:
            fn(self, *args)
        except Exception as e:
            if reraise or os.environ.get("SA_STRICT"):
                raise
            self.incomplete.append(f"{fn.__name__}: {e}")

    def ok(self, rule, construct, loc="", msg=""):
        self.obl.append((rule, construct, loc, True, msg))

    def bad(self, rule, construct, loc, msg):
        self.obl.append((rule, construct, loc, False, msg))
        self.violations.setdefault((rule, construct), (loc, msg))

    def check(self, cond, rule, construct, loc, msg):
        (self.ok if cond else self.bad)(rule, construct, loc, msg)
        return bool(cond)

    def minimum(self, rule, n):
        """instances confirmed by hand on the pinned tree: fewer means the rule went blind"""
        self.minima.append((rule, n))

    def count(self, rule):
        return sum(1 for o in self.obl if o[0] == rule)

    # anchors
    def func(self, fq, required=True):
        f = self.p.func(fq)
        if f is None and required:
            raise AnalysisError(f"anchor vanished: function {fq}")
        if f is not None:
            self.analysed.add(f.fq)
        return f

    def cls(self, fq, required=True):
        c = self.p.cls(fq)
        if c is None and required:
            raise AnalysisError(f"anchor vanished: class {fq}")
        return c

    def method(self, cls, name, required=True):
        c = cls if isinstance(cls, Class) else self.cls(cls)
        m = self.p.method(c, name)
        if m is None and required:
            raise AnalysisError(f"anchor vanished: method {c.fq}.{name}")
        if m is not None:
            self.analysed.add(m.fq)
        return m

    def run(self, func, rule, **kw):
        ai = AbsInt(self.p, rule)
        out = ai.run(func, **kw)
        self.analysed |= ai.consulted
        self.paths += len(out)
        self.joins += ai.joined
        return out

    def trace(self, func, ev=None, relevant=None, inline=None, exc=False, seq=True, **kw):
        """enumerate abstract paths with a trace of labelled events"""
        runkw = {k: kw.pop(k) for k in ("self_cls", "params", "env") if k in kw}
        r = Trace(ev, relevant, inline, exc, seq, **kw)
        return self.run(func, r, **runkw)


class Trace(Rule):
    """auto = tuple of event labels along the path (bounded), in order."""

    def __init__(self, ev=None, relevant=None, inline=None, exc=False, seq=True, cap=14, depth=4,
                 raises=None, prune=None, max_states=600, noreturn=None, rounds=6, uniq=False, hmatch=None, heads=(), nonempty=None, keep=None, items=False):
        self._ne = nonempty
        self.ev = ev or (lambda k, t, x: None)
        self._rel = relevant
        self._inl = inline
        self.track_exc = exc
        self.seq, self.cap, self.depth = seq, cap, depth
        self._raises = raises
        self._prune = prune
        self._keep = keep
        self.track_items = items
        self.max_states = max_states
        self._nr = noreturn
        self._hm = hmatch
        self.heads = set(heads)  # labels that restart the trace (per-iteration obligations)
        self.loop_rounds = rounds
        self.uniq = uniq

    def inline(self, func, call, root):
        if self._inl is None:
            return False
        return self._inl(func, call, root) if self._inl.__code__.co_argcount == 3 else self._inl(func)

    def relevant(self, atom):
        return bool(self._rel and self._rel(atom))

    def nonempty(self, it):
        return bool(self._ne and self._ne(it))

    def keep_attr(self, base, attr):
        return True if self._keep is None else self._keep(base, attr)

    def prune_on(self, atom):
        return True if self._prune is None else self._prune(atom)

    def noreturn(self, call, func):
        return self._nr(call, func) if self._nr else None

    def handler_match(self, raised, term, ai):
        return self._hm(raised, term) if self._hm else None

    def call_raises(self, call, node, st, ai):
        return ("*",) if self._raises is None else self._raises(call)

    def push(self, auto, lab):
        if lab is None:
            return auto
        if isinstance(lab, list):
            for x in lab:
                auto = self.push(auto, x)
            return auto
        if lab in self.heads:
            return (lab,)
        if self.uniq and lab in auto:
            return auto
        if auto and auto[-1] == lab:
            return auto
        if len(auto) >= self.cap:
            return auto if auto[-1] == "..." else auto + ("...",)
        # loop bodies: at most three occurrences of the same label
        if auto.count(lab) >= 3:
            return auto
        return auto + (lab,)

    def _ev(self, auto, kind, t, **x):
        return self.push(auto, self.ev(kind, t, x))

    def on_call(self, auto, call, node, st, ai):
        return self._ev(auto, "call", call, node=node, st=st, ai=ai)

    def on_setattr(self, auto, base, attr, value, node, st, ai):
        return self._ev(auto, "setattr", ("a", base, attr), value=value, node=node, st=st, ai=ai)

    def on_setitem(self, auto, base, idx, value, node, st, ai):
        return self._ev(auto, "setitem", ("sub", base, idx), value=value, node=node, st=st, ai=ai)

    def on_del(self, auto, term, node, st, ai):
        return self._ev(auto, "del", term, node=node, st=st, ai=ai)

    def on_yield(self, auto, value, node, st, ai):
        return self._ev(auto, "yield", value, node=node, st=st, ai=ai)

    def on_raise(self, auto, type, value, node, st, ai):
        return self._ev(auto, "raise", value, type=type, node=node, st=st, ai=ai)

    def on_catch(self, auto, types, exc, node, st, ai):
        return self._ev(auto, "catch", ("tuple", tuple(types)), exc=exc, node=node, st=st, ai=ai)

    def on_with(self, auto, phase, term, node, st, ai):
        return self._ev(auto, "with-" + phase, term, node=node, st=st, ai=ai)

    def on_cmp(self, auto, term, node, st, ai):
        return self._ev(auto, "cmp", term, node=node, st=st, ai=ai)

    def on_branch(self, auto, atom, val, node, st, ai):
        return self._ev(auto, "branch", atom, val=val, node=node, st=st, ai=ai)

    def on_return(self, auto, value, node, st, ai):
        return self._ev(auto, "return", value, node=node, st=st, ai=ai)

    def on_loop_edge(self, auto, kind, values, node, st, ai):
        return self._ev(auto, kind, ("c", "str", kind), values=values, node=node, st=st, ai=ai)

    def on_loop(self, auto, it, node, st, ai):
        return self._ev(auto, "loop", it, node=node, st=st, ai=ai)


DYN = {  # dynamic handler types: which stand-ins each contains
    "skip_exceptions_to_reraise": lambda r: r == "pseudo.Skip",
    "failure_exceptions_to_catch": lambda r: r in ("pseudo.Failed", "pseudo.Skip", "builtins.SystemExit", "builtins.GeneratorExit"),
}


def dyn_match(raised, term, p):
    """membership of `raised` in the tuples computed by skip_exceptions_to_reraise() (any skip
    exception) and failure_exceptions_to_catch() (Exception, SystemExit, GeneratorExit, pytest's
    Failed); the contents of both functions are checked separately"""
    n = callee(term)
    if n in DYN:
        if DYN[n](raised):
            return "yes"
        if raised == "*":
            return "maybe"
        if n == "failure_exceptions_to_catch":
            return "yes" if "builtins.Exception" in p else ("maybe" if raised == "builtins.BaseException" else "no")
        return "maybe" if raised in ("builtins.Exception", "builtins.BaseException") else "no"
    return None


def _matrix(self, f, pred, types, ev=None, inline=None, relevant=None, returns=(), raising={}, **kw):
    """{type: outcomes} of f when the call selected by pred raises an exception of that type"""
    ai = AbsInt(self.p, Rule())
    res = {}
    for t in types:
        anc = ai.exc_anc(t)
        res[t] = self.trace(f, ev, relevant, inline or (lambda g, call, root: g.parent is not None), True,
                            raises=lambda call: (t,) if pred(call) else tuple(raising.get(last(call[1]), ())),
                            noreturn=lambda call, g: True if pred(call) else (False if last(call[1]) in returns else None),
                            hmatch=lambda r, term: dyn_match(r, term, ai.exc_anc(r)), **kw)
    return res


Report.matrix = _matrix


class Segments(Trace):
    """like Trace, but every label in `heads` starts a new segment; completed segments are
    recorded in .segs as (head, labels, how) with how in next|end|raise"""

    def __init__(self, *a, heads=(), **k):
        super().__init__(*a, **k)
        self.seg_heads = set(heads)
        self.segs = {}

    def push(self, auto, lab):
        if isinstance(lab, list):
            for x in lab:
                auto = self.push(auto, x)
            return auto
        if lab in self.seg_heads:
            if auto:
                self.segs.setdefault((auto[0], auto[1:], "next"), 0)
            return (lab,)
        if not auto and lab is not None:
            auto = ("^",)
        return super().push(auto, lab)


def _segments(self, func, ev, heads, relevant=None, inline=None, exc=False, **kw):
    runkw = {k: kw.pop(k) for k in ("self_cls", "params", "env") if k in kw}
    r = Segments(ev, relevant, inline, exc, True, heads=heads, **kw)
    out = self.run(func, r, **runkw)
    for o in out:
        a = o.state.auto
        if a:
            r.segs.setdefault((a[0], a[1:], "end" if o.kind == "return" else "raise"), 0)
    return set(r.segs), out


Report.segments = _segments


class Site:
    __slots__ = ("label", "term", "node", "guards", "auto", "func", "value", "state", "ai_func")

    def __init__(self, label, term, node, st, func, value=None):
        self.label, self.term, self.node = label, term, node
        self.guards = dict(st.guards)
        self.auto = st.auto
        self.func = func
        self.value = value
        self.state = st

    @property
    def loc(self):
        return f"{self.func.module.rel}:{line(self.node)}"

    def has(self, pred, val=True):
        return any(v is val and pred(a) for a, v in self.guards.items())

    def shown(self):
        return sorted(("" if v else "not ") + show(a) for a, v in self.guards.items())


def _sites(self, func, match, relevant=None, inline=None, exc=False, ev=None, **kw):
    """every (event, path-guard) instance matched by match(kind, term, x) -> label"""
    got = {}

    def e(kind, t, x):
        lab = match(kind, t, x)
        if lab is not None:
            st = x["st"]
            f = x["ai"].func
            key = (lab, nosite(t), id(x["node"]), st.guards, st.auto)
            got.setdefault(key, Site(lab, t, x["node"], st, f, x.get("value")))
        return ev(kind, t, x) if ev else None

    out = self.trace(func, e, relevant if relevant is not None else (lambda a: True), inline, exc, **kw)
    return list(got.values()), out


Report.sites = _sites


def same_class(func, call, root):
    c = root
    while c is not None and c.cls is None:
        c = c.parent
    return func.cls is not None and c is not None and (func.cls is c.cls) or func.parent is not None


def same_module(func, call, root):
    return func.module is root.module


def guards(o):
    return dict(o.state.guards)


def G(o):
    """{shown atom: bool}"""
    return {show(a): v for a, v in o.state.guards}


def loc(o_or_node, func=None):
    n = getattr(o_or_node, "node", o_or_node)
    f = getattr(o_or_node, "func", None) or func
    m = f.module.rel if f else "?"
    return f"{m}:{line(n)}"


def nloc(func, node):
    return f"{func.module.rel}:{line(node)}"


def fields(t):
    """set of attribute names and global last-names mentioned in a term"""
    out = set()
    for x in subterms(t):
        if x[0] == "a":
            out.add(x[2])
        elif x[0] == "g":
            out.add(x[1].rsplit(".", 1)[-1])
    return out


def mentions(t, *names):
    f = fields(t)
    return all(n in f for n in names)


def self_attr(t, name=None):
    return t[0] == "a" and t[1] == ("p", "self") and (name is None or t[2] == name)


def nodes(func, *types):
    return [n for n in own_nodes(func.node) if isinstance(n, types)]


def all_nodes(func, *types):
    return [n for n in ast.walk(func.node) if isinstance(n, types)]


def attr_chain(n):
    try:
        return ast.unparse(n)
    except Exception:
        return ""


def is_abstract(f):
    b = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return not b or (len(b) == 1 and (isinstance(b[0], ast.Pass) or (isinstance(b[0], ast.Raise) and "NotImplementedError" in ast.unparse(b[0])) or (isinstance(b[0], ast.Expr))))


MUT = {"append", "add", "insert", "extend", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear"}


def attr_writes(p, attr, mangled=True):
    """every write in the program to an attribute called `attr`: (func, node, how)"""
    cache = p.__dict__.setdefault("_attr_writes", {})
    if not cache:
        def note(f, n, a, how):
            cache.setdefault(a, []).append((f, n, how))

        def tgt(f, t, how):
            if isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(f, e, how)
            elif isinstance(t, ast.Starred):
                tgt(f, t.value, how)
            elif isinstance(t, ast.Attribute):
                note(f, t, t.attr, how)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                note(f, t, t.value.attr, how + "-item")

        for f in p.functions.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        tgt(f, t, "set")
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    if not (isinstance(n, ast.AnnAssign) and n.value is None):
                        tgt(f, n.target, "set")
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        tgt(f, t, "del")
                elif isinstance(n, (ast.For,)):
                    tgt(f, n.target, "set")
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute):
                    note(f, n, n.func.value.attr, n.func.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    note(f, n, n.args[1].value, "set")
    return cache.get(attr, [])


def other_self(f, n, cls):
    """a write to self.<attr> in a method of an unrelated class"""
    while isinstance(n, ast.Call):
        n = n.func.value if isinstance(n.func, ast.Attribute) else None
    while isinstance(n, ast.Subscript):
        n = n.value
    c = f
    while c is not None and c.cls is None:
        c = c.parent
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and c is not None and c.cls.fq.rsplit(".", 1)[-1] != cls


def only_writers(rep, attr, allowed, rule, what, module=None, cls=None):
    """every write to the attribute is in one of the allowed functions (or in a helper extracted from
    them, which the path analysis has inlined and judged)"""
    ws = [(f, n, h) for f, n, h in attr_writes(rep.p, attr) if (module is None or f.module.name.startswith(module)) and not (cls and other_self(f, n, cls))]
    for f, n, how in ws:
        ok = f.fq in allowed or (f.fq not in absint.BASELINE and (f.fq in rep.analysed or all(o.fq in allowed for o in owners(rep.p, f)))) or any(f.fq.startswith(a + ".<locals>.") for a in allowed)
        rep.check(ok, rule, f"{f.qualname}:{attr}", nloc(f, n), f"{attr} is written ({how}) in {f.qualname}: {what}")
    rep.check(bool(ws), rule, f"{attr}:written", "", f"{attr} is never written")


def call_sites(p, name):
    """every call expression in the program whose callee's last name is `name`: (func, node)"""
    cache = p.__dict__.setdefault("_call_sites", {})
    if not cache:
        for f in p.functions.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    k = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if k:
                        cache.setdefault(k, []).append((f, n))
    return cache.get(name, [])


def owners(p, f, limit=4):
    """functions of the pinned tree from which a helper that is not on it is called (f itself if pinned)"""
    out, work, seen = [], [(f, 0)], set()
    while work:
        g, d = work.pop()
        if g.fq in seen:
            continue
        seen.add(g.fq)
        if g.fq in absint.BASELINE or d > limit:
            out.append(g)
            continue
        if g.parent is not None:
            work.append((g.parent, d + 1))
        for c, _ in call_sites(p, g.name):
            if c is not g:
                work.append((c, d + 1))
    return out


def only_part(p, f):
    """a helper that is not on the pinned tree, called from functions that are: it is judged inlined, as
    a part of these"""
    return f.fq not in absint.BASELINE and bool(call_sites(p, f.name)) and all(o is not f for o in owners(p, f))


def refers(p, nodes, name, depth=0):
    """whether the statements mention `name`, themselves or in a helper that is not on the pinned tree"""
    for b in nodes:
        for y in ast.walk(b):
            k = y.attr if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else None
            if k == name:
                return True
            if k and depth < 3 and k in new_helpers(p) and any(refers(p, g.node.body, name, depth + 1) for g in new_helpers(p)[k]):
                return True
    return False


def new_helpers(p):
    """functions that are not on the pinned tree, by name"""
    if "_new_helpers" not in p.__dict__:
        out = p.__dict__["_new_helpers"] = {}
        for f in p.functions.values():
            if f.fq not in absint.BASELINE and isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.setdefault(f.name, []).append(f)
    return p.__dict__["_new_helpers"]


def bool_eval(t, names, assign):
    """value of a boolean term under an assignment of the named atoms; None when unknown"""
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t[0] == "not":
        v = bool_eval(t[1], names, assign)
        return None if v is None else not v
    if t[0] == "call" and last(t[1]) == "bool" and len(t[2]) == 1:
        return bool_eval(t[2][0], names, assign)
    a, v = as_truth(*absint.norm_atom(t))
    nm = names(a)
    if nm is None:
        return None
    return assign[nm[0]] == (nm[1] == v)


def as_truth(a, v):
    """`x is False` for an x that is a bool"""
    if a[0] == "cmp" and a[1] == "is" and a[3] in (TRUE, FALSE):
        return a[2], v == (a[3] == TRUE)
    return a, v


def table(rep, outs, allnames, names, spec, rule, what, consistent=lambda a: True, value=lambda o: o.value, result=None):
    """every path's result equals spec for every assignment of the named atoms which the path's
    conditions allow; names(atom) -> (name, polarity)"""
    import itertools
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        fixed = {}
        for a, v in o.state.guards:
            a, v = as_truth(a, v)
            nm = names(a)
            if nm:
                fixed[nm[0]] = v == nm[1]
        free = [x for x in allnames if x not in fixed]
        for vals in itertools.product((True, False), repeat=len(free)):
            asg = {**fixed, **dict(zip(free, vals))}
            if not consistent(asg):
                continue
            want, got = spec(asg), result(o, asg) if result else bool_eval(value(o), names, asg)
            if got is None or (want is not got and want != got):
                rep.check(False, rule, what, loc(o), f"{what} answers {show(value(o))} instead of {want} when " + ", ".join(f"{k}={v}" for k, v in asg.items()))
                break
        else:
            rep.ok(rule, what, loc(o))
    return n


def poly(t):
    """normal form of an integer expression: {monomial (sorted tuple of atoms): coefficient}"""
    def add(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + k * c
        return {m: c for m, c in r.items() if c}

    def mul(a, b):
        r = {}
        for m, c in a.items():
            for m2, c2 in b.items():
                k = tuple(sorted(m + m2, key=repr))
                r[k] = r.get(k, 0) + c * c2
        return {m: c for m, c in r.items() if c}

    if t[0] == "c" and isinstance(t[2], (int, bool)):
        return {(): int(t[2])} if t[2] else {}
    if t[0] == "bin":
        op = t[1]
        if op in ("+", "-"):
            return add(poly(t[2]), poly(t[3]), 1 if op == "+" else -1)
        if op == "*":
            return mul(poly(t[2]), poly(t[3]))
        if op == "<<" and t[3][0] == "c":
            return mul(poly(t[2]), {(): 1 << t[3][2]})
        if op == "**":
            b, e = poly(t[2]), poly(t[3])
            if set(b) <= {()} and set(e) <= {()}:
                v = b.get((), 0) ** e.get((), 0)
                return {(): v} if v else {}
        return {(("bin", op, frozen(poly(t[2])), frozen(poly(t[3]))),): 1}
    if t[0] == "un" and t[1] == "-":
        return mul(poly(t[2]), {(): -1})
    if is_call(t, "abs") and len(t[2]) == 1:
        p = poly(t[2][0])
        # |x| = |-x|: canonical sign
        q = {m: -c for m, c in p.items()}
        return {(("abs", min(frozen(p), frozen(q), key=repr)),): 1}
    if is_call(t, "int") and len(t[2]) == 1 and t[2][0][0] in ("cmp", "not"):
        return {(("truth", nosite(absint.norm_atom(t[2][0])[0]), absint.norm_atom(t[2][0])[1]),): 1}
    return {(nosite(t),): 1}


def frozen(p):
    return tuple(sorted(p.items(), key=repr))
