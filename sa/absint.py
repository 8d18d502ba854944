"""Path-sensitive abstract interpreter over Python syntax trees.

Collecting semantics over finite sets of abstract states.  A state is
 (env: variable/attribute -> term, facts: branch literals used to discard
 infeasible paths, guards: branch literals kept as evidence, auto: the rule's
 typestate).  Helpers are inlined, loops are iterated to a fixpoint with loop
 variables havocked, try/except/finally/with have their exceptional edges.
No code under analysis is executed and no solver is involved."""
from __future__ import annotations

import ast
import itertools

from .project import AnalysisError, Class, Func, own_nodes
from .terms import FALSE, NONE, TRUE, any_sub, const, contains, last, show, size

PURE = {
    "builtins." + n
    for n in "len isinstance issubclass type repr str int float bool tuple list set frozenset dict min max abs sum sorted range zip enumerate reversed getattr hasattr id hash callable any all map filter iter divmod round ord chr bytes".split()
} | {"math.isnan", "math.isinf", "math.copysign", "math.ceil", "math.floor", "time.perf_counter"}
DET = {"builtins." + n for n in "len isinstance issubclass type bool abs min max callable hasattr int float str repr tuple id".split()} | {"math.isnan", "math.isinf", "math.copysign", "math.ceil", "math.floor"}


class State:
    __slots__ = ("env", "facts", "guards", "auto", "_k")

    def __init__(self, env, facts, guards, auto):
        self.env, self.facts, self.guards, self.auto = env, facts, guards, auto
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.facts.items()), self.guards, self.auto)
        return self._k

    def set(self, k, v):
        if self.env.get(k) == v and k in self.env:
            return self
        e = dict(self.env)
        e[k] = v
        return State(e, self.facts, self.guards, self.auto)

    def unset(self, pred):
        ks = [k for k in self.env if pred(k)]
        if not ks:
            return self
        e = dict(self.env)
        for k in ks:
            del e[k]
        return State(e, self.facts, self.guards, self.auto)

    def with_auto(self, a):
        return self if a == self.auto else State(self.env, self.facts, self.guards, a)

    def fact(self, atom, val):
        if self.facts.get(atom) is val:
            return self
        f = dict(self.facts)
        f[atom] = val
        return State(self.env, f, self.guards, self.auto)

    def guard(self, atom, val):
        g = (atom, val)
        if g in self.guards:
            return self
        # a later test of the same condition supersedes an earlier one
        return State(self.env, self.facts, (self.guards - {(atom, not val)}) | {g}, self.auto)

    def kill_facts(self, pred):
        if not any(pred(a) for a in self.facts):
            return self
        return State(self.env, {a: v for a, v in self.facts.items() if not pred(a)}, self.guards, self.auto)


class Exc:
    """an in-flight exception: type fq ('*' unknown), value term, node, state"""
    __slots__ = ("type", "value", "node", "state", "func")

    def __init__(self, type, value, node, state, func=None):
        self.type, self.value, self.node, self.state, self.func = type, value, node, state, func

    def key(self):
        return (self.type, self.value, self.state.key())


class Outcome:
    __slots__ = ("kind", "state", "value", "node", "type", "func")

    def __init__(self, kind, state, value=None, node=None, type=None, func=None):
        self.kind, self.state, self.value, self.node, self.type, self.func = kind, state, value, node, type, func


class Flow:
    """result of executing statements: sets of states per exit kind"""

    def __init__(self):
        self.next = {}
        self.brk = {}
        self.cont = {}
        self.ret = {}  # (value, state key) -> (state, value, node)
        self.exc = {}

    def add_next(self, s):
        self.next.setdefault(s.key(), s)

    def absorb(self, o, nxt=True):
        if nxt:
            self.next.update(o.next)
        self.brk.update(o.brk)
        self.cont.update(o.cont)
        for k, v in o.ret.items():
            self.ret.setdefault(k, v)
        for k, v in o.exc.items():
            self.exc.setdefault(k, v)


def norm_atom(t, val=True):
    """normalise a boolean term to (atom, polarity)"""
    while True:
        if t[0] == "not":
            t, val = t[1], not val
            continue
        if t[0] == "call" and t[1] == ("g", "builtins.bool") and len(t[2]) == 1:
            t = t[2][0]
            continue
        if t[0] == "cmp":
            op, l, r = t[1], t[2], t[3]
            if op in ("is not", "!=", "not in"):
                t = ("cmp", {"is not": "is", "!=": "==", "not in": "in"}[op], l, r)
                val = not val
                continue
            if op == ">":
                t = ("cmp", "<", r, l)
            elif op == "<=":
                t, val = ("cmp", "<", r, l), not val
            elif op == ">=":
                t, val = ("cmp", "<", l, r), not val
            if t[1] in ("is", "==") and t[2][0] == "c" and t[3][0] == "c" and (t[1] == "==" or t[2][2] is None or t[3][2] is None or isinstance(t[2][2], bool) or isinstance(t[3][2], bool)):
                same = t[2][2] == t[3][2] and (t[1] == "==" or t[2][1] == t[3][1])
                return (TRUE if same else FALSE), val
            if t[1] == "is" and t[2][0] == "c" and t[3][0] != "c":
                t = ("cmp", "is", t[3], t[2])
            if t[1] == "==" and t[3] == NONE:
                t = ("cmp", "is", t[2], NONE)
            if t[1] in ("==", "is") and t[2] in (TRUE, FALSE) and t[3] not in (TRUE, FALSE):
                t = ("cmp", t[1], t[3], t[2])
            if t[1] == "is" and t[3] in (TRUE, FALSE) and t[2][0] == "p":
                return t, val
            if t[1] in ("==", "is") and t[3] in (TRUE, FALSE):
                val = val if t[3] == TRUE else not val
                t = t[2]
                continue
            if t[1] == "is" and t[2][0] in ("g",) and t[3][0] in ("g",):
                t = ("cmp", "==", t[2], t[3])
            if t[1] == "is" and t[3][0] in ("g", "c") and t[3] != NONE:
                t = ("cmp", "==", t[2], t[3])
            if t[1] == "==" and t[2][0] in ("c",) or (t[1] == "==" and t[2][0] == "g" and t[3][0] != "c"):
                t = ("cmp", "==", t[3], t[2]) if t[3][0] not in ("c", "g") else t
            # len(x) == 0 / 0 < len(x)  -> truthiness of x
            ln = lambda z: z[0] == "call" and z[1] == ("g", "builtins.len") and len(z[2]) == 1  # noqa
            if t[1] == "==" and ln(t[2]) and t[3] == ("c", "int", 0):
                t, val = t[2][2][0], not val
                continue
            if t[1] == "<" and t[2] == ("c", "int", 0) and ln(t[3]):
                t = t[3][2][0]
                continue
            if t[1] == "<" and ln(t[2]) and t[3] == ("c", "int", 1):
                t, val = t[2][2][0], not val
                continue
        if t[0] == "call" and t[1] == ("g", "builtins.len") and len(t[2]) == 1:
            t = t[2][0]
            continue
        return t, val


# stand-ins for exceptions of unknown user code in exception matrices
PSEUDO = {"pseudo.User": "builtins.Exception", "pseudo.Skip": "builtins.Exception",
          "pseudo.Failed": "builtins.BaseException", "pseudo.Base": "builtins.BaseException"}


class Rule:
    """Override hooks in concrete analyses."""
    track_exc = False       # model exceptional edges at calls
    depth = 4
    max_states = 600
    loop_rounds = 8

    def inline(self, func, call, root):
        return False

    def relevant(self, atom):
        return False

    track_items = False  # whether the values stored under constant keys are tracked

    def keep_attr(self, base, attr):
        """whether the value stored in an attribute is tracked (otherwise it is just forgotten)"""
        return True

    def prune_on(self, atom):
        """which branch literals are remembered for discarding infeasible paths"""
        return True

    def start(self, root):
        return ()

    # event handlers return a new auto value (or the same), or None to drop the path
    def on_call(self, auto, call, node, st, ai):
        return auto

    def on_setattr(self, auto, base, attr, value, node, st, ai):
        return auto

    def on_setitem(self, auto, base, idx, value, node, st, ai):
        return auto

    def on_del(self, auto, term, node, st, ai):
        return auto

    def on_yield(self, auto, value, node, st, ai):
        return auto

    def on_raise(self, auto, type, value, node, st, ai):
        return auto

    def on_catch(self, auto, types, exc, node, st, ai):
        return auto

    def on_with(self, auto, phase, term, node, st, ai):
        return auto

    def on_branch(self, auto, atom, val, node, st, ai):
        return auto

    def on_return(self, auto, value, node, st, ai):
        return auto

    def on_assign(self, auto, name, value, node, st, ai):
        return auto

    def nonempty(self, it):
        return False

    def on_loop_edge(self, auto, kind, values, node, st, ai):
        return auto

    def on_loop(self, auto, it, node, st, ai):
        return auto

    def on_cmp(self, auto, term, node, st, ai):
        return auto

    def call_raises(self, call, node, st, ai):
        """exception type names on the exceptional edge of this call ('*' any)"""
        return ("*",)

    def noreturn(self, call, func):
        """None to infer"""
        return None

    def handler_match(self, raised, term, ai):
        """'yes' | 'no' | 'maybe' for a handler type given as a term; None: by class hierarchy"""
        return None


class AbsInt:
    def __init__(self, project, rule):
        self.p = project
        self.rule = rule
        self.stack = []  # [(Func, frame, boundself)]
        self.paths = 0
        self.joined = 0
        self.inlined = set()
        self._loop_assigned = {}
        self._local_names = {}
        self.consulted = set()
        self.lookup_try = 0

    # ---------------- entry -----------------
    def run(self, func, params=None, self_cls=None, env=None):
        """analyse func; returns list[Outcome]"""
        self.root = func
        self.root_cls = self_cls or func.cls
        frame = ("f", 0)
        e = dict(env or {})
        a = func.node.args
        names = func.params()
        for n in names:
            e[(frame, n)] = (params or {}).get(n, ("p", n))
        st = State(e, {}, frozenset(), self.rule.start(func))
        self.stack = [(func, frame)]
        self.consulted.add(func.fq)
        body = func.node.body if isinstance(func.node.body, list) else [ast.Return(value=func.node.body, lineno=func.node.lineno, col_offset=0)]
        fl = self.block(body, [st])
        out = []
        for s in fl.next.values():
            a2 = self.rule.on_return(s.auto, NONE, func.node, s, self)
            if a2 is None:
                continue
            out.append(Outcome("return", s.with_auto(a2), NONE, func.node, func=func))
        for s, v, n in fl.ret.values():
            out.append(Outcome("return", s, v, n, func=func))
        for x in fl.exc.values():
            out.append(Outcome("raise", x.state, x.value, x.node, x.type, func=x.func))
        self.paths += len(out)
        return out

    # ---------------- helpers ---------------
    @property
    def func(self):
        return self.stack[-1][0]

    @property
    def frame(self):
        return self.stack[-1][1]

    def last_use(self, func):
        """(line, col) after which a local of func is never read again (loops extend it)"""
        cache = self.__dict__.setdefault("_lu", {})
        if func.fq in cache:
            return cache[func.fq]
        out = {}
        INF = (1 << 30, 0)

        def walk(n, inner, loop_end):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    pos = INF if inner else max((n.end_lineno, n.end_col_offset), loop_end)
                    out[n.id] = max(out.get(n.id, (0, 0)), pos)
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    out[x] = INF
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                inner = True
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
                loop_end = max(loop_end, (n.end_lineno, n.end_col_offset + 1))
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                pos = INF if inner else max((n.end_lineno, n.end_col_offset), loop_end)
                out[n.target.id] = max(out.get(n.target.id, (0, 0)), pos)
            for c in ast.iter_child_nodes(n):
                walk(c, inner, loop_end)

        body = func.node.body if isinstance(func.node.body, list) else [func.node.body]
        for st in body:
            walk(st, False, (0, 0))
        cache[func.fq] = out
        return out

    def drop_dead(self, stmt, states):
        end = getattr(stmt, "end_lineno", None)
        if end is None:
            return states
        pos = (end, stmt.end_col_offset)
        lu = self.last_use(self.func)
        fr = self.frame
        out = []
        for s in states:
            dead = [k for k in s.env if isinstance(k, tuple) and len(k) == 2 and k[0] == fr and k[1][:1] != "$" and lu.get(k[1], (0, 0)) <= pos]
            if dead:
                e = {k: v for k, v in s.env.items() if k not in dead}
                s = State(e, s.facts, s.guards, s.auto)
            out.append(s)
        return out

    def limit(self, states):
        """dedupe; join when too many, losing as little as possible"""
        d = {}
        for s in states:
            d.setdefault(s.key(), s)
        if len(d) <= self.rule.max_states:
            return list(d.values())
        self.joined += 1
        cur = list(d.values())
        for keyf in (lambda s: (s.auto, s.guards, frozenset(s.facts.items())), lambda s: (s.auto, s.guards), lambda s: s.auto):
            cur = self.join_by(cur, keyf)
            if len(cur) <= self.rule.max_states:
                break
        return cur

    def join_by(self, states, keyf):
        groups = {}
        for s in states:
            groups.setdefault(keyf(s), []).append(s)
        out = []
        for g in groups.values():
            a = g[0].auto
            env = dict(g[0].env)
            facts = dict(g[0].facts)
            guards = g[0].guards
            for s in g[1:]:
                guards &= s.guards
                for k in list(env):
                    if s.env.get(k) != env[k]:
                        env[k] = ("opq", "join")
                for k in list(facts):
                    if s.facts.get(k) is not facts[k]:
                        del facts[k]
            out.append(State(env, facts, guards, a))
        return out

    def local_names(self, func):
        r = self._local_names.get(func.node)
        if r is None:
            r = set(func.params())
            glob = set()
            imports = {}
            for n in own_nodes(func.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    r.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    r.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.p._bind_import(func.module, imports, n)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    r.add(n.name)
            r = (r - glob, imports)
            self._local_names[func.node] = r
        return r

    def lookup_name(self, name, st):
        for i in range(len(self.stack) - 1, -1, -1):
            func, frame = self.stack[i]
            break
        func, frame = self.stack[-1]
        while func is not None:
            loc, imports = self.local_names(func)
            if (frame, name) in st.env:
                return st.env[(frame, name)]
            if name in imports:
                return ("g", self.p.canon(imports[name][1]))
            if name in loc:
                # comprehension vars or not-yet-assigned
                sub = self._nested_func(func, name)
                if sub is not None:
                    return ("fn", sub.fq, frame)
                return ("opq", ("unbound", func.fq, name))
            # lexical parent
            pf = func.parent
            if pf is None:
                break
            nf = self._lex.get(frame) if hasattr(self, "_lex") else None
            if nf is None:
                # parent frame unknown: free variable of the root
                par = pf
                while par is not None:
                    l2, imp2 = self.local_names(par)
                    if name in imp2:
                        return ("g", self.p.canon(imp2[name][1]))
                    if name in l2:
                        sub = self._nested_func(par, name)
                        if sub is not None:
                            return ("fn", sub.fq, None)
                        return ("p", name)
                    par = par.parent
                break
            func, frame = pf, nf
        return ("g", self.p.resolve_global(self.func.module, name))

    def _nested_func(self, func, name):
        for sep in (".<locals>.",):
            f = self.p.functions.get(f"{func.fq}{sep}{name}")
            if f:
                return f
        return None

    # ---------------- type inference --------
    def type_of(self, t, depth=0):
        """project Class of a term, best effort"""
        if depth > 6 or not isinstance(t, tuple):
            return None
        o = t[0]
        if o == "p":
            if t[1] in ("self", "cls"):
                return self.root_cls
            f = self.root
            while f is not None:
                if t[1] in f.params():
                    return self.ann_class(f.module, self._param_ann(f, t[1]))
                f = f.parent
            if t[1] == "self":
                return self.root_cls
            return None
        if o == "a":
            b = self.type_of(t[1], depth + 1)
            if b is not None:
                return self.attr_class(b, t[2])
            return None
        if o == "call":
            x = self.resolve(t[1])
            if isinstance(x, Class):
                return x
            if isinstance(x, Func):
                return self.ann_class(x.module, x.node.returns) if not isinstance(x.node, ast.Lambda) else None
        return None

    def _param_ann(self, f, name):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    def ann_class(self, m, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            return self.ann_class(m, ann.left) or self.ann_class(m, ann.right)
        if isinstance(ann, ast.Subscript):
            n = ast.unparse(ann.value).split(".")[-1]
            if n in ("Optional", "Final", "ClassVar", "Annotated"):
                return self.ann_class(m, ann.slice)
            if n == "Union":
                for e in getattr(ann.slice, "elts", []):
                    r = self.ann_class(m, e)
                    if r:
                        return r
                return None
            fq = self.p.resolve_expr_fq(m, ann.value)
            return self.p.classes.get(fq)
        if isinstance(ann, (ast.Name, ast.Attribute)):
            fq = self.p.resolve_expr_fq(m, ann)
            c = self.p.classes.get(fq)
            if c is None and isinstance(ann, ast.Name):
                c = self.p.find_class(ann.id)
            return c
        return None

    def attr_class(self, cls, attr):
        key = (cls.fq, attr)
        cache = self.__dict__.setdefault("_attrc", {})
        if key in cache:
            return cache[key]
        cache[key] = None
        r = None
        for c in self.p.mro(cls):
            if attr in c.ann:
                r = self.ann_class(c.module, c.ann[attr])
                if r:
                    break
            f = c.methods.get(attr)
            if f is not None and f.is_property:
                r = self.ann_class(c.module, f.node.returns)
                break
            for m in c.methods.values():
                for n in own_nodes(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                        r = r or self.ann_class(c.module, n.annotation)
                    elif isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets
                    ):
                        v = n.value
                        if isinstance(v, ast.Call):
                            fq = self.p.resolve_expr_fq(c.module, v.func)
                            k = self.p.classes.get(fq) if fq else None
                            r = r or k
                        elif isinstance(v, ast.Name) and v.id in m.params():
                            r = r or self.ann_class(c.module, self._param_ann(m, v.id))
            if r:
                break
        cache[key] = r
        return r

    def resolve(self, f):
        """callee term -> Func | Class | None"""
        if f[0] == "g":
            return self.p.lookup(f[1])
        if f[0] == "fn":
            return self.p.functions.get(f[1])
        if f[0] == "a":
            base = f[1]
            if base[0] == "call" and base[1] == ("g", "builtins.super"):
                for fn, _ in reversed(self.stack):
                    if fn.cls is not None:
                        return self.p.super_method(fn.cls, f[2])
                    par = fn.parent
                    while par is not None:
                        if par.cls is not None:
                            return self.p.super_method(par.cls, f[2])
                        par = par.parent
                return None
            c = self.type_of(base)
            if c is not None:
                return self.p.method(c, f[2])
        return None

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            for fn, _ in reversed(self.stack):
                q = fn
                while q is not None:
                    if q.cls is not None:
                        return f"_{q.cls.name.lstrip('_')}{attr}"
                    q = q.parent
        return attr

    # ---------------- expressions -----------
    # ev(expr, states, sink) -> list[(state, term)]
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return self.ev_generic(e, st)
        return m(e, st)

    def evs(self, exprs, st):
        """evaluate a list left to right: list[(state, [terms])]"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, ts in cur:
                for s2, t in self.ev(e, s):
                    nxt.append((s2, ts + [t]))
            cur = nxt
        return cur

    def ev_generic(self, e, st):
        kids = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return [(s, ("x", type(e).__name__, tuple(ts))) for s, ts in self.evs(kids, st)]

    def ev_Constant(self, e, st):
        return [(st, const(e.value))]

    def ev_Name(self, e, st):
        return [(st, self.lookup_name(e.id, st))]

    def ev_Attribute(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            out.extend(self.getattr_(b, e.attr, e, s))
        return out

    def getattr_(self, b, attr, node, s):
        attr = self.mangle(attr)
        if ("at", b, attr) in s.env:
            return [(s, s.env[("at", b, attr)])]
        if b[0] == "g":
            fq = self.p.canon(f"{b[1]}.{attr}")
            return [(s, ("g", fq))]
        t = ("a", b, attr)
        # property inlining
        c = self.type_of(b)
        if c is not None:
            m = self.p.method(c, attr)
            if m is not None and m.is_property and self.want_inline(m, ("call", t, (), (), 0)):
                return self.inline_call(m, [b], {}, node, s, ("call", t, (), (), id(node)))
        return [(s, t)]

    def ev_Subscript(self, e, st):
        out = []
        for s, (b, i) in self.evs([e.value, e.slice], st):
            if b[0] in ("tuple", "list") and i[0] == "c" and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]) and not any(x[0] == "star" for x in b[1]):
                out.append((s, b[1][i[2]]))
            else:
                if self.lookup_try and not (b[0] == "g" and b[1].rsplit(".", 1)[-1][:1].isupper()) and i[0] != "slice":
                    self.raise_("builtins.LookupError", ("exc", "builtins.LookupError", ("subscript", e.lineno)), e, s)
                out.append((s, s.env.get(("it", b, i), ("sub", b, i)) if self.rule.track_items else ("sub", b, i)))
        return out

    def ev_Slice(self, e, st):
        parts = [e.lower, e.upper, e.step]
        out = []
        for s, ts in self.evs([p for p in parts if p is not None], st):
            it = iter(ts)
            out.append((s, ("slice",) + tuple(next(it) if p is not None else None for p in parts)))
        return out

    def ev_Tuple(self, e, st):
        return [(s, ("tuple", tuple(ts))) for s, ts in self.evs(e.elts, st)]

    def ev_List(self, e, st):
        return [(s, ("list", tuple(ts))) for s, ts in self.evs(e.elts, st)]

    def ev_Set(self, e, st):
        return [(s, ("set", tuple(ts))) for s, ts in self.evs(e.elts, st)]

    def ev_Dict(self, e, st):
        ks = [k for k in e.keys if k is not None]
        out = []
        for s, ts in self.evs(ks + e.values, st):
            kk = iter(ts[: len(ks)])
            vv = ts[len(ks):]
            items = []
            for k, v in zip(e.keys, vv):
                items.append((next(kk) if k is not None else ("c", "str", "**"), v))
            out.append((s, ("dict", tuple(items))))
        return out

    def ev_Starred(self, e, st):
        return [(s, ("star", t)) for s, t in self.ev(e.value, st)]

    def ev_BinOp(self, e, st):
        op = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "LShift": "<<", "RShift": ">>", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "MatMult": "@"}[type(e.op).__name__]
        return [(s, self.mk(("bin", op, a, b), e)) for s, (a, b) in self.evs([e.left, e.right], st)]

    def mk(self, t, node):
        return t if size(t, 400) <= 400 else ("opq", ("big", node.lineno, node.col_offset))

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            out = []
            for s, t in self.ev(e.operand, st):
                out.append((s, ("c", "bool", not t[2]) if t[0] == "c" else (t[1] if t[0] == "not" and t[1][0] in ("cmp", "not") else ("not", t))))
            return out
        op = {"USub": "-", "UAdd": "+", "Invert": "~"}[type(e.op).__name__]
        out = []
        for s, t in self.ev(e.operand, st):
            if op == "-" and t[0] == "c" and isinstance(t[2], (int, float)):
                out.append((s, const(-t[2])))
            else:
                out.append((s, ("un", op, t)))
        return out

    OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}

    def ev_Compare(self, e, st):
        # value context
        if len(e.ops) == 1:
            out = []
            for s, (a, b) in self.evs([e.left, e.comparators[0]], st):
                t = ("cmp", self.OPS[type(e.ops[0]).__name__], a, b)
                au = self.rule.on_cmp(s.auto, t, e, s, self)
                if au is not None:
                    out.append((s.with_auto(au), t))
            return out
        out = []
        for s, v in self.cond(e, st):
            out.append((s, const(v)))
        return out

    def ev_BoolOp(self, e, st):
        # value of a and b / a or b
        is_or = isinstance(e.op, ast.Or)
        cur = [(st, None)]
        done = []
        for i, v in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, t in self.ev(v, s):
                    if i == len(e.values) - 1:
                        done.append((s2, t))
                        continue
                    for s3, val in self.branch(t, s2, v):
                        if val == is_or:
                            if t[0] in ("cmp", "not"):
                                done.append((s3, const(is_or)))
                            else:
                                done.append((s3, t))
                        else:
                            nxt.append((s3, None))
            cur = nxt
        return done

    def ev_IfExp(self, e, st):
        out = []
        for s, v in self.cond(e.test, st):
            out.extend(self.ev(e.body if v else e.orelse, s))
        return out

    def ev_NamedExpr(self, e, st):
        out = []
        for s, t in self.ev(e.value, st):
            out.append((self.assign(e.target, t, s, e)[0], t))
        return out

    def ev_JoinedStr(self, e, st):
        return [(s, ("fstr", tuple(ts))) for s, ts in self.evs(e.values, st)]

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_Lambda(self, e, st):
        f = self.p.func_of_node.get(e)
        key = ("lam", e)
        self.__dict__.setdefault("_lams", {})[(e.lineno, e.col_offset, self.func.module.name)] = (e, f, self.frame)
        return [(st, ("lambda", (self.func.module.name, e.lineno, e.col_offset), self.frame))]

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        out = []
        for s, t in (self.ev(e.value, st) if e.value else [(st, NONE)]):
            if self.rule.track_exc:
                self.raise_("*", ("exc", "*", ("yield", e.lineno)), e, s)
            a = self.rule.on_yield(s.auto, t, e, s, self)
            if a is None:
                continue
            out.append((self.havoc_call(s.with_auto(a), None), ("opq", ("sent", e.lineno, e.col_offset))))
        return out

    def ev_YieldFrom(self, e, st):
        out = []
        for s, t in self.ev(e.value, st):
            a = self.rule.on_yield(s.auto, ("star", t), e, s, self)
            if a is None:
                continue
            out.append((self.havoc_call(s.with_auto(a), None), ("opq", ("sent", e.lineno, e.col_offset))))
        return out

    def _comp(self, kind, e, st):
        # body evaluated once with element variables bound to ('elem', iter)
        cur = [(st, [], [])]
        saved = {}
        for g in e.generators:
            nxt = []
            for s, its, conds in cur:
                for s2, it in self.ev(g.iter, s):
                    s3 = s2
                    s3, = self.assign(g.target, self.elem(it), s3, e, quiet=True)
                    ss = [(s3, conds)]
                    for c in g.ifs:
                        n2 = []
                        for s4, cs in ss:
                            for s5, t in self.ev(c, s4):
                                n2.append((s5, cs + [t]))
                        ss = n2
                    for s4, cs in ss:
                        nxt.append((s4, its + [it], cs))
            cur = nxt
        out = []
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        for s, its, cs in cur:
            # body evaluated under the filter conditions
            ss = [s]
            for c in cs:
                ss = [s3 for s2 in ss for s3, v in self.branch(c, s2, e) if v]
            for s2 in ss:
                for s3, ts in self.evs(elts, s2):
                    t = ("comp", kind, ts[0] if len(ts) == 1 else ("tuple", tuple(ts)), tuple(its), tuple(cs))
                    # restore facts/guards/env of the pre-state, keep auto
                    s4 = State(s.env, s.facts, s.guards, s3.auto)
                    fr = self.frame
                    s4 = s4.unset(lambda k: isinstance(k, tuple) and len(k) == 2 and k[0] == fr and k[1] in names and k not in st.env)
                    for k in names:
                        if (fr, k) in st.env:
                            s4 = s4.set((fr, k), st.env[(fr, k)])
                    out.append((s4, self.mk(t, e)))
        if not out:
            out = [(st, ("comp", kind, ("opq", "none"), (), ()))]
        # zero-iteration outcome keeps the pre-body auto
        seen = {}
        for s, t in out:
            seen.setdefault((s.key(), t), (s, t))
        s0, t0 = out[0]
        for s, its, cs in cur:
            fr = self.frame
            s4 = s.unset(lambda k: isinstance(k, tuple) and len(k) == 2 and k[0] == fr and k[1] in names and k not in st.env)
            for k in names:
                if (fr, k) in st.env:
                    s4 = s4.set((fr, k), st.env[(fr, k)])
            seen.setdefault((s4.key(), t0), (s4, t0))
        return list(seen.values())

    def ev_ListComp(self, e, st):
        return self._comp("list", e, st)

    def ev_SetComp(self, e, st):
        return self._comp("set", e, st)

    def ev_GeneratorExp(self, e, st):
        return self._comp("gen", e, st)

    def ev_DictComp(self, e, st):
        return self._comp("dict", e, st)

    def elem(self, it):
        if it[0] == "call" and it[1] == ("g", "builtins.enumerate") and it[2]:
            start = it[2][1] if len(it[2]) > 1 else dict(it[3]).get("start", ("c", "int", 0))
            i = ("idx", it[2][0])
            return ("tuple", (i if start == ("c", "int", 0) else ("bin", "+", i, start), ("elem", it[2][0])))
        if it[0] == "call" and it[1] == ("g", "builtins.zip"):
            return ("tuple", tuple(self.elem(x) for x in it[2]))
        if it[0] == "call" and it[1] in (("g", "builtins.list"), ("g", "builtins.tuple"), ("g", "builtins.iter")) and len(it[2]) == 1:
            return self.elem(it[2][0])
        return ("elem", it)

    # ---- calls
    def ev_Call(self, e, st):
        out = []
        args = [a for a in e.args]
        kws = e.keywords
        exprs = args + [k.value for k in kws]
        for s0, f in self.ev_callee(e.func, st):
            for s, ts in self.evs(exprs, s0):
                pos = tuple(ts[: len(args)])
                kw = tuple((k.arg or "**", t) for k, t in zip(kws, ts[len(args):]))
                # flatten *tuple
                if any(x[0] == "star" and x[1][0] in ("tuple", "list") for x in pos):
                    flat = []
                    for x in pos:
                        if x[0] == "star" and x[1][0] in ("tuple", "list"):
                            flat.extend(x[1][1])
                        else:
                            flat.append(x)
                    pos = tuple(flat)
                out.extend(self.do_call(f, pos, kw, e, s))
        return out

    def ev_callee(self, fe, st):
        return self.ev(fe, st)

    def do_call(self, f, pos, kw, node, s):
        # functools.partial application / bound helpers stay symbolic
        det = f[0] == "g" and f[1] in DET
        site = 0 if det else (self.frame, node.lineno, node.col_offset, id(node) if False else 0)
        call = ("call", f, pos, kw, site)
        if size(call, 600) > 600:
            call = ("call", f, tuple(x if size(x, 60) <= 60 else ("opq", ("big", node.lineno)) for x in pos), tuple((k, x if size(x, 60) <= 60 else ("opq", ("big", node.lineno))) for k, x in kw), site)
        if f == ("g", "builtins.getattr") and len(pos) >= 2 and pos[1][0] == "c" and isinstance(pos[1][2], str) and len(pos) == 2:
            return self.getattr_(pos[0], pos[1][2], node, s)
        if f[0] == "a" and f[2] == "with_traceback" and f[1][0] == "exc" and len(pos) == 1:
            return [(s, f[1])]  # returns the exception itself
        if f == ("g", "typing.cast") and len(pos) == 2:
            return [(s, pos[1])]
        if f == ("g", "builtins.setattr") and len(pos) == 3 and pos[1][0] == "c":
            return [(x, NONE) for x in self.store_attr(pos[0], pos[1][2], pos[2], node, s)]
        if f == ("g", "builtins.bool") and len(pos) == 1 and pos[0][0] == "c":
            return [(s, const(bool(pos[0][2])))]
        target = self.resolve(f)
        # lambdas
        if f[0] == "lambda":
            ent = self.__dict__.get("_lams", {}).get((f[1][1], f[1][2], f[1][0]))
            if ent and ent[1] is not None and len(self.stack) < 12:
                return self.inline_call(ent[1], list(pos), dict(kw), node, s, call, lexframe=ent[2])
        # partial(f, a)(b)
        if f[0] == "call" and last(f[1]) == "partial" and f[2]:
            return self.do_call(f[2][0], f[2][1:] + pos, f[3] + kw, node, s)
        s2 = s
        if isinstance(target, Func):
            self.consulted.add(target.fq)
            if self.want_inline(target, call):
                a = self.rule.on_call(s.auto, call, node, s, self)
                if a is None:
                    return []
                s = s.with_auto(a)
                args = list(pos)
                lex = None
                if f[0] == "fn":
                    lex = f[2]
                elif f[0] == "a" and not target.is_static:
                    if f[1][0] == "call" and f[1][1] == ("g", "builtins.super"):
                        args = [self.self_term(s)] + args
                    elif target.is_classmethod:
                        args = [("cls", f[1])] + args
                    else:
                        args = [f[1]] + args
                elif f[0] == "g" and target.cls is not None and target.is_classmethod:
                    args = [("g", f[1].rpartition(".")[0])] + args
                return self.inline_call(target, args, dict(kw), node, s, call, lexframe=lex)
        # ordinary call: event
        self.rule_call_exc(call, node, s)
        a = self.rule.on_call(s.auto, call, node, s, self)
        if a is None:
            return []
        s = s.with_auto(a)
        nr = self.rule.noreturn(call, target)
        if nr is None:
            nr = isinstance(target, Func) and self.is_noreturn(target)
        if nr:
            if not self.rule.track_exc:
                self.raise_("*", ("exc", "*", site), node, s)
            return []
        s = self.kill_site(s, site, call)
        if not det and not (f[0] == "g" and f[1] in PURE):
            s = self.havoc_call(s, call)
            if self.rule.track_items:
                gone = list(call[2]) + [v for _, v in call[3]] + ([f[1]] if f[0] == "a" and f[2] not in ("get", "keys", "items", "values", "copy") else [])
                s = s.unset(lambda k: k[0] == "it" and k[1] in gone)
            if f[0] == "a" and f[2] in MUTATORS and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                s = self.mutate_literal(s, node.func.value, f[1], f[2] in ("append", "add", "insert", "appendleft"), node)
        return [(s, call)]

    def mutate_literal(self, s, expr, t, nonempty, node):
        """a local container literal changes: its variables no longer denote the literal"""
        fresh = t[0] in ("list", "set", "dict") or t[0] == "call" and t[1][0] == "g" and t[1][1] in CONTAINERS
        again = t[0] == "phi" and isinstance(t[2], tuple) and t[2][:1] == ("mut",)
        if not (fresh or again):
            return s
        for k, v in list(s.env.items()):
            if v == t and (k[0] != self.frame or isinstance(expr, ast.Name) and k[1] == expr.id):
                nt = ("phi", k[1], ("mut", k[0]))
                s = s.kill_facts(lambda a: any_sub(a, lambda x: x == nt))
                s = s.set(k, nt)
                if nonempty:
                    s = s.fact(nt, True)
        return s

    def self_term(self, s):
        for fn, fr in reversed(self.stack):
            if fn.cls is not None:
                ps = fn.params()
                if ps and (fr, ps[0]) in s.env:
                    return s.env[(fr, ps[0])]
        return ("p", "self")

    def rule_call_exc(self, call, node, s):
        if not self.rule.track_exc:
            return
        if call[1][0] == "g" and call[1][1] in DET:
            return
        for t in self.rule.call_raises(call, node, s, self):
            self.raise_(t, ("exc", t, ("cs", show(call[1]))), node, s)

    def is_noreturn(self, f):
        cache = self.p.__dict__.setdefault("_noret", {})
        if f.fq in cache:
            return cache[f.fq]
        cache[f.fq] = False
        r = getattr(f.node, "returns", None)
        if r is not None and ast.unparse(r).split(".")[-1] in ("NoReturn", "Never"):
            cache[f.fq] = True
        else:
            b = f.node.body if isinstance(f.node.body, list) else []
            b = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            # abstract methods raising NotImplementedError are not noreturn (overridden)
            if len(b) >= 1 and all(not isinstance(n, (ast.Return, ast.Yield)) for n in own_nodes(f.node)) and isinstance(b[-1], ast.Raise) and "NotImplementedError" not in ast.unparse(b[-1]) and f.cls is None:
                cache[f.fq] = True
        return cache[f.fq]

    def kill_site(self, s, site, call):
        if site == 0:
            return s
        return s.kill_facts(lambda a: any_sub(a, lambda x: x[0] == "call" and x[4] == site))

    def havoc_call(self, s, call):
        """effects of an unknown call on remembered facts"""
        mut = self.p.mutable_attrs()
        recv = None
        args = ()
        if call is not None:
            if call[1][0] == "a":
                recv = call[1][1]
            args = tuple(call[2]) + tuple(v for _, v in call[3])

        def dead(atom):
            if atom[0] == "cmp" and atom[1] == "is" and atom[3] == NONE and atom[2][0] in ("p", "phi", "elem", "call"):
                return False
            if atom[0] == "call" and last(atom[1]) in ("isinstance", "issubclass"):
                return False
            for x in _subs(atom):
                if x[0] == "a" and x[2] in mut:
                    return True
                if x[0] == "sub":
                    return True
                if recv is not None and x == recv and x[0] in ("p", "phi", "a", "call", "list", "dict", "set") and x != ("p", "self"):
                    return True
            if any(x == atom for x in args) and atom[0] in ("list", "dict", "set"):
                return True
            return False

        return s.kill_facts(dead)

    def want_inline(self, target, call):
        if len(self.stack) > self.rule.depth:
            return False
        if any(f is target for f, _ in self.stack):
            return False
        if isinstance(target.node, ast.AsyncFunctionDef):
            return False
        if target.is_generator:
            return False
        if target.fq not in BASELINE and BASELINE:
            return True
        return self.rule.inline(target, call, self.root)

    def inline_call(self, func, args, kw, node, s, call, lexframe=None):
        self.inlined.add(func.fq)
        self.consulted.add(func.fq)
        frame = ("f", len(self.stack), getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if not hasattr(self, "_lex"):
            self._lex = {}
        self._lex[frame] = lexframe
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        binds = {}
        extra = []
        star = False
        for i, t in enumerate(args):
            if t[0] == "star":
                star = True
                for n in names[i:]:
                    binds.setdefault(n, ("sub", t[1], ("c", "int", names.index(n) - i)))
                extra.append(t)
                break
            if i < len(names):
                binds[names[i]] = t
            else:
                extra.append(t)
        if a.vararg:
            binds[a.vararg.arg] = ("tuple", tuple(extra)) if not (star and len(extra) == 1) else extra[0][1]
        kwrest = []
        kwnames = set(names) | {x.arg for x in a.kwonlyargs}
        starkw = None
        for k, v in kw.items():
            if k == "**":
                starkw = v
            elif k in kwnames:
                binds[k] = v
            else:
                kwrest.append((("c", "str", k), v))
        if a.kwarg:
            binds[a.kwarg.arg] = starkw if starkw is not None and not kwrest else ("dict", tuple(kwrest))
        # defaults
        dpos = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dkw = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.stack.append((func, frame))
        try:
            for n in list(kwnames):
                if n not in binds:
                    d = dpos.get(n) or dkw.get(n)
                    if starkw is not None:
                        binds[n] = ("sub", starkw, ("c", "str", n))
                    elif d is not None:
                        r = self.ev(d, s) if isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp)) else None
                        binds[n] = r[0][1] if r else ("opq", ("default", n))
                    else:
                        binds[n] = ("opq", ("missing", n))
            env = {k: v for k, v in s.env.items() if not (isinstance(k, tuple) and k[0] == frame)}
            for k, v in binds.items():
                env[(frame, k)] = v
            s1 = State(env, s.facts, s.guards, s.auto)
            body = func.node.body if isinstance(func.node.body, list) else [ast.copy_location(ast.Return(value=func.node.body), func.node)]
            fl = self.block(body, [s1])
        finally:
            self.stack.pop()
        clean = lambda st: st.unset(lambda k: isinstance(k, tuple) and len(k) == 2 and k[0] == frame)  # noqa
        keep_frame = any_fn_ref(fl, frame)
        if keep_frame:
            clean = lambda st: st  # noqa
        out = {}
        for st in fl.next.values():
            c = clean(st)
            out.setdefault((c.key(), NONE), (c, NONE))
        for st, v, n in fl.ret.values():
            c = clean(st)
            out.setdefault((c.key(), v), (c, v))
        for x in fl.exc.values():
            self.sink[-1].setdefault(x.key(), Exc(x.type, x.value, x.node, clean(x.state), x.func))
        return list(out.values())

    # ---------------- conditions ------------
    def cond(self, e, st):
        """evaluate e as a branch condition -> list[(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            is_or = isinstance(e.op, ast.Or)
            cur = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s):
                        if b == is_or:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, not is_or) for s in cur)
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for s, v in self.cond(e.test, st):
                out.extend(self.cond(e.body if v else e.orelse, s))
            return out
        if isinstance(e, ast.NamedExpr):
            out = []
            for s, t in self.ev(e, st):
                out.extend(self.branch(t, s, e))
            return out
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c with operands evaluated once
            out = []
            cur = [(s, t) for s, t in self.ev(e.left, st)]
            for op, c in zip(e.ops, e.comparators):
                nxt = []
                for s, l in cur:
                    for s2, r in self.ev(c, s):
                        for s3, b in self.branch(("cmp", self.OPS[type(op).__name__], l, r), s2, e):
                            if b:
                                nxt.append((s3, r))
                            else:
                                out.append((s3, False))
                cur = nxt
            out.extend((s, True) for s, _ in cur)
            return out
        # any(...) / all(...) over a literal generator stay symbolic
        out = []
        for s, t in self.ev(e, st):
            out.extend(self.branch(t, s, e))
        return out

    def truth(self, t):
        """constant truthiness or None"""
        o = t[0]
        if o == "c":
            if t[1] in ("int", "str", "bytes", "bool", "float", "NoneType", "ellipsis"):
                return bool(t[2])
            return None
        if o in ("tuple", "list", "set"):
            return bool(t[1]) if not any(x[0] == "star" for x in t[1]) else None
        if o in ("fn", "lambda"):
            return True
        return None

    def is_none(self, t, s):
        o = t[0]
        if t == NONE:
            return True
        if o in ("c", "tuple", "list", "set", "dict", "fstr", "fn", "lambda", "comp", "bin", "cmp", "exc"):
            return False
        if o == "call":
            r = self.resolve(t[1])
            if isinstance(r, Class):
                return False
        v = s.facts.get(("cmp", "is", t, NONE))
        if v is None and s.facts.get(t) is True:
            return False
        return v

    def distinct(self, a, b):
        """are two terms known distinct constants?"""
        if a[0] == "c" and b[0] == "c":
            return a != b and not (a[2] == b[2])
        if a[0] == "g" and b[0] == "g" and a != b:
            ca, cb = a[1].rpartition(".")[0], b[1].rpartition(".")[0]
            k = self.p.classes.get(ca)
            if ca == cb and k is not None and any(x.rsplit(".", 1)[-1] in ("Enum", "IntEnum") for x in self.p.ancestors_fq(k)):
                return True
        return False

    def decide(self, atom, s):
        t = atom
        v = s.facts.get(t)
        if v is not None:
            return v
        v = self.truth(t)
        if v is not None:
            return v
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op == "is" and b == NONE:
                return self.is_none(a, s)
            if op == "is" and b in (TRUE, FALSE):
                v = self.decide(a, s)
                if v is not None and v is not (b == TRUE) or self.is_none(a, s):
                    return False
                if v is not None and s.facts.get(("call", ("g", "builtins.isinstance"), (a, ("g", "builtins.bool")), (), 0)):
                    return True
                if s.facts.get(("cmp", "is", a, FALSE if b == TRUE else TRUE)):
                    return False
            if op in ("is", "=="):
                if a == b and (a[0] in ("c", "p", "g") or op == "is"):
                    return True
                if self.distinct(a, b):
                    return False
                v = s.facts.get(("cmp", op, b, a))
                if v is not None:
                    return v
                if b[0] in ("g", "c"):
                    for at, val in s.facts.items():
                        if at[0] == "cmp" and at[1] == "==" and at[2] == a and val and self.distinct(at[3], b):
                            return False
            if op == "<":
                if a[0] == "c" and b[0] == "c" and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
                    return a[2] < b[2]
                if a == b:
                    return False
                # a<b known -> b<a false
                if s.facts.get(("cmp", "<", b, a)) is True:
                    return False
                if s.facts.get(("cmp", "==", a, b)) is True or s.facts.get(("cmp", "==", b, a)) is True:
                    return False
            if op == "in" and b[0] in ("tuple", "list", "set"):
                if a == NONE:
                    known = [self.is_none(x, s) for x in b[1]]
                    if True in known:
                        return True
                    if all(k is False for k in known):
                        return False
                for x in b[1]:
                    if x == a:
                        return True
                    if s.facts.get(("cmp", "==", a, x)) is True:
                        return True
                if all(self.distinct(a, x) for x in b[1]):
                    return False
        else:
            # truthiness: None-known values are false
            if s.facts.get(("cmp", "is", t, NONE)) is True:
                return False
            if t[0] == "call" and self.resolve(t[1]) is not None and isinstance(self.resolve(t[1]), Class):
                k = self.resolve(t[1])
                if not (self.p.method(k, "__bool__") or self.p.method(k, "__len__")) and k.fq == "":
                    return True
        if t[0] == "call" and t[1] == ("g", "builtins.isinstance") and len(t[2]) == 2:
            return self.decide_isinstance(t[2][0], t[2][1], s)
        return None

    TYPE_OF_CONST = {"int": {"int"}, "bool": {"bool", "int"}, "str": {"str"}, "float": {"float"}, "bytes": {"bytes"}, "NoneType": set()}

    def decide_isinstance(self, x, ty, s):
        names = [t for t in (ty[1] if ty[0] == "tuple" else (ty,))]
        if x[0] == "exc" and x[1] != "*":
            ms = [self.hmatch(x[1], t) for t in self.type_list(ty)]
            if "yes" in ms:
                return True
            if ms and all(m == "no" for m in ms):
                return False
        if x[0] == "c" and x[1] in self.TYPE_OF_CONST and all(n[0] == "g" and n[1].startswith("builtins.") for n in names):
            return any(n[1][9:] in self.TYPE_OF_CONST[x[1]] or n[1] == "builtins.object" for n in names)
        if x[0] == "call":
            k = self.resolve(x[1])
            if isinstance(k, Class) and all(n[0] == "g" and self.p.classes.get(n[1]) for n in names):
                anc = self.p.ancestors_fq(k)
                return any(n[1] in anc for n in names)
        return None

    def branch(self, t, s, node):
        """split state on truth of term t -> list[(state,bool)]"""
        if t[0] == "ifexp":
            pass
        atom, pol = norm_atom(t)
        known = self.decide(atom, s)
        out = []
        for v in (True, False):
            if known is not None and v is not known:
                continue
            s2 = s
            if known is None:
                # a split on `x in (A, B)`, v
                s2 = s2.fact(atom, v) if self.rule.prune_on(atom) else s2
                if atom[0] == "cmp" and atom[1] == "in" and not v and atom[3][0] in ("tuple", "list", "set"):
                    for x in atom[3][1]:
                        s2 = s2.fact(("cmp", "==", atom[2], x) if atom[2] != NONE else ("cmp", "is", x, NONE), False)
                if v and atom[0] == "cmp" and atom[1] == "is" and atom[3] in (TRUE, FALSE) and self.rule.prune_on(atom):
                    s2 = s2.fact(atom[2], atom[3] == TRUE)
            if atom[0] != "c" and self.rule.relevant(atom):
                s2 = s2.guard(atom, v)
            a = self.rule.on_branch(s2.auto, atom, v, node, s2, self)
            if a is None:
                continue
            out.append((s2.with_auto(a), v == pol))
        return out

    # ---------------- statements ------------
    @property
    def sink(self):
        return self.__dict__.setdefault("_sink", [{}])

    def raise_(self, type, value, node, s):
        a = self.rule.on_raise(s.auto, type, value, node, s, self)
        if a is None:
            return
        s = s.with_auto(a)
        x = Exc(type, value, node, s, self.func)
        self.sink[-1].setdefault(x.key(), x)

    def block(self, stmts, states):
        """execute statements; exceptions raised while evaluating go to fl.exc"""
        total = Flow()
        cur = self.limit(states)
        for st in stmts:
            if not cur:
                break
            fl = self.stmt(st, cur)
            total.absorb(fl, nxt=False)
            cur = self.limit(self.drop_dead(st, fl.next.values()))
        for s in cur:
            total.add_next(s)
        return total

    def stmt(self, n, states):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(n).__name__} at {self.func.module.rel}:{n.lineno}")
        self.sink.append({})
        fl = Flow()
        try:
            for s in states:
                m(n, s, fl)
        finally:
            ex = self.sink.pop()
        for k, x in ex.items():
            fl.exc.setdefault(k, x)
        return fl

    def st_Expr(self, n, s, fl):
        if isinstance(n.value, ast.Constant):
            fl.add_next(s)
            return
        for s2, _ in self.ev(n.value, s):
            fl.add_next(s2)

    def st_Pass(self, n, s, fl):
        fl.add_next(s)

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, n, s, fl):
        fl.add_next(s)

    st_ImportFrom = st_Import

    def st_FunctionDef(self, n, s, fl):
        f = self.p.func_of_node.get(n)
        fl.add_next(s.set((self.frame, n.name), ("fn", f.fq, self.frame)) if f else s)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, n, s, fl):
        fl.add_next(s.set((self.frame, n.name), ("g", f"{self.func.fq}.<locals>.{n.name}")))

    def st_Assign(self, n, s, fl):
        for s2, t in self.ev(n.value, s):
            ss = [s2]
            for tg in n.targets:
                ss = [s4 for s3 in ss for s4 in self.assign(tg, t, s3, n)]
            for s3 in ss:
                fl.add_next(s3)

    def st_AnnAssign(self, n, s, fl):
        if n.value is None:
            fl.add_next(s)
            return
        for s2, t in self.ev(n.value, s):
            for s3 in self.assign(n.target, t, s2, n):
                fl.add_next(s3)

    def st_AugAssign(self, n, s, fl):
        load = _as_load(n.target)
        op = ast.BinOp(left=load, op=n.op, right=n.value)
        ast.copy_location(op, n)
        for s2, t in self.ev(op, s):
            for s3 in self.assign(n.target, t, s2, n):
                fl.add_next(s3)

    def assign(self, tg, t, s, node, quiet=False):
        """returns list of states"""
        if isinstance(tg, ast.Name):
            g = None
            if tg.id not in self.local_names(self.func)[0]:
                # global/nonlocal
                for n in own_nodes(self.func.node):
                    if isinstance(n, (ast.Global,)) and tg.id in n.names:
                        g = "global"
                    elif isinstance(n, ast.Nonlocal) and tg.id in n.names:
                        g = "nonlocal"
            if g == "global":
                a = self.rule.on_setattr(s.auto, ("g", self.func.module.name), tg.id, t, node, s, self)
                return [s.with_auto(a)] if a is not None else []
            key = (self.frame, tg.id)
            if g == "nonlocal":
                fr, fn = self.frame, self.func
                lex = getattr(self, "_lex", {}).get(fr)
                while lex is not None and fn.parent is not None:
                    fn = fn.parent
                    if tg.id in self.local_names(fn)[0]:
                        key = (lex, tg.id)
                        break
                    lex = self._lex.get(lex)
            if not quiet:
                a = self.rule.on_assign(s.auto, tg.id, t, node, s, self)
                if a is None:
                    return []
                s = s.with_auto(a)
            return [s.set(key, t)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            ss = [s]
            elts = tg.elts
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    v = ("rest", t, i)
                    e = e.value
                elif t[0] in ("tuple", "list") and len(t[1]) == len(elts) and not any(x[0] == "star" for x in t[1]):
                    v = t[1][i]
                else:
                    v = ("sub", t, ("c", "int", i))
                ss = [s3 for s2 in ss for s3 in self.assign(e, v, s2, node, quiet)]
            return ss
        if isinstance(tg, ast.Attribute):
            out = []
            for s2, b in self.ev(tg.value, s):
                out.extend(self.store_attr(b, self.mangle(tg.attr), t, node, s2))
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for s2, (b, i) in self.evs([tg.value, tg.slice], s):
                a = self.rule.on_setitem(s2.auto, b, i, t, node, s2, self)
                if a is None:
                    continue
                s3 = s2.with_auto(a).kill_facts(lambda at: contains(at, b) and not (at[0] == "cmp" and at[1] == "is"))
                if self.rule.track_items:
                    s3 = s3.unset(lambda k: k[0] == "it" and k[1] == b and (i[0] != "c" or k[2] == i))
                    if i[0] == "c":
                        s3 = s3.set(("it", b, i), t if size(t, 120) <= 120 else ("opq", ("big", node.lineno)))
                out.append(self.mutate_literal(s3, tg.value, b, i[0] != "slice", node))
            return out
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, t, s, node, quiet)
        return [s]

    def store_attr(self, b, attr, t, node, s):
        a = self.rule.on_setattr(s.auto, b, attr, t, node, s, self)
        if a is None:
            return []
        s = s.with_auto(a)
        old = ("a", b, attr)
        s = s.kill_facts(lambda at: contains(at, old))
        if not self.rule.keep_attr(b, attr):
            return [s.unset(lambda k: k == ("at", b, attr))]
        return [s.set(("at", b, attr), t if size(t, 120) <= 120 else ("opq", ("big", node.lineno)))]

    def st_Delete(self, n, s, fl):
        ss = [s]
        for tg in n.targets:
            out = []
            for s1 in ss:
                if isinstance(tg, ast.Name):
                    out.append(s1.unset(lambda k: k == (self.frame, tg.id)))
                elif isinstance(tg, ast.Attribute):
                    for s2, b in self.ev(tg.value, s1):
                        a = self.rule.on_del(s2.auto, ("a", b, self.mangle(tg.attr)), n, s2, self)
                        if a is not None:
                            out.append(s2.with_auto(a).unset(lambda k: k == ("at", b, tg.attr)))
                else:
                    for s2, (b, i) in self.evs([tg.value, tg.slice], s1):
                        self_exc = ("sub", b, i)
                        if self.rule.track_exc:
                            self.rule_call_exc(("call", ("g", "operator.delitem"), (b, i), (), ("del", n.lineno)), n, s2)
                        a = self.rule.on_del(s2.auto, self_exc, n, s2, self)
                        if a is not None:
                            s3 = s2.with_auto(a).kill_facts(lambda at: contains(at, b))
                            out.append(s3.unset(lambda k: k[0] == "it" and k[1] == b) if self.rule.track_items else s3)
            ss = out
        for x in ss:
            fl.add_next(x)

    def st_Return(self, n, s, fl):
        for s2, t in (self.ev(n.value, s) if n.value is not None else [(s, NONE)]):
            if len(self.stack) == 1:
                a = self.rule.on_return(s2.auto, t, n, s2, self)
                if a is None:
                    continue
                s2 = s2.with_auto(a)
            fl.ret.setdefault((s2.key(), t), (s2, t, n))

    def exc_type(self, t):
        """type name of raised term"""
        if t[0] == "call":
            if t[1][0] == "g":
                return t[1][1]
            return "*"
        if t[0] == "g":
            return t[1]
        if t[0] == "exc":
            return t[1]
        return "*"

    def st_Raise(self, n, s, fl):
        if n.exc is None:
            cur = s.env.get((self.frame, "$exc")) or s.env.get(("$exc",))
            t = cur or ("exc", "*", ("reraise", n.lineno))
            self.raise_(self.exc_type(t), t, n, s)
            return
        for s2, t in self.ev(n.exc, s):
            if n.cause is not None:
                for s3, _ in self.ev(n.cause, s2):
                    self.raise_(self.exc_type(t), t, n, s3)
            else:
                self.raise_(self.exc_type(t), t, n, s2)

    def st_Assert(self, n, s, fl):
        for s2, v in self.cond(n.test, s):
            if v:
                fl.add_next(s2)
            elif self.rule.track_exc or True:
                self.raise_("builtins.AssertionError", ("exc", "builtins.AssertionError", ("assert", n.lineno)), n, s2)

    def st_If(self, n, s, fl):
        t_states, f_states = [], []
        for s2, v in self.cond(n.test, s):
            (t_states if v else f_states).append(s2)
        if t_states:
            fl.absorb(self.block(n.body, t_states))
        if f_states:
            fl.absorb(self.block(n.orelse, f_states)) if n.orelse else [fl.add_next(x) for x in f_states]

    def assigned_in(self, node):
        r = self._loop_assigned.get(node)
        if r is None:
            names, attrs = set(), set()
            for b in ([node] if not isinstance(node, list) else node):
                for n in ast.walk(b):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        attrs.add(n.attr)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        names.add(n.name)
            r = self._loop_assigned[node] = (names, attrs)
        return r

    def havoc_loop(self, n, s):
        names, attrs = self.assigned_in(n)
        fr = self.frame
        e = dict(s.env)
        site = (fr, n.lineno)
        for k in list(e):
            if isinstance(k, tuple) and len(k) == 2 and k[0] == fr and k[1] in names:
                e[k] = ("phi", k[1], site)
            elif isinstance(k, tuple) and len(k) == 3 and k[0] == "at" and k[2] in attrs:
                e[k] = ("phi", k[2], site)
        for nm in names:
            e.setdefault((fr, nm), ("phi", nm, site))
        s = State(e, s.facts, s.guards, s.auto)
        if self.rule.track_items:
            s = s.unset(lambda k: k[0] == "it")
        return s.kill_facts(lambda a: any_sub(a, lambda x: (x[0] == "phi" and x[2] == site) or (x[0] == "a" and x[2] in attrs)))

    def loop_edge(self, kind, n, s):
        """entry to a loop and its back edge, with the values of the names the loop assigns"""
        names, fr = self.assigned_in(n)[0], self.frame
        a = self.rule.on_loop_edge(s.auto, kind, {k: s.env[(fr, k)] for k in names if (fr, k) in s.env}, n, s, self)
        return s if a is s.auto or a is None else s.with_auto(a)

    def loop(self, n, heads, step, fl):
        """fixpoint; step(states) -> (Flow of body, exit_states)"""
        seen = {}
        work = [self.havoc_loop(n, self.loop_edge("enter", n, s)) for s in heads]
        rounds = 0
        while work and rounds < self.rule.loop_rounds:
            rounds += 1
            new = []
            for s in self.limit(work):
                if s.key() not in seen:
                    seen[s.key()] = s
                    new.append(s)
            if not new:
                break
            body, exits = step(new)
            for x in exits:
                fl.add_next(x)
            for x in body.brk.values():
                fl.add_next(x)
            for k, v in body.ret.items():
                fl.ret.setdefault(k, v)
            for k, v in body.exc.items():
                fl.exc.setdefault(k, v)
            work = [self.havoc_loop(n, self.loop_edge("back", n, s)) for s in list(body.next.values()) + list(body.cont.values())]

    def st_While(self, n, s, fl):
        def step(states):
            ts, fs = [], []
            for st in states:
                for s2, v in self.cond(n.test, st):
                    (ts if v else fs).append(s2)
            b = self.block(n.body, ts) if ts else Flow()
            ex = fs
            if n.orelse and fs:
                o = self.block(n.orelse, fs)
                b.absorb(o, nxt=False)
                ex = list(o.next.values())
            return b, ex

        self.loop(n, [s], step, fl)

    def st_For(self, n, s, fl):
        for s1, it in self.ev(n.iter, s):
            skip = [self.rule.nonempty(it)]

            def step(states, it=it, skip=skip):
                ts = []
                for st in states:
                    a = self.rule.on_loop(st.auto, it, n, st, self)
                    if a is None:
                        continue
                    el = self.elem(it)
                    st2 = st.with_auto(a).kill_facts(lambda at: any_sub(at, lambda x: x == ("elem", it)))
                    if a and len(a) == 1 and a[0] in getattr(self.rule, "heads", ()):
                        # a new iteration under scrutiny: forget what the previous one learned
                        st2 = State(st2.env, {k: v for k, v in st2.facts.items() if s1.facts.get(k) == v}, s1.guards, st2.auto)
                    ts.extend(self.assign(n.target, el, st2, n))
                b = self.block(n.body, ts) if ts else Flow()
                # an iterable the rule knows to be non-empty is not skipped altogether
                ex = [] if skip[0] else list(states)
                skip[0] = False
                if n.orelse:
                    o = self.block(n.orelse, ex)
                    b.absorb(o, nxt=False)
                    ex = list(o.next.values())
                return b, ex

            self.loop(n, [s1], step, fl)

    st_AsyncFor = st_For

    def st_Break(self, n, s, fl):
        fl.brk.setdefault(s.key(), s)

    def st_Continue(self, n, s, fl):
        fl.cont.setdefault(s.key(), s)

    # exceptions
    def exc_fq(self, node, s):
        r = self.ev(node, s)
        return r[0][1] if r else ("opq", "exc")

    def type_list(self, t):
        if t[0] == "tuple":
            return [y for x in t[1] for y in self.type_list(x)]
        if t[0] == "star":
            return self.type_list(t[1])
        if t[0] == "g":
            # module-level tuple constant of exception types
            m, _, nm = t[1].rpartition(".")
            if m in self.p.modules:
                b = self.p.modules[m].bind.get(nm)
                if isinstance(b, tuple) and b[0] == "var" and isinstance(getattr(b[1], "value", None), ast.Tuple):
                    out = []
                    for e in b[1].value.elts:
                        fq = self.p.resolve_expr_fq(self.p.modules[m], e)
                        out.append(("g", fq) if fq else ("opq", "exc"))
                    return out
            return [t]
        return [t]

    def hmatch(self, raised, t):
        """does an exception of type `raised` match the handler type term t"""
        m = self.rule.handler_match(raised, t, self)
        if m is not None:
            return m
        return self.exc_match(raised, t[1]) if t[0] == "g" else "maybe"

    def exc_match(self, raised, handler):
        if raised.startswith("exceptiongroup."):
            raised = "builtins." + raised.rsplit(".", 1)[1]
        if handler.startswith("exceptiongroup."):
            handler = "builtins." + handler.rsplit(".", 1)[1]
        """'yes' | 'no' | 'maybe' does exception of type `raised` match handler type fq"""
        if handler == "builtins.BaseException":
            return "yes"
        if raised == "*":
            return "maybe"
        if raised == handler:
            return "yes"
        ra, ha = self.exc_anc(raised), self.exc_anc(handler)
        if handler in ra:
            return "yes"
        if raised in ha:
            return "maybe"
        if "?" in ra or "?" in ha:
            return "maybe"
        return "no"

    def exc_anc(self, fq):
        if fq.startswith("*"):
            return {"?"}
        cache = self.p.__dict__.setdefault("_excanc", {})
        if fq in cache:
            return cache[fq]
        out = set()
        work = [fq]
        while work:
            x = work.pop()
            if x.startswith("exceptiongroup."):
                x = "builtins." + x.rsplit(".", 1)[1]
            if x in out:
                continue
            out.add(x)
            c = self.p.classes.get(x)
            if c is not None:
                work.extend(self.p.base_fqs(c))
            elif x in PSEUDO:
                work.append(PSEUDO[x])
            elif x.startswith("builtins."):
                k = getattr(__import__("builtins"), x[9:], None)
                if isinstance(k, type):
                    out.update("builtins." + b.__name__ for b in k.__mro__)
                else:
                    out.add("?")
            else:
                out.add("?")
        cache[fq] = out
        return out

    def st_Try(self, n, s, fl):
        lk = any(h.type is None or any(w in ast.unparse(h.type) for w in ("KeyError", "IndexError", "LookupError", "Exception")) for h in n.handlers)
        self.lookup_try += lk
        try:
            body = self.block(n.body, [s])
        finally:
            self.lookup_try -= lk
        pend = Flow()
        pend.absorb(body, nxt=False)
        excs = dict(body.exc)
        pend.exc = {}
        nxt = list(body.next.values())
        if n.orelse and nxt:
            o = self.block(n.orelse, nxt)
            pend.absorb(o)
        else:
            for x in nxt:
                pend.add_next(x)
        # handlers
        for x in excs.values():
            self.handle(n, x, pend)
        self.finish(n.finalbody, pend, fl)

    st_TryStar = st_Try

    def handle(self, n, x, pend):
        cur = x
        for h in n.handlers:
            self.sink.append({})
            if h.type is None:
                types = [("g", "builtins.BaseException")]
                tterm = types[0]
            else:
                tterm = self.exc_fq(h.type, cur.state)
                types = self.type_list(tterm)
            self.sink.pop()
            certain = False
            possible = False
            narrowed = None
            for t in types:
                hfq = t[1] if t[0] == "g" else "*?"
                m = self.hmatch(cur.type, t)
                if m == "yes":
                    certain = possible = True
                elif m == "maybe":
                    possible = True
                    narrowed = hfq if narrowed is None else "*"
            if not possible:
                continue
            ety = cur.type if certain else (narrowed if narrowed and len(types) == 1 else cur.type)
            val = cur.value if cur.value[0] != "exc" or certain else ("exc", ety, cur.value[2])
            a = self.rule.on_catch(cur.state.auto, types, cur, h, cur.state, self)
            if a is not None:
                s2 = cur.state.with_auto(a)
                old = s2.env.get((self.frame, "$exc"))
                s2 = s2.set((self.frame, "$exc"), val)
                if h.name:
                    s2 = s2.set((self.frame, h.name), val)
                b = self.block(h.body, [s2])

                def rest(st):
                    if old is None:
                        return st.unset(lambda k: k == (self.frame, "$exc") or (h.name and k == (self.frame, h.name)))
                    return st.set((self.frame, "$exc"), old)

                for y in b.next.values():
                    pend.add_next(rest(y))
                for d1, d2 in ((b.brk, pend.brk), (b.cont, pend.cont)):
                    for y in d1.values():
                        r = rest(y)
                        d2.setdefault(r.key(), r)
                for k, v in b.ret.items():
                    pend.ret.setdefault(k, v)
                for k, v in b.exc.items():
                    pend.exc.setdefault(k, v)
            if certain:
                return
        pend.exc.setdefault(cur.key(), cur)

    def finish(self, final, pend, fl):
        if not final:
            fl.absorb(pend)
            return

        def run(st):
            r = self.block(final, [st])
            for d1, d2 in ((r.brk, fl.brk), (r.cont, fl.cont)):
                d2.update(d1)
            for k, v in r.ret.items():
                fl.ret.setdefault(k, v)
            for k, v in r.exc.items():
                fl.exc.setdefault(k, v)
            return list(r.next.values())

        for s in pend.next.values():
            for r in run(s):
                fl.add_next(r)
        for s in pend.brk.values():
            for r in run(s):
                fl.brk.setdefault(r.key(), r)
        for s in pend.cont.values():
            for r in run(s):
                fl.cont.setdefault(r.key(), r)
        for s, v, nd in pend.ret.values():
            for r in run(s):
                fl.ret.setdefault((r.key(), v), (r, v, nd))
        for x in pend.exc.values():
            for r in run(x.state):
                y = Exc(x.type, x.value, x.node, r, x.func)
                fl.exc.setdefault(y.key(), y)

    def st_With(self, n, s, fl):
        self._with_items(n, list(n.items), s, fl)

    st_AsyncWith = st_With

    def _with_items(self, n, items, s, fl):
        if not items:
            fl.absorb(self.block(n.body, [s]))
            return
        it, rest = items[0], items[1:]
        for s1, t in self.ev(it.context_expr, s):
            a = self.rule.on_with(s1.auto, "enter", t, n, s1, self)
            if a is None:
                continue
            s1 = s1.with_auto(a)
            if it.optional_vars is not None:
                vt = ("entered", t)
                ss = self.assign(it.optional_vars, t if t[0] == "call" else vt, s1, n)
            else:
                ss = [s1]
            sub = Flow()
            for s2 in ss:
                self.sink.append({})
                self._with_items(n, rest, s2, sub)
                for k, x in self.sink.pop().items():
                    sub.exc.setdefault(k, x)

            def ex(st, how):
                a2 = self.rule.on_with(st.auto, "exit" + how, t, n, st, self)
                return None if a2 is None else st.with_auto(a2)

            for y in sub.next.values():
                z = ex(y, "")
                if z:
                    fl.add_next(z)
            for d1, d2 in ((sub.brk, fl.brk), (sub.cont, fl.cont)):
                for y in d1.values():
                    z = ex(y, "")
                    if z:
                        d2.setdefault(z.key(), z)
            for y, v, nd in sub.ret.values():
                z = ex(y, "")
                if z:
                    fl.ret.setdefault((z.key(), v), (z, v, nd))
            sup = None
            if t[0] == "call" and last(t[1]) == "suppress":
                sup = [y for x in t[2] for y in self.type_list(x)]
            for x in sub.exc.values():
                z = ex(x.state, "!")
                if z is None:
                    continue
                y = Exc(x.type, x.value, x.node, z, x.func)
                if sup is not None:
                    ms = [self.hmatch(x.type, q) for q in sup]
                    if any(m != "no" for m in ms):
                        a3 = self.rule.on_catch(z.auto, sup, x, n, z, self)
                        if a3 is not None:
                            fl.add_next(z.with_auto(a3))
                    if "yes" in ms:
                        continue
                fl.exc.setdefault(y.key(), y)

    def st_Match(self, n, s, fl):
        for s1, subj in self.ev(n.subject, s):
            cur = [s1]
            for c in n.cases:
                nxt = []
                for st in cur:
                    for s2, v in self.match_pat(c.pattern, subj, st, n):
                        if v:
                            gs = [(s2, True)] if c.guard is None else self.cond(c.guard, s2)
                            for s3, gv in gs:
                                if gv:
                                    fl.absorb(self.block(c.body, [s3]))
                                else:
                                    nxt.append(s3)
                        else:
                            nxt.append(s2)
                cur = nxt
            for st in cur:
                fl.add_next(st)

    def match_pat(self, p, subj, s, n):
        if isinstance(p, ast.MatchValue):
            out = []
            for s2, t in self.ev(p.value, s):
                out.extend(self.branch(("cmp", "==", subj, t), s2, n))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(("cmp", "is", subj, const(p.value)), s, n)
        if isinstance(p, ast.MatchOr):
            cur, out = [s], []
            for q in p.patterns:
                nxt = []
                for st in cur:
                    for s2, v in self.match_pat(q, subj, st, n):
                        (out.append((s2, True)) if v else nxt.append(s2))
                cur = nxt
            return out + [(x, False) for x in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [(s.set((self.frame, p.name), subj) if p.name else s, True)]
            out = []
            for s2, v in self.match_pat(p.pattern, subj, s, n):
                out.append((s2.set((self.frame, p.name), subj) if v and p.name else s2, v))
            return out
        if isinstance(p, ast.MatchClass):
            r = self.ev(p.cls, s)
            atom = ("call", ("g", "builtins.isinstance"), (subj, r[0][1]), (), 0)
            return self.branch(atom, s, n)
        return [(s, True), (s, False)]


MUTATORS = {"append", "add", "insert", "appendleft", "extend", "update", "setdefault", "pop", "remove", "discard", "clear", "popleft", "__setitem__"}
CONTAINERS = {"builtins.list", "builtins.dict", "builtins.set", "collections.defaultdict", "collections.deque", "collections.OrderedDict", "collections.Counter"}


def _as_load(t):
    import copy
    u = copy.deepcopy(_strip(t))
    for x in ast.walk(u):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return u


def _strip(t):
    # deepcopy of nodes with .parent links would copy the module; rebuild instead
    return ast.parse(ast.unparse(t), mode="eval").body if True else t


def _subs(t):
    from .terms import subterms
    return subterms(t)


def any_fn_ref(fl, frame):
    for s, v, n in fl.ret.values():
        if isinstance(v, tuple) and any_sub(v, lambda x: x[0] in ("fn", "lambda") and x[2] == frame):
            return True
    return False


BASELINE = set()


def set_baseline(names):
    BASELINE.clear()
    BASELINE.update(names)
    BASELINE.update([n + "#2" for n in names if ".<locals>." in n])
