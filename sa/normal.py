"""Rewriting to a normal form before analysis: statements that mean the same get the same shape.

Every rewrite keeps the meaning of the program, so that a rule judges what the code does rather than
which of two equivalent spellings it uses."""
from __future__ import annotations

import ast
import os


def names(*nodes):
    return {n.id for r in nodes for n in ast.walk(r) if isinstance(n, ast.Name)}


def has(nodes, *types):
    return any(isinstance(n, types) for r in nodes for n in ast.walk(r))


EMPTY_CALLS = {"list": ast.List, "set": ast.Set, "dict": ast.Dict}


def empty_of(v):
    """the kind of an expression that makes an empty container"""
    if isinstance(v, ast.List) and not v.elts:
        return "list"
    if isinstance(v, ast.Dict) and not v.keys:
        return "dict"
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in EMPTY_CALLS and not v.args and not v.keywords:
        return v.func.id
    return None


def assigned(s):
    """(name, value) of `name = value` or `name: T = value`"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        return s.targets[0].id, s.value
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        return s.target.id, s.value
    return None, None


BAD = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)


def peeled(b):
    """the conditions around the last statements of a loop body, `if C: continue` included"""
    conds = []
    while b and isinstance(b[0], ast.If) and not b[0].orelse:
        if len(b) == 1:
            conds.append(b[0].test)
            b = b[0].body
        elif len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue):
            t = b[0].test
            conds.append(t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t))
            b = b[1:]
        else:
            break
    return conds, b


def accumulated(loop, acc, kind):
    """the comprehension that `for ...: if ...: acc.append(E)` computes, or None"""
    if not isinstance(loop, ast.For) or loop.orelse:
        return None
    conds, b = peeled(loop.body)
    if len(b) != 1:
        return None
    s = b[0]
    parts = [loop.target, loop.iter, *conds]
    gen = lambda: [ast.comprehension(loop.target, loop.iter, conds, 0)]  # noqa
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == acc:
        c = s.value
        if len(c.args) != 1 or c.keywords or isinstance(c.args[0], ast.Starred):
            return None
        if acc in names(c.args[0], *parts) or has([c.args[0], *parts], *BAD):
            return None
        if kind == "list" and c.func.attr == "append":
            return ast.ListComp(c.args[0], gen())
        if kind == "set" and c.func.attr == "add":
            return ast.SetComp(c.args[0], gen())
        return None
    if kind == "dict" and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
        t = s.targets[0]
        if isinstance(t.value, ast.Name) and t.value.id == acc and acc not in names(t.slice, s.value, *parts) and not has([t.slice, s.value, *parts], *BAD):
            return ast.DictComp(t.slice, s.value, gen())
    return None


def flagged(loop, flag, start):
    """the any()/all() that `for ...: if C: flag = not start; break` computes, or None"""
    if not isinstance(loop, ast.For) or loop.orelse:
        return None
    conds, b = peeled(loop.body)
    if not conds or len(b) not in (1, 2) or (len(b) == 2 and not isinstance(b[1], ast.Break)):
        return None
    n, v = assigned(b[0])
    if n != flag or not (isinstance(v, ast.Constant) and v.value is (not start)):
        return None
    if flag in names(loop.target, loop.iter, *conds) or has([loop.target, loop.iter, *conds], *BAD):
        return None
    last = conds.pop()
    return quantified(loop, conds, last, not start)


def quantified(loop, conds, last, found):
    if not found:
        last = last.operand if isinstance(last, ast.UnaryOp) and isinstance(last.op, ast.Not) else ast.UnaryOp(ast.Not(), last)
    g = ast.GeneratorExp(last, [ast.comprehension(loop.target, loop.iter, conds, 0)])
    return ast.Call(ast.Name("any" if found else "all", ast.Load()), [g], [])


def returned(loop, after):
    """the any()/all() that `for ...: if C: return X` followed by `return not X` computes, or None"""
    if not isinstance(loop, ast.For) or loop.orelse or not isinstance(after, ast.Return) or not isinstance(after.value, ast.Constant) or not isinstance(after.value.value, bool):
        return None
    conds, b = peeled(loop.body)
    if not conds or len(b) != 1 or not isinstance(b[0], ast.Return) or not isinstance(b[0].value, ast.Constant) or b[0].value.value is not (not after.value.value):
        return None
    if has([loop.target, loop.iter, *conds], *BAD):
        return None
    last = conds.pop()
    return quantified(loop, conds, last, b[0].value.value)


class Normaliser:
    def __init__(self, which=("acc", "flag", "ret")):
        self.which = which

    def function(self, f):
        self.uses = {}
        self.shared = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        self.f = f
        f.body = self.block(f.body)

    def inner(self, s):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(s, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, fld, self.block(b))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body)
        for c in getattr(s, "cases", []):
            c.body = self.block(c.body)

    def leaks(self, loop, rest_ok=True):
        """a loop variable is used outside the loop"""
        tg = names(loop.target)
        inside = {id(n) for n in ast.walk(loop)}
        return any(isinstance(n, ast.Name) and n.id in tg and id(n) not in inside and not self.rebound(n, inside) for n in ast.walk(self.f))

    def rebound(self, n, inside):
        """the use belongs to another loop or comprehension that binds the name itself"""
        for m in ast.walk(self.f):
            if id(m) in inside:
                continue
            if isinstance(m, (ast.For, ast.AsyncFor)) and n.id in names(m.target) and any(x is n for x in ast.walk(m)):
                return True
            if isinstance(m, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(n.id in names(g.target) for g in m.generators) and any(x is n for x in ast.walk(m)):
                return True
        return False

    def block(self, b):
        for s in b:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.inner(s)
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For):
                new = None
                if i + 1 < len(b) and "ret" in self.which:
                    q = returned(s, b[i + 1])
                    if q is not None and not self.leaks(s):
                        new = ast.copy_location(ast.Return(q), s)
                        out.append(ast.fix_missing_locations(new))
                        CHANGES[0] += 1
                        i += 2
                        continue
                # the container or flag is set up by an earlier statement of the same block that the
                # statements in between do not touch
                for j in range(len(out) - 1, -1, -1):
                    n, v = assigned(out[j])
                    if n is None:
                        continue
                    if n in self.shared or any(n in names(x) for x in out[j + 1:]):
                        continue
                    k = empty_of(v)
                    e = accumulated(s, n, k) if k and "acc" in self.which else flagged(s, n, v.value) if isinstance(v, ast.Constant) and isinstance(v.value, bool) and "flag" in self.which else None
                    if e is not None and not self.leaks(s):
                        new = ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], e), s)
                        ast.fix_missing_locations(new)
                        del out[j]
                        CHANGES[0] += 1
                        break
                out.append(new if new is not None else s)
            else:
                out.append(s)
            i += 1
        return out


def conjuncts(c, pos=True):
    """the parts of a condition that all have to hold"""
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return conjuncts(c.operand, not pos)
    if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And if pos else ast.Or):
        return [x for v in c.values for x in conjuncts(v, pos)]
    return [c if pos else ast.copy_location(ast.UnaryOp(ast.Not(), c), c)]


def split_filters(tree):
    """`if a and b` in a comprehension as two filters"""
    for n in ast.walk(tree):
        if isinstance(n, ast.comprehension):
            n.ifs = [x for c in n.ifs for x in conjuncts(c)]


class Dicts(ast.NodeTransformer):
    """dict(a=x, **y) as a display"""
    def __init__(self, module_names):
        self.shadowed = module_names

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords and not self.shadowed:
            new = ast.copy_location(ast.Dict([ast.Constant(k.arg) if k.arg else None for k in n.keywords], [k.value for k in n.keywords]), n)
            return ast.fix_missing_locations(new)
        return n


def normalise(tree, which=("acc", "flag", "ret")):
    tree = Dicts(any(isinstance(n, ast.Name) and n.id == "dict" and isinstance(n.ctx, ast.Store) or isinstance(n, ast.arg) and n.arg == "dict" for n in ast.walk(tree))).visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            Normaliser(which).function(n)
    split_filters(tree)
    return tree


# --- functions whose body was moved to a helper -----------------------------------------------------

def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args]


def bound_names(f):
    """names local to f's own scope"""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    shared, st = set(), list(f.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            st += n.decorator_list
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out |= {m.target.id for m in ast.walk(n) if isinstance(m, ast.NamedExpr)}
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            shared |= set(n.names)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        st += list(ast.iter_child_nodes(n))
    return out - shared


def is_generator(f):
    st = list(f.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            st += list(ast.iter_child_nodes(n))
    return False


def bindings(h, call, skip):
    """[(parameter, argument expression)] of a call of h, or None where it cannot be read off"""
    a = h.args
    if any(isinstance(x, ast.Starred) for x in call.args[:-1]) or len({k.arg for k in call.keywords}) != len(call.keywords):
        return None
    pos = params(h)[skip:]
    out, args = [], list(call.args)
    if args and isinstance(args[-1], ast.Starred):
        s = args.pop()
        if a.vararg is None or len(args) != len(pos):
            return None
        out.append((a.vararg.arg, s.value))
    elif a.vararg is not None or len(args) > len(pos):
        return None
    out = list(zip(pos, args)) + out
    kws = {k.arg: k.value for k in call.keywords}
    if (None in kws) != (a.kwarg is not None):
        return None
    if None in kws:
        out.append((a.kwarg.arg, kws.pop(None)))
    dflt = dict(zip(pos[::-1], a.defaults[::-1]))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n in pos[len(args):] + [x.arg for x in a.kwonlyargs]:
        if n in kws:
            out.append((n, kws.pop(n)))
        elif n in dflt and isinstance(dflt[n], ast.Constant):
            out.append((n, dflt[n]))
        else:
            return None
    return None if kws else out


PINNED = None


def pinned_names():
    global PINNED
    if PINNED is None:
        p = os.path.join(os.path.dirname(__file__), "baseline_functions.txt")
        PINNED = {x.strip() for x in open(p)} if os.path.exists(p) else None
    return PINNED


def inline_moved(tree, module, old, elsewhere=lambda name: False):
    """put back the body of a function that the pinned tree does not have and that is called at one
    place only, as the whole value of a `return`"""
    if old is None:
        return tree
    while True:
        where = []  # (container body, helper, class or None, enclosing functions)

        def collect(body, cls, prefix):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    collect(s.body, s, prefix + s.name + ".")
                elif isinstance(s, ast.FunctionDef) and prefix + s.name not in old:
                    where.append((body, s, cls))

        collect(tree.body, None, module + ".")
        if not where:
            return tree
        uses = {}
        for n in ast.walk(tree):
            k = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
            if k is not None:
                uses.setdefault(k, []).append(n)
        done = False
        for body, h, cls in where:
            if len(uses.get(h.name, ())) != 1 or elsewhere(h.name) or any(isinstance(x, ast.Name) and x.id in ("locals", "super", "__class__") for x in ast.walk(h)) or is_generator(h):
                continue
            decs = [d.id if isinstance(d, ast.Name) else "?" for d in h.decorator_list]
            if decs not in ([], ["classmethod"], ["staticmethod"]) or (decs and cls is None):
                continue
            f = ret = call = blk = None
            for fn in ast.walk(tree):
                if isinstance(fn, ast.FunctionDef) and fn is not h:
                    for b, r in returns_of(fn.body):
                        if isinstance(r.value, ast.Call) and r.value.func is uses[h.name][0]:
                            f, ret, call, blk = fn, r, r.value, b
            if f is None:
                continue
            skip, bind = 0, []
            if cls is not None:
                fun = call.func
                fp = params(f)
                if f not in cls.body or not isinstance(fun, ast.Attribute) or not isinstance(fun.value, ast.Name) or not fp or fun.value.id not in (fp[0], cls.name):
                    continue
                fdecs = [d.id if isinstance(d, ast.Name) else "?" for d in f.decorator_list]
                if decs == ["classmethod"]:
                    if "classmethod" not in fdecs or fun.value.id != fp[0]:
                        continue
                    skip = 1
                elif not decs:
                    if fun.value.id != fp[0] or "staticmethod" in fdecs or "classmethod" in fdecs:
                        continue
                    skip = 1
                if skip:
                    bind = [(params(h)[0], ast.Name(fp[0], ast.Load()))]
            elif not isinstance(call.func, ast.Name):
                continue
            b = bindings(h, call, skip)
            if b is None:
                continue
            bind += b
            mine, theirs = bound_names(h), bound_names(f)
            free = {n.id for n in ast.walk(h) if isinstance(n, ast.Name)} - mine
            around = set()  # every function f is nested in
            for fn in ast.walk(tree):
                if isinstance(fn, ast.FunctionDef) and fn is not f and any(x is f for x in ast.walk(fn)):
                    around |= bound_names(fn)
            if free & (theirs | around):
                continue
            pre = [(n, v) for n, v in bind if not (isinstance(v, ast.Name) and v.id == n)]
            if any(isinstance(v, ast.Name) and v.id in {n for n, _ in pre} for _, v in bind) and pre:
                tgt = ast.Tuple([ast.Name(n, ast.Store()) for n, _ in pre], ast.Store())
                stmts = [ast.Assign([tgt], ast.Tuple([v for _, v in pre], ast.Load()))]
            else:
                stmts = [ast.Assign([ast.Name(n, ast.Store())], v) for n, v in pre]
            for s in stmts:
                ast.copy_location(s, ret)
                ast.fix_missing_locations(s)
            moved = h.body
            if moved and isinstance(moved[0], ast.Expr) and isinstance(moved[0].value, ast.Constant) and isinstance(moved[0].value.value, str):
                moved = moved[1:] or [ast.copy_location(ast.Pass(), ret)]
            i = blk.index(ret)
            end = []
            if not isinstance(moved[-1], (ast.Return, ast.Raise)) and not (blk is f.body and i == len(blk) - 1):
                end = [ast.copy_location(ast.Return(None), ret)]
            blk[i:i + 1] = stmts + moved + end
            body.remove(h)
            done = True
            CHANGES[0] += 1
            break
        if not done:
            return tree


def returns_of(body):
    """(block, return statement) of a function's own returns"""
    for s in list(body):
        if isinstance(s, ast.Return):
            yield body, s
        elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    yield from returns_of(b)
            for h in list(getattr(s, "handlers", [])) + list(getattr(s, "cases", [])):
                yield from returns_of(h.body)


CHANGES = [0]


def renumber(tree):
    """positions in the order of the statements again (liveness depends on them); the line that a
    construct has in the source stays available as src_line"""
    new = ast.parse(ast.unparse(tree))

    def pair(a, b):
        if type(a) is not type(b):
            return
        if getattr(a, "lineno", None) is not None:
            b.src_line = a.lineno
        for fld in a._fields:
            x, y = getattr(a, fld, None), getattr(b, fld, None)
            if isinstance(x, ast.AST) and isinstance(y, ast.AST):
                pair(x, y)
            elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                for u, v in zip(x, y):
                    if isinstance(u, ast.AST) and isinstance(v, ast.AST):
                        pair(u, v)

    pair(tree, new)
    return new


def parsed(src, path, module, which, elsewhere):
    tree = ast.parse(src, path)
    before = CHANGES[0]
    tree = inline_moved(normalise(tree, which), module, pinned_names(), elsewhere)
    return tree if CHANGES[0] == before else renumber(tree)


def line(node):
    return getattr(node, "src_line", None) or getattr(node, "lineno", "?")
