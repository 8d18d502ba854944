"""Symbolic value names ("terms") used by the abstract interpreter: hashable
tuples.  ('p',name) ('g',fq) ('c',type,value) ('a',base,attr)
('call',f,args,kw,site) ('sub',b,i) ('bin',op,l,r) ('cmp',op,l,r) ('not',x)
('tuple'|'list'|'set'|'dict',...) ('fstr',..) ('fn',id,frame) ('phi',var,site)
('elem',it) ('comp',kind,elt,its,conds) ('star',x) ('kw**',x) ('exc',type,site) ('opq',site)."""
from __future__ import annotations

NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)


def const(v):
    if isinstance(v, (int, str, bytes, bool, float, type(None), type(Ellipsis))):
        return ("c", type(v).__name__, v)
    return ("c", type(v).__name__, repr(v))


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 12:
        return "…"
    o = t[0]
    s = lambda x: show(x, d + 1)  # noqa
    if o == "p":
        return t[1]
    if o == "g":
        fq = t[1]
        return fq[len("builtins."):] if fq.startswith("builtins.") else fq
    if o == "c":
        return repr(t[2])
    if o == "a":
        return f"{s(t[1])}.{t[2]}"
    if o == "call":
        a = [s(x) for x in t[2]] + [f"{k}={s(v)}" for k, v in t[3]]
        return f"{s(t[1])}({', '.join(a)})"
    if o == "sub":
        return f"{s(t[1])}[{s(t[2])}]"
    if o == "bin":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if o == "cmp":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if o == "not":
        return f"(not {s(t[1])})"
    if o in ("tuple", "list", "set"):
        return f"{o}({', '.join(s(x) for x in t[1])})"
    if o == "dict":
        return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in t[1]) + "}"
    if o == "phi":
        return f"{t[1]}@loop"
    if o == "elem":
        return f"each({s(t[1])})"
    if o == "comp":
        return f"{t[1]}comp({s(t[2])} for {', '.join(s(x) for x in t[3])} if {', '.join(s(x) for x in t[4])})"
    if o == "fn":
        return f"<fn {t[1]}>"
    if o == "un":
        return f"({t[1]}{s(t[2])})"
    if o == "exc":
        return f"exc<{t[1]}>"
    if o == "fstr":
        return "f'" + "".join(s(x) for x in t[1]) + "'"
    if o == "star":
        return "*" + s(t[1])
    if o == "kw**":
        return "**" + s(t[1])
    if o == "slice":
        return ":".join("" if x is None else s(x) for x in t[1:])
    return f"<{o}>"


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, sub):
    if t == sub:
        return True
    return isinstance(t, tuple) and any(isinstance(x, tuple) and contains(x, sub) for x in t)


def any_sub(t, pred):
    return any(pred(x) for x in subterms(t))


def last(t):
    """last identifier of a callee / attribute / global term"""
    if not isinstance(t, tuple):
        return None
    if t[0] == "g":
        return t[1].rsplit(".", 1)[-1]
    if t[0] == "a":
        return t[2]
    if t[0] == "p":
        return t[1]
    if t[0] == "fn":
        return t[1].rsplit(".", 1)[-1]
    return None


def callee(t):
    return last(t[1]) if t[0] == "call" else None


def is_call(t, *names):
    return isinstance(t, tuple) and t[:1] == ("call",) and last(t[1]) in names


def arg(t, i, name=None, default=None):
    """positional i or keyword name of call term"""
    if name is not None:
        for k, v in t[3]:
            if k == name:
                return v
    if i is not None and i < len(t[2]):
        return t[2][i]
    return default


def nosite(t):
    """erase call sites so that two evaluations of one expression compare equal"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        return ("call", nosite(t[1]), tuple(nosite(x) for x in t[2]),
                tuple((k, nosite(v)) for k, v in t[3]), 0)
    if t and t[0] in ("phi",):
        return t
    return tuple(nosite(x) for x in t)


def size(t, cap=200):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n > cap:
            return n
        if isinstance(x, tuple):
            st.extend(x)
    return n
