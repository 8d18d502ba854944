"""Example-database rules: forwarding, read-only-ness, atomic publication, error
containment, move semantics, notifications and the choice serialization tables."""
from __future__ import annotations

from ..lib import *

DB = "hypothesis.database.ExampleDatabase"
WRITES = ("save", "delete", "move")
P = lambda n: ("p", n)  # noqa
SELF = P("self")


def strip_copy(t):
    """tuple(x) / list(x) iterate everything x does"""
    while t[0] == "call" and t[1] in (("g", "builtins.tuple"), ("g", "builtins.list"), ("g", "builtins.iter"), ("g", "builtins.reversed")) and len(t[2]) == 1:
        t = t[2][0]
    return t


def wrapped_fields(rep, c):
    """attributes of self that __init__ fills from its parameters and that hold databases"""
    init = rep.method(c, "__init__")
    params = [x for x in init.params() if x != "self"]
    got = {}

    def ev(kind, t, x):
        if kind == "setattr" and t[1] == SELF and x["value"][0] == "p" and x["value"][1] in params:
            got[t[2]] = x["value"][1]
        return None

    rep.trace(init, ev, inline=same_module)
    return got


def inline_db(f, call, root):
    """follow base-class implementations and private helpers of this class"""
    return f.module is root.module and f.cls is not None and f.name in ("move", "_join") and f is not root


def loops_fully(rep, f, it_field):
    """AST loops over self.<field> containing no early exit"""
    for n in all_nodes(f, ast.For):
        if ast.unparse(n.iter).endswith(it_field):
            for b in ast.walk(n):
                if isinstance(b, (ast.Break, ast.Return)):
                    return False, b
    return True, None


def _params_of(m):
    return [P(x) for x in m.params() if x != "self"]


def check_forwarding(rep):
    """D01: who-may-call and must-forward rules over every wrapper database: abstract paths of
    each method are enumerated with helpers inlined, and each path must issue exactly the
    forwarded call the interface promises."""
    c = rep.cls("hypothesis.database.ReadOnlyDatabase")
    fields_ = wrapped_fields(rep, c)
    rep.check(len(fields_) == 1, "readonly-field", c.name, c.loc, "read-only wrapper stores the wrapped database once")

    def from_wrapped(t):
        return any_sub(t, lambda x: x[0] == "a" and x[1] == SELF and x[2] in fields_)

    # every method reachable on the class, not only the ones it defines
    names = sorted({n for k in rep.p.mro(c) for n in k.methods} - {"__init__", "__repr__"})
    for n in names:
        m = rep.method(c, n)
        bad = []

        def ev(kind, t, x):
            if kind == "call":
                f = t[1]
                tgt = f[1] if f[0] == "a" else None
                if tgt is not None and from_wrapped(tgt) and f[2] not in ("fetch",):
                    bad.append((t, x["node"]))
                elif any(from_wrapped(a) for a in t[2]) and last(f) not in ("repr", "isinstance"):
                    bad.append((t, x["node"]))
            return None

        rep.trace(m, ev, inline=lambda f, call, root: call[1][0] == "a" and (call[1][1] == SELF or is_call(call[1][1], "super")), self_cls=c)
        rep.check(not bad, "readonly-no-write", f"{c.name}.{n}", m.loc,
                  f"read-only wrapper passes its wrapped database to {[show(b[0]) for b in bad][:3]}" if bad else "")
    rep.minimum("readonly-no-write", 6)
    for n in WRITES:
        m = rep.method(c, n)
        out = rep.trace(m, None, self_cls=c, inline=inline_db)
        rep.check(all(o.kind == "return" for o in out), "readonly-silent", f"{c.name}.{n}", m.loc,
                  "a write on the read-only wrapper must be silently ignored, not raise")
    fetch_passthrough(rep, c, next(iter(fields_), "_wrapped"))

    # artifact database: every write raises
    c = rep.cls("hypothesis.database.GitHubArtifactDatabase")
    for n in WRITES:
        m = rep.method(c, n)
        out = rep.trace(m, None, self_cls=c, inline=inline_db)
        rep.check(bool(out) and all(o.kind == "raise" for o in out), "artifact-write-raises", f"{c.name}.{n}", m.loc,
                  "write to the artifact database can return normally")

    # multiplexed
    c = rep.cls("hypothesis.database.MultiplexedDatabase")
    fld = next(iter(wrapped_fields(rep, c)), "_wrapped")
    coll = ("a", SELF, fld)
    for n, op in [(x, x) for x in WRITES] + [("_start_listening", "add_listener"), ("_stop_listening", "remove_listener")]:
        m = rep.method(c, n)
        want = tuple(_params_of(m)) if n in WRITES else (("a", SELF, "_broadcast_change"),)
        rep.check(m.cls is c, "multiplex-own", f"{c.name}.{n}", m.loc,
                  f"{n} is not overridden: the default does not reach each wrapped database's own {n}")
        must_forward_all(rep, c, m, coll, op, want)
    m = rep.method(c, "fetch")
    fetch_multiplexed(rep, c, m, coll)

    # background writer
    background(rep)


def must_forward_all(rep, c, m, coll, op, want):
    def ev(kind, t, x):
        if kind == "loop" and strip_copy(t) == coll:
            return "L"
        if kind == "loop" and any_sub(t, lambda y: y == coll):
            return "PARTIAL"
        if kind == "call" and t[1][0] == "a" and t[1][2] == op and t[1][1] == ("elem", coll):
            a = t[2] + tuple(v for _, v in t[3])
            return "C" if a == want else "WRONGARGS"
        if kind == "call" and t[1][0] == "a" and t[1][1] == ("elem", coll):
            return "OTHER"
        if kind == "catch":
            return "SWALLOW"
        return None

    out = rep.trace(m, ev, inline=lambda f, call, root: f.module is root.module and f.name == "move" and f.cls is not c, self_cls=c)
    normal = [o for o in out if o.kind == "return"]
    comp = [n for n in all_nodes(m, ast.ListComp, ast.GeneratorExp)]
    ok = bool(normal) and any("C" in o.state.auto for o in normal)
    msg = "no path forwards to the wrapped databases"
    for o in normal:
        a = o.state.auto
        if any(x in a for x in ("PARTIAL", "WRONGARGS", "OTHER", "SWALLOW")):
            ok, msg = False, f"path does {a} instead of calling {op} with its own arguments on every wrapped database"
        for i, x in enumerate(a):
            if x == "L" and (i + 1 >= len(a) or a[i + 1] != "C"):
                ok, msg = False, f"a wrapped database is skipped on some path: {a}"
    full, node = loops_fully(rep, m, coll[2])
    if not full:
        ok, msg = False, "the loop over wrapped databases exits early"
    rep.check(ok, "multiplex-forwards", f"{c.name}.{m.name}", m.loc, msg)


def fetch_passthrough(rep, c, fld):
    m = rep.method(c, "fetch")
    want = ("call", ("a", ("a", SELF, fld), "fetch"), (P("key"),), (), 0)

    def ev(kind, t, x):
        if kind == "call" and nosite(t) == want:
            return "F"
        if kind == "yield":
            s = t[1] if t[0] == "star" else t
            return "Y" if any_sub(nosite(s), lambda y: y == want) else "Y?"
        if kind == "branch":
            return "B"
        return None

    out = rep.trace(m, ev, self_cls=c)
    ok = bool(out)
    for o in out:
        if o.kind != "return":
            continue
        a = o.state.auto
        direct = any_sub(nosite(o.value), lambda y: y == want)
        if "F" not in a or "Y?" in a or "B" in a or not (direct or "Y" in a or "F" in a):
            ok = False
        if m.is_generator and not any(x == "Y" for oo in out for x in oo.state.auto):
            ok = False
    rep.check(ok, "fetch-passthrough", f"{c.name}.fetch", m.loc, "fetch does not return exactly what the wrapped database returns for the key")


def fetch_multiplexed(rep, c, m, coll):
    inner = ("call", ("a", ("elem", coll), "fetch"), (P("key"),), (), 0)
    val = ("elem", inner)

    def ev(kind, t, x):
        t = nosite(t)
        if kind == "loop":
            if strip_copy(t) == coll:
                return "L"
            if strip_copy(t) == inner:
                return "V"
            if any_sub(t, lambda y: y == coll):
                return "PARTIAL"
        if kind == "yield":
            return "Y" if t == val else "Y?"
        if kind == "branch":
            if t[0] == "cmp" and t[1] == "in" and t[2] == val:
                return "dup" if x["val"] else "new"
            return "B"
        if kind == "call" and last(t[1]) in ("add", "append") and t[2] == (val,):
            return "add"
        if kind == "setitem" and t[2] == val:
            return "add"
        return None

    segs, out = rep.segments(m, ev, ("L", "V"), self_cls=c, inline=lambda *a: False)
    ok, msg = bool(out), "no paths"
    vs = [(body, how) for head, body, how in segs if head == "V"]
    if not any("Y" in body for body, how in vs):
        ok, msg = False, "values of the wrapped databases are never yielded"
    for head, body, how in segs:
        if "Y?" in body or "PARTIAL" in body or "B" in body or (head != "V" and "Y" in body):
            ok, msg = False, f"fetch yields or skips something else on path {body}"
    for sgm, how in vs:
        if how == "raise":
            continue
        if "dup" in sgm and "Y" in sgm:
            ok, msg = False, "a value already returned is yielded again"
        if "new" in sgm and ("Y" not in sgm or "add" not in sgm):
            ok, msg = False, f"a new value is dropped or not remembered: {sgm}"
        if "new" not in sgm and "dup" not in sgm:
            ok, msg = False, f"a value is yielded without the duplicate test: {sgm}"
    full, node = loops_fully(rep, m, coll[2])
    if not full:
        ok, msg = False, "fetch stops before the last wrapped database"
    rep.check(ok, "multiplex-fetch", f"{c.name}.fetch", m.loc, msg)


def background(rep):
    c = rep.cls("hypothesis.database.BackgroundWriteDatabase")
    flds = wrapped_fields(rep, c)
    dbf = next(iter(flds), "_db")
    init = rep.method(c, "__init__")
    q = {}
    threads = []

    def ev(kind, t, x):
        if kind == "setattr" and t[1] == SELF and x["value"][0] == "call":
            cal = x["value"][1]
            if cal[0] == "g" and cal[1].startswith("queue."):
                q[t[2]] = x["value"]
        if kind == "call" and last(t[1]) == "Thread":
            threads.append(t)
        if kind == "call" and last(t[1]) == "start":
            return "start"
        return None

    out = rep.trace(init, ev, inline=same_module)
    rep.check(len(q) == 1 and all(v[1] == ("g", "queue.Queue") for v in q.values()), "bg-fifo", f"{c.name}.__init__", init.loc,
              f"the write queue must be one FIFO queue, found {[show(v) for v in q.values()]}")
    qf = next(iter(q), "_queue")
    rep.check(len(set(threads)) == 1 and all("start" in o.state.auto for o in out), "bg-one-worker", f"{c.name}.__init__", init.loc,
              "exactly one worker thread must be started, or writes are reordered or never applied")
    # target of the worker thread
    worker = None
    for t in threads:
        tg = arg(t, 1, "target")
        if tg is not None and tg[0] == "a" and tg[1] == SELF:
            worker = rep.method(c, tg[2])
    rep.check(worker is not None, "bg-worker", f"{c.name}.__init__", init.loc, "worker thread target not found")
    qterm = ("a", SELF, qf)
    for n in WRITES:
        m = rep.method(c, n)

        def ev2(kind, t, x, m=m, n=n):
            if kind == "call" and t[1] == ("a", qterm, "put"):
                want = ("tuple", (("c", "str", n), ("tuple", tuple(_params_of(m)))))
                return "put" if t[2][:1] == (want,) else "put?"
            if kind == "call" and t[1] == ("a", qterm, "put_nowait"):
                want = ("tuple", (("c", "str", n), ("tuple", tuple(_params_of(m)))))
                return "put" if t[2][:1] == (want,) else "put?"
            if kind == "branch":
                return "B"
            return None

        out = rep.trace(m, ev2, self_cls=c, inline=inline_db)
        rep.check(m.cls is c and bool(out) and all(o.state.auto == ("put",) for o in out if o.kind == "return"), "bg-enqueues", f"{c.name}.{n}", m.loc,
                  f"{n} must enqueue exactly one ({n!r}, its arguments) task on every path, does {sorted({o.state.auto for o in out})}")
    if worker is not None:
        def ev3(kind, t, x):
            if kind == "call":
                if t[1] == ("a", qterm, "get"):
                    return "get"
                if t[1] == ("a", qterm, "task_done"):
                    return "done"
                if any_sub(t[1], lambda y: y == ("a", SELF, dbf)) and t[1][0] in ("call", "a"):
                    return "apply"
            return None

        apply_ = lambda call: ("builtins.Exception",) if any_sub(call[1], lambda y: y == ("a", SELF, dbf)) and not is_call(call, "getattr") else ()  # noqa
        out = rep.trace(worker, ev3, exc=True, raises=apply_, self_cls=c, inline=same_class)
        seqs = {o.state.auto for o in out}
        # state at loop heads too: look at every trace prefix through task_done
        ok, msg = True, ""
        esc = [o for o in out if o.kind == "raise"]
        if esc:
            ok = False
            msg = "an exception from the wrapped database kills the worker thread: queued writes are never applied and fetch() waits forever"
        rep.check(ok, "bg-worker-survives", f"{c.name}.{worker.name}", worker.loc, msg)
        rep.check(any(isinstance(n, (ast.While, ast.For)) for n in ast.walk(worker.node)), "bg-worker-loop", f"{c.name}.{worker.name}", worker.loc, "worker does not loop")
        segs, _ = rep.segments(worker, ev3, ("get",), exc=True, raises=apply_, self_cls=c, inline=same_class)
        tr = {(body, how) for head, body, how in segs if head == "get" and how == "next"}
        # a task whose method raised shows only the completion (the raise is the attempt)
        good = ("apply", "done") in {b_ for b_, _ in tr} and {b_ for b_, _ in tr} <= {("apply", "done"), ("done",)}
        if good and any(b_ == ("done",) for b_, _ in tr):
            nr, _ = rep.segments(worker, ev3, ("get",), self_cls=c, inline=same_class)
            good = {b_ for h_, b_, how in nr if h_ == "get" and how == "next"} == {("apply", "done")}
        rep.check(good, "bg-worker-order", f"{c.name}.{worker.name}", worker.loc,
                  f"each task must be taken, applied, then marked done; found {sorted(map(str, tr))}")
    m = rep.method(c, "fetch")

    def ev4(kind, t, x):
        if kind == "call" and t[1] == ("a", ("a", SELF, dbf), "fetch"):
            return "fetch" if t[2] == (P("key"),) else "fetch?"
        if kind == "call" and t[1] == ("a", qterm, "join"):
            return "drained"
        if kind == "branch" and any_sub(t, lambda y: y == ("a", qterm, "unfinished_tasks")):
            return "pending" if x["val"] else "drained"
        return None

    out = rep.trace(m, ev4, self_cls=c, inline=lambda f, call, root: f.cls is c)
    ok = bool(out)
    for o in out:
        a = o.state.auto
        if "fetch" not in a or "drained" not in a or a.index("drained") > a.index("fetch") or a[a.index("fetch") - 1] != "drained":
            ok = False
    rep.check(ok, "bg-read-your-writes", f"{c.name}.fetch", m.loc,
              f"fetch must wait for the pending writes before reading the wrapped database: {sorted({o.state.auto for o in out})}")


# ----------------------------------------------------------------------- D02
FS = {"mkdir", "rename", "renames", "replace", "unlink", "remove", "read_bytes", "listdir", "iterdir", "mkstemp", "write",
      "close", "write_bytes", "open", "touch", "scandir", "glob", "rmdir", "link", "fsync", "NamedTemporaryFile", "move", "copy", "copyfile", "fdopen", "makedirs"}


def fs_call(call):
    f = call[1]
    n = last(f)
    if n not in FS:
        return False
    if f[0] == "g":
        return f[1].split(".")[0] in ("os", "tempfile", "shutil", "io") or f[1] == "builtins.open"
    if f[0] == "a":
        if f[1] == SELF or (f[1][0] == "a" and f[1][1] == SELF and f[1][2] in ("_db",)):
            return False
        return True
    return False


def check_directory(rep):
    """D02: exceptional-edge analysis of the directory database (every file-system call may raise
    OSError) plus an ordering rule: content reaches its final name only through a rename of a
    separate file that has been written with the whole value and closed."""
    c = rep.cls("hypothesis.database.DirectoryBasedExampleDatabase")
    raises = lambda call: ("builtins.OSError",) if fs_call(call) else ()  # noqa
    for n in ("save", "delete", "move", "fetch"):
        m = rep.method(c, n)
        out = rep.trace(m, None, exc=True, raises=raises, self_cls=c,
                        inline=lambda f, call, root: f.cls is c and f.name not in ("save", "delete", "move", "fetch", "_key_path", "_value_path"))
        esc = [o for o in out if o.kind == "raise" and o.type == "builtins.OSError"]
        rep.check(not esc, "io-error-contained", f"{c.name}.{n}", loc(esc[0]) if esc else m.loc,
                  "an OSError from the file system escapes to the running test" if esc else "")
    rep.minimum("io-error-contained", 4)

    m = rep.method(c, "save")
    stop = ("save", "delete", "move", "fetch", "_key_path", "_value_path")
    # the final path, however it is computed
    vp = lambda t: any_sub(t, lambda y: is_call(y, "_value_path"))  # noqa
    kp = lambda t: any_sub(t, lambda y: is_call(y, "_key_path")) and not vp(t)  # noqa

    def is_tmp(t):
        return any_sub(t, lambda y: is_call(y, "mkstemp", "NamedTemporaryFile", "mkdtemp", "TemporaryDirectory", "mktemp"))

    def ev(kind, t, x):
        if kind == "call":
            n = last(t[1])
            recv = t[1][1] if t[1][0] == "a" else None
            allargs = t[2] + tuple(v for _, v in t[3])
            # dest of a publishing call
            if n in ("rename", "replace", "renames", "link", "move"):
                if recv is not None and n in ("rename", "replace") and t[2]:
                    src, dst = recv, t[2][0]
                elif t[1][0] == "g" and len(t[2]) >= 2:
                    src, dst = t[2][0], t[2][1]
                else:
                    return None
                if vp(dst):
                    if n == "move":
                        return "write-final"  # copies in place when the file systems differ
                    return "publish" if is_tmp(src) and not vp(src) else "publish-nontmp"
                return None
            if n == "write" and t[1] == ("g", "os.write") and is_tmp(allargs[0]):
                return "write-short"
            if n in ("write", "write_bytes", "write_text", "writelines", "sendfile", "copyfile", "copy"):
                tgt = allargs[0] if t[1][0] == "g" and allargs else recv
                data = allargs[-1] if allargs else None
                if tgt is not None and (vp(tgt) or kp(tgt)) and not is_tmp(tgt):
                    return "write-final"
                if tgt is not None and is_tmp(tgt):
                    return "write" if data == P("value") else "write-partial"
            if n == "close" or n == "fdopen":
                if n == "close" and (any(is_tmp(a) for a in allargs) or (recv is not None and is_tmp(recv))):
                    return "close"
            if n in ("open", "touch"):
                tgt = recv if recv is not None and t[1][0] == "a" else (allargs[0] if allargs else None)
                if tgt is not None and vp(tgt):
                    return "write-final"
            if n in ("mkstemp", "NamedTemporaryFile"):
                d = arg(t, 2, "dir")
                if d is not None and (kp(d) or vp(d) or self_attr(d, "path")):
                    return "tmp-visible"
                return "tmp:db" if d is not None and any_sub(d, lambda y: self_attr(y, "path")) else "tmp:system"
            if n in ("unlink", "remove"):
                tgt = recv if recv is not None and t[1][0] == "a" and t[1][1][0] != "g" else (allargs[0] if allargs else None)
                if tgt is not None and is_tmp(tgt) and not vp(tgt):
                    return "discard"
        if kind == "with-exit" and is_tmp(t):
            return "close"
        return None

    out = rep.trace(m, ev, exc=True, raises=raises, self_cls=c, inline=lambda f, call, root: f.cls is c and f.name not in stop)
    seqs = {o.state.auto for o in out}
    rep.check(any("publish" in s for s in seqs), "publish-exists", f"{c.name}.save", m.loc, "no path publishes the value at its final path by renaming a temporary file")
    for bad, why in (("write-final", "writes the value in place at its final, visible path: a crash or a concurrent reader sees a truncated entry"),
                     ("write-short", "a short write (os.write returns how much it wrote) publishes a truncated value"),
                     ("publish-nontmp", "publishes something other than the fully written temporary file"),
                     ("tmp-visible", "creates the temporary file inside a directory that fetch() lists: a half-written entry is visible")):
        rep.check(not any(bad in s for s in seqs), "atomic-publish", f"{c.name}.save:{bad}", m.loc, why)
    ok, msg = True, ""
    for s in seqs:
        if "publish" in s:
            i = s.index("publish")
            pre = s[:i]
            if "write" not in pre or "write-partial" in s:
                ok, msg = False, f"published before the whole value was written: {s}"
            elif "close" not in pre or pre.index("close") < pre.index("write"):
                ok, msg = False, f"published before the temporary file was closed (buffered data may be missing): {s}"
            if any(x.startswith("write") for x in s[i:]):
                ok, msg = False, f"written after publication: {s}"
    rep.check(ok, "atomic-order", f"{c.name}.save", m.loc, msg)
    # every temporary file is published or discarded (a failing unlink apart), whatever fails
    quiet = lambda call: ("builtins.OSError",) if fs_call(call) and last(call[1]) not in ("unlink", "remove") else ()  # noqa
    left = set()
    for o in rep.trace(m, ev, exc=True, raises=quiet, self_cls=c, inline=lambda f, call, root: f.cls is c and f.name not in stop):
        live = 0
        for x in o.state.auto:
            live = live + 1 if x.startswith("tmp:") else live - 1 if x in ("publish", "discard") else live
        if live > 0:
            left.add((loc(o), o.state.auto))
    rep.check(not left, "no-temporary-left", f"{c.name}.save", m.loc, f"a temporary file is left behind when a system call fails: {sorted(left)[:1]}")
    rep.check(any("tmp:db" in s for s in seqs), "cross-device", f"{c.name}.save", m.loc, "examples cannot be saved when the temporary directory is on another file system than the database")
    # on success paths without exceptions the value must be published unless it exists already
    out2 = rep.trace(m, ev, self_cls=c, inline=lambda f, call, root: f.cls is c and f.name not in stop,
                     relevant=lambda a: a[0] == "call" and last(a[1]) in ("exists", "is_file"))
    ok = True
    for o in out2:
        if o.kind == "return" and "publish" not in o.state.auto:
            if not any(v and vp(a) for a, v in guards(o).items()):
                ok = False
    rep.check(ok, "save-effective", f"{c.name}.save", m.loc, "an error-free path returns without the value being stored at its final path")
    # fetch must read under the same path scheme
    m = rep.method(c, "fetch")
    ys = []

    def ev5(kind, t, x):
        if kind == "yield":
            ys.append(t)
            return "Y"
        if kind == "loop" and kp(t):
            return "L"
        return None

    rep.trace(m, ev5, self_cls=c, inline=lambda f, call, root: f.cls is c and f.name not in stop)
    rep.check(bool(ys) and all(any_sub(t, lambda y: is_call(y, "_key_path") and y[2] == (P("key"),)) for t in ys),
              "fetch-path", f"{c.name}.fetch", m.loc, "fetch does not read the files below the key's own directory")
    for nm in ("delete",):
        m = rep.method(c, nm)
        calls = []

        def ev6(kind, t, x):
            if kind == "call" and last(t[1]) in ("unlink", "remove"):
                calls.append(t)
                return "rm"

        out = rep.trace(m, ev6, self_cls=c, inline=lambda f, call, root: f.cls is c and f.name not in stop)
        rep.check(bool(calls) and all(any_sub(t, lambda y: is_call(y, "_value_path") and y[2] == (P("key"), P("value"))) for t in calls) and all("rm" in o.state.auto for o in out),
                  "delete-path", f"{c.name}.delete", m.loc, "delete does not remove exactly the (key, value) entry")
    # key/value -> path is injective up to the hash: both use the same hash of their full argument
    for nm, pn in (("_key_path", "key"), ("_value_path", "value")):
        m = rep.method(c, nm)
        hs = []

        def ev7(kind, t, x):
            if kind == "call" and last(t[1]) == "_hash":
                hs.append(t)

        rep.trace(m, ev7, self_cls=c, inline=lambda *a: False)
        rep.check(bool(hs) and all(t[2] == (P(pn),) for t in hs), "path-hash", f"{c.name}.{nm}", m.loc, "path is not the hash of the whole argument")


# ----------------------------------------------------------------------- D03 move
def check_move(rep):
    """D03: for every database class, each abstract path of move() (base implementation resolved
    through the MRO) either ends with the value saved under dest and gone from src, or — when src
    equals dest — with the value saved and never deleted afterwards."""
    base = rep.cls(DB)
    n = 0
    for c in rep.p.subclasses(base):
        m = rep.p.method(c, "move")
        if m is None or c.name in ("ReadOnlyDatabase", "GitHubArtifactDatabase", "MultiplexedDatabase", "BackgroundWriteDatabase"):
            continue
        if m.cls is not c and c is not base:
            continue
        n += 1
        src, dest, val = P("src"), P("dest"), P("value")
        same = ("cmp", "==", src, dest)

        def ev(kind, t, x):
            if kind == "branch" and t in (same, ("cmp", "==", dest, src)):
                return "same" if x["val"] else "differ"
            if kind != "call":
                return None
            nm = last(t[1])
            a = t[2] + tuple(v for _, v in t[3])
            if t[1][0] == "a" and t[1][1] == SELF and nm in ("save", "delete") and len(a) == 2 and a[1] == val:
                k = "src" if a[0] == src else "dest" if a[0] == dest else "?"
                return f"{nm}:{k}"
            has = lambda t2, y: any_sub(t2, lambda z: z == y)  # noqa
            if nm in ("renames", "rename", "replace") and len(a) >= 1:
                full = ((t[1][1],) if t[1][0] == "a" else ()) + a
                full = [z for z in full if z != ("g", "os")]
                if len(full) == 2 and has(full[0], src) and has(full[0], val) and has(full[1], dest) and has(full[1], val):
                    return "mv"
                return "mv?"
            if nm in ("srem", "sadd") and len(a) == 2:
                k = "src" if has(a[0], src) else "dest" if has(a[0], dest) else "?"
                return ("delete:" if nm == "srem" else "save:") + k if a[1] == val else "?"
            return None

        rz = lambda call: ("builtins.OSError",) if fs_call(call) else ()  # noqa
        out = rep.trace(m, ev, exc=True, raises=rz, self_cls=c, inline=lambda f, call, root: f.name not in ("save", "delete", "fetch", "move") and f.module is root.module and f.cls is not None and f.name not in ("_key_path", "_value_path"))
        outs = [o for o in out if o.kind == "return"]
        ok, msg = bool(outs), "no normal path"
        for o in outs:
            a = list(o.state.auto)
            if "?" in "".join(a).replace("mv?", "") or "mv?" in a:
                ok, msg = False, f"touches something other than (src, value)/(dest, value): {a}"
            eq = "same" in a
            if eq or "differ" not in a:
                # keep the value: net effect must be saved
                st = None
                for x in a:
                    if x.startswith("save") or x == "mv":
                        st = "saved"
                    elif x.startswith("delete"):
                        st = "deleted"
                if eq and st != "saved":
                    ok, msg = False, f"move onto the same key loses or does not store the value: {a}"
                if not eq and st == "deleted":
                    ok, msg = False, f"move onto the same key would delete the value after saving it: {a}"
            if not eq:
                if "mv" in a and ("save:dest" not in a and "delete:src" not in a):
                    continue
                if "save:dest" not in a or "delete:src" not in a:
                    ok, msg = False, f"after move the value is not both gone from src and saved under dest: {a}"
                elif "mv" not in a and "differ" not in a and a.index("delete:src") > a.index("save:dest"):
                    ok, msg = False, "save before delete without a src == dest test loses the value when they are equal"
        rep.check(ok, "move-keeps-value", f"{c.name}.move", m.loc, msg)
    rep.minimum("move-keeps-value", 3)


# ----------------------------------------------------------------------- D04 notifications
def check_notify(rep):
    """D04: guard analysis of every change broadcast and of listener start/stop."""
    c = rep.cls("hypothesis.database.InMemoryExampleDatabase")
    for n, mut, before in (("save", "add", False), ("delete", ("discard", "remove"), True)):
        m = rep.method(c, n)
        muts = (mut,) if isinstance(mut, str) else mut

        def ev(kind, t, x):
            if kind == "cmp" and t[1] in ("in", "not in") and P("value") in list(subterms(t[2])):
                return "test"
            if kind == "call" and last(t[1]) in muts and t[1][0] == "a" and any_sub(t[2], lambda y: y == P("value")):
                return "mutate"
            if kind == "branch" and t[0] == "cmp" and t[1] == "in" and any_sub(t[2], lambda y: y == P("value")):
                return "present" if x["val"] else "absent"
            if kind == "branch" and is_call(t, "len"):
                return None
            if kind == "call" and last(t[1]) == "_broadcast_change":
                ev_ = t[2][0] if t[2] else None
                good = ev_ is not None and ev_[0] == "tuple" and ev_[1][0] == ("c", "str", n) and ev_[1][1][0] == "tuple" and len(ev_[1][1][1]) == 2 and ev_[1][1][1][0] == P("key") and any_sub(ev_[1][1][1][1], lambda y: y == P("value"))
                return "notify" if good else "notify?"
            return None

        out = rep.trace(m, ev, self_cls=c, inline=lambda f, call, root: False)
        want = "present" if before else "absent"
        ok, msg = bool(out), ""
        for o in out:
            a = o.state.auto
            st = "present" if "present" in a else "absent" if "absent" in a else None
            if "notify?" in a:
                ok, msg = False, "the broadcast event does not name this operation, key and value"
            if ("notify" in a) != (st == want):
                ok, msg = False, f"listeners are {'told' if 'notify' in a else 'not told'} on a path where the value was {st}: {a}"
            if "mutate" not in a and st != ("absent" if before else "present"):
                ok, msg = False, f"path does not apply the change: {a}"
            if "mutate" in a and "test" in a and a.index("mutate") < a.index("test"):
                ok, msg = False, "whether the value changed is tested after the change was made"
        rep.check(ok, "notify-iff-changed", f"{c.name}.{n}", m.loc, msg)

    b = rep.cls(DB)
    LS = ("a", SELF, "_listeners")
    for n in ("add_listener", "remove_listener", "clear_listeners"):
        m = rep.method(b, n)

        def ev(kind, t, x):
            if kind == "branch" and t == LS:
                return "nonempty" if x["val"] else "empty"
            if kind == "branch" and t[0] == "cmp" and t[1] == "in" and t[3] == LS:
                return "has" if x["val"] else "hasnt"
            if kind == "call":
                nm = last(t[1])
                if t[1][0] == "a" and t[1][1] == LS and nm in ("append", "remove", "clear"):
                    return nm
                if t[1] == ("g", "builtins.bool") and t[2] == (LS,):
                    return "read"
                if nm in ("_start_listening", "_stop_listening"):
                    return nm[1:].split("_")[0]
            if kind == "setattr" and t == LS:
                return "clear"
            return None

        class L(Trace):
            pass

        out = rep.trace(m, ev, self_cls=b, inline=lambda *a: False, prune=lambda a: True)
        ok, msg = bool(out), "no paths"
        for o in out:
            a = [x for x in o.state.auto]
            core = [x for x in a if x not in ("read",)]
            if n == "add_listener":
                was = "empty" if "empty" in a else "nonempty" if "nonempty" in a else None
                # emptiness is read before the append
                early = "read" in a and a.index("read") < a.index("append") if "append" in a else False
                early = early or (was in a and "append" in a and a.index(was) < a.index("append"))
                if "append" not in a:
                    ok, msg = False, f"listener not registered on path {a}"
                if was is None or not early:
                    ok, msg = False, f"whether to start listening is not decided by the listeners present before: {a}"
                elif ("start" in a) != (was == "empty"):
                    ok, msg = False, f"start_listening {'called' if 'start' in a else 'not called'} when the listeners were {was}"
                if "stop" in a:
                    ok, msg = False, "add_listener stops listening"
            elif n == "remove_listener":
                if "hasnt" in a:
                    if "stop" in a or "remove" in a or "start" in a:
                        ok, msg = False, f"removing an unknown listener changes state: {a}"
                    continue
                now = "empty" if "empty" in a else "nonempty" if "nonempty" in a else None
                if "remove" not in a:
                    ok, msg = False, f"listener not removed on path {a}"
                elif now is None or a.index(now) < a.index("remove") or ("stop" in a) != (now == "empty"):
                    ok, msg = False, f"stop_listening must run exactly when no listener is left: {a}"
            else:
                was = "empty" if "empty" in a else "nonempty" if "nonempty" in a else None
                if "clear" not in a:
                    ok, msg = False, f"listeners not cleared: {a}"
                elif was is None or ("stop" in a) != (was == "nonempty"):
                    ok, msg = False, f"stop_listening must run exactly when there were listeners: {a}"
        rep.check(ok, "listener-lifecycle", f"{b.name}.{n}", m.loc, msg)
    m = rep.method(b, "_broadcast_change")
    out = rep.trace(m, lambda k, t, x: "L" if k == "loop" and strip_copy(t) == LS else "C" if k == "call" and t[1] == ("elem", LS) and t[2] == (P("event"),) else "B" if k in ("branch", "catch") else None, self_cls=b)
    ok = any("C" in o.state.auto for o in out) and all("B" not in o.state.auto for o in out) and not nodes(m, ast.Break, ast.Return)
    for o in out:
        a = o.state.auto
        ok = ok and all(a[i + 1:i + 2] == ("C",) for i, x in enumerate(a) if x == "L")
    rep.check(ok, "broadcast-all", f"{b.name}._broadcast_change", m.loc, "not every registered listener receives the event")

    # wrapper databases forward the subscription symmetrically
    c = rep.cls("hypothesis.database.BackgroundWriteDatabase")
    for n, op in (("_start_listening", "add_listener"), ("_stop_listening", "remove_listener")):
        m = rep.method(c, n)
        out = rep.trace(m, lambda k, t, x: "ok" if k == "call" and last(t[1]) == op and t[2] == (("a", SELF, "_broadcast_change"),) else ("bad" if k == "call" and last(t[1]) in ("add_listener", "remove_listener") else None), self_cls=c)
        rep.check(all(o.state.auto == ("ok",) for o in out), "listen-forward", f"{c.name}.{n}", m.loc, f"must {op} its own broadcast on the wrapped database")
    # file-system handlers
    d = rep.cls("hypothesis.database.DirectoryBasedExampleDatabase")
    # the handlers may reach the broadcast through a local of the enclosing method
    sends = {"_broadcast_change"} | {tg.id for n in ast.walk(rep.method(d, "_start_listening").node) if isinstance(n, (ast.Assign, ast.NamedExpr)) and isinstance(n.value, ast.Attribute) and n.value.attr == "_broadcast_change" for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(tg, ast.Name)}
    want = {"on_created": [("save",)], "on_deleted": [("delete",)], "on_moved": [("delete", "save")]}
    for k in sorted(rep.p.functions):
        if ".DirectoryBasedExampleDatabase._start_listening." in k and k.rsplit(".", 1)[-1] in want:
            f = rep.p.functions[k]
            nm = k.rsplit(".", 1)[-1]

            def ev(kind, t, x):
                if kind == "call" and last(t[1]) in sends:
                    e = t[2][0] if t[2] else None
                    if e is not None and e[0] == "tuple" and e[1][0][0] == "c":
                        return "!" + e[1][0][2]
                    return "!?"
                if kind == "branch" and t[0] == "cmp" and t[1] == "is" and t[3] == NONE and x["val"]:
                    return "unknown-key"
                return None

            out = rep.trace(f, ev, exc=True, raises=lambda call: ("builtins.OSError",) if fs_call(call) else ())
            seqs = {tuple(x[1:] for x in o.state.auto if x.startswith("!")) for o in out if o.kind == "return"}
            sent = {s for s in seqs if s}
            rep.check(sent == set(want[nm]), "fs-handler-events", f"DirectoryBasedExampleDatabase.{nm}", f.loc, f"broadcasts {sorted(sent)}, expected {want[nm]}")
            rep.check(not any("unknown-key" in o.state.auto and any(x.startswith("!") for x in o.state.auto) for o in out), "fs-handler-known-key", f"DirectoryBasedExampleDatabase.{nm}", f.loc, "an event for an unknown key is broadcast")
    rep.minimum("fs-handler-events", 3)
    # redis sibling
    c = rep.p.find_class("RedisExampleDatabase")
    if c is not None:
        for n, ops in (("save", ("sadd",)), ("delete", ("srem",))):
            m = rep.method(c, n)
            hits = []

            def ev(kind, t, x):
                if kind == "call" and last(t[1]) == "_pipeline":
                    hits.append(t)
                    return "pipe"
                if kind == "call" and last(t[1]) in ("sadd", "srem"):
                    return last(t[1]) if t[2] == (("bin", "+", ("a", SELF, "_prefix"), P("key")), P("value")) else "badcmd"
                return None

            out = rep.trace(m, ev, self_cls=c)
            ok = bool(hits) and all(arg(t, None, "event_type") == ("c", "str", n) and arg(t, None, "to_publish") == ("tuple", (P("key"), P("value"))) and arg(t, None, "execute_and_publish", TRUE) == TRUE for t in hits)
            ok = ok and all(o.state.auto == ("pipe",) + ops for o in out)
            rep.check(ok, "redis-publish", f"{c.name}.{n}", m.loc, f"must run {ops[0]} on (prefixed key, value) and publish a {n!r} event for (key, value)")
        m = rep.method(c, "move")
        ev = lambda k, t, x: ("pub-" + t[2][0][1][0][2] if k == "call" and last(t[1]) == "_publish" and t[2] and t[2][0][0] == "tuple" and t[2][0][1][0][0] == "c" else (("chg%s%s" % (t[3][2][2], "+" if x["val"] else "-")) if k == "branch" and t[0] == "cmp" and t[1] == "<" and t[2] == ("c", "int", 0) and t[3][0] == "sub" and t[3][2][0] == "c" else None))  # noqa
        out = rep.trace(m, ev, self_cls=c)
        ok = True
        for o in out:
            a = o.state.auto
            if ("chg0+" in a) != ("pub-delete" in a) or ("chg1+" in a) != ("pub-save" in a):
                ok = False
        rep.check(ok and any("pub-save" in o.state.auto for o in out), "redis-move-publish", f"{c.name}.move", m.loc, "move must publish delete/save exactly for the commands that changed something")
        m = rep.method(c, "_pipeline")
        ev = lambda k, t, x: "pub" if k == "call" and last(t[1]) == "_publish" else ("chg" + "+-"[not x["val"]] if k == "branch" and (is_call(t, "any") or (t[0] == "cmp" and t[1] == "<")) else None)  # noqa
        out = rep.trace(m, ev, self_cls=c, inline=lambda *a: False)
        rep.check(any("pub" in o.state.auto for o in out) and all(("pub" in o.state.auto) == ("chg+" in o.state.auto) for o in out if o.kind == "return"), "redis-publish-iff-changed", f"{c.name}._pipeline", m.loc, "publishes without (or despite) a change")
        for n in ("fetch", "save", "delete", "move"):
            m = rep.method(c, n)
            bad = []

            def ev8(kind, t, x):
                if kind == "call" and last(t[1]) in ("smembers", "sadd", "srem", "expire", "sismember", "delete") and t[1][0] == "a" and t[1][1] != SELF:
                    k = t[2][0] if t[2] else NONE
                    if not (k[0] == "bin" and k[1] == "+" and k[2] == ("a", SELF, "_prefix")):
                        bad.append(show(t))
            rep.trace(m, ev8, self_cls=c)
            rep.check(not bad, "redis-prefix", f"{c.name}.{n}", m.loc, f"command uses an unprefixed key: {bad[:2]}")


# ----------------------------------------------------------------------- D05 serialization
def check_serial(rep):
    """D05: the writer's (type -> tag, encoding) table and the reader's (tag -> decoding) table are
    extracted from the abstract paths of the two functions and must be inverse; the reader can only
    return a value or report failure."""
    w = rep.func("hypothesis.database.choices_to_bytes")
    r = rep.func("hypothesis.database._choices_from_bytes")
    elem = None
    table = {}  # type -> (tag, enc)
    order_bad = []
    B = lambda n: ("g", "builtins." + n)  # noqa

    def ev(kind, t, x):
        if kind == "branch" and is_call(t, "isinstance") and len(t[2]) == 2:
            tys = t[2][1][1] if t[2][1][0] == "tuple" else (t[2][1],)
            return ("is" if x["val"] else "not") + ":" + ",".join(last(z) for z in tys)
        if kind == "branch" and t == t and x["val"] in (True, False):
            if t[0] == "cmp" and t[1] == "<":
                return ("lt" if x["val"] else "ge") + ":" + (str(t[3][2]) if t[3][0] == "c" else str(fold(t[3])))
            if t[0] in ("p", "elem", "phi"):
                return "truthy" if x["val"] else "falsy"
        if kind == "call" and last(t[1]) in ("append", "extend") and t[2]:
            return "emit:" + enc_label(t[2][0])
        if kind == "loop":
            return "loop"
        return None

    def fold(t):
        """constant-fold an integer term"""
        if t[0] == "c" and isinstance(t[2], int):
            return int(t[2])
        if t[0] == "bin":
            a, b = fold(t[2]), fold(t[3])
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "<<": lambda: a << b, "|": lambda: a | b, "*": lambda: a * b, "&": lambda: a & b, "**": lambda: a ** b}[t[1]]()
            except Exception:
                return None
        return None

    def tag_of(t):
        """(tag<<5 | size-ish).to_bytes -> (tag, sizeconst|None)"""
        v = t
        if v[0] == "bin" and v[1] in ("|", "+"):
            a, b = fold(v[2]), fold(v[3])
            if a is not None and b is not None:
                return (a | b) >> 5, (a | b) & 31
            if a is not None:
                return a >> 5, None
            if b is not None:
                return b >> 5, None
        f = fold(v)
        if f is not None:
            return f >> 5, f & 31
        return None, None

    def enc_label(t):
        if t[0] == "c" and t[1] == "bytes":
            return "const:" + t[2].hex()
        if is_call(t, "to_bytes") and t[1][0] == "a":
            base = t[1][1]
            tg, sz = tag_of(base)
            if tg is not None:
                return f"tag:{tg}:{'len' if sz is None else sz}"
            if arg(t, None, "signed") == TRUE:
                n = t[2][0] if t[2] else None
                return "int:" + (t[2][1][2] if len(t[2]) > 1 and t[2][1][0] == "c" else "big") + ":" + width(n, base)
            return "int-unsigned"
        if is_call(t, "bytes") and t[2] and t[2][0][0] in ("list", "tuple") and len(t[2][0][1]) == 1:
            tg, sz = tag_of(t[2][0][1][0])
            if tg is not None:
                return f"tag:{tg}:{'len' if sz is None else sz}"
        if is_call(t, "pack"):
            return "pack:" + (t[2][0][2] if t[2][0][0] == "c" else "?")
        if is_call(t, "encode"):
            e = arg(t, 1, "errors")
            return "str:" + (str(arg(t, 0, "encoding", ("c", "str", "utf-8"))[2])) + ":" + (e[2] if e and e[0] == "c" else "strict")
        if is_call(t, "_pack_uleb128"):
            return "uleb"
        return "raw"

    def width(n, base):
        """1 + bit_length // 8 (or equivalent over-approximations) -> ok"""
        if n is None:
            return "?"
        s = show(nosite(n))
        b = show(nosite(base))
        bl = f"{b}.bit_length()"
        oks = {f"(1 + ({bl} // 8))", f"(({bl} // 8) + 1)", f"(({bl} + 8) // 8)", f"((8 + {bl}) // 8)"}
        return "ok" if s in oks else "?" + s

    segs, _ = rep.segments(w, ev, ("loop",), prune=lambda a: is_call(a, "isinstance"), inline=lambda f, call, root: f.module is root.module and f.name not in ("_pack_uleb128", "_unpack_uleb128"))
    seen = {body: 0 for head, body, how in segs if head == "loop" and any(y.startswith("emit") for y in body)}
    types = {}
    for sgm in seen:
        pos = [y[3:] for y in sgm if y.startswith("is:")]
        neg = [y[4:] for y in sgm if y.startswith("not:")]
        em = [y[5:] for y in sgm if y.startswith("emit:")]
        ty = pos[-1] if pos else None
        if ty is None:
            allt = ["bool", "float", "int", "bytes", "str"]
            left = [z for z in allt if z not in neg]
            ty = left[0] if len(left) == 1 else "?" + ",".join(left)
        if ty == "int" and "bool" not in neg:
            order_bad.append(sgm)
        small = None
        for y in sgm:
            if y.startswith("lt:"):
                small = True
            if y.startswith("ge:"):
                small = False
        thr = [y.split(":")[1] for y in sgm if y[:3] in ("lt:", "ge:")]
        types.setdefault(ty, set()).add((small, tuple(thr), tuple(em), "truthy" in sgm if ("truthy" in sgm or "falsy" in sgm) else None))
    rep.check(not order_bad, "bool-before-int", w.name, w.loc, "bool is an int: a boolean choice would be written as an integer")
    rep.check(set(types) == {"bool", "float", "int", "bytes", "str"}, "writer-total", w.name, w.loc, f"choice types written: {sorted(types)}")
    wt = {}
    payload_ok = {"float": "pack:!d", "int": "int:big:ok", "bytes": "raw", "str": "str:utf-8:surrogatepass"}
    for ty, rows in types.items():
        if ty == "bool":
            vals = {(r_[3], r_[2]) for r_ in rows}
            rep.check(vals == {(True, ("const:01",)), (False, ("const:00",))}, "writer-row", "bool", w.loc, f"booleans must be one byte 01/00, found {sorted(map(str, vals))}")
            wt["bool"] = 0
            continue
        tags = set()
        ok, msg = True, ""
        for small, thr, em, _ in rows:
            if not em or not em[0].startswith("tag:"):
                ok, msg = False, f"row does not start with its tag byte: {em}"
                continue
            _, tg, sz = em[0].split(":")
            tags.add(int(tg))
            if small is True:
                if sz != "len" or len(em) != 2:
                    ok, msg = False, f"short row must be tag|size then payload: {em}"
            elif small is False:
                if sz != "31" or len(em) != 3 or em[1] != "uleb":
                    ok, msg = False, f"long row must be tag|31, uleb128 size, payload: {em}"
            else:
                ok, msg = False, "size is not tested against the 5-bit limit"
            if any(t_ != "31" for t_ in thr):
                ok, msg = False, f"size threshold is {thr}, the reader escapes at 31"
            if em and em[-1] != payload_ok.get(ty):
                ok, msg = False, f"payload encoding {em[-1]} for {ty}, reader decodes {payload_ok.get(ty)}"
        if {x[0] for x in rows} != {True, False}:
            ok, msg = False, "both the short and the long size form must exist"
        if len(tags) != 1:
            ok, msg = False, f"one tag per type, found {tags}"
        rep.check(ok, "writer-row", ty, w.loc, msg)
        wt[ty] = next(iter(tags), None)
    rep.minimum("writer-row", 5)

    # reader
    dec = {}
    bufs = []

    def tagatom(t):
        return t[0] == "cmp" and t[1] == "==" and t[3][0] == "c" and isinstance(t[3][2], int) and any_sub(t[2], lambda y: y[0] == "bin" and y[1] == ">>" and fold(y[3]) == 5)

    def szatom(t):
        if t[0] == "cmp" and t[1] == "==" and any_sub(t[2], lambda y: y[0] == "bin" and y[1] == "&"):
            return fold(t[3])
        return None

    def ev2(kind, t, x):
        if kind == "branch" and tagatom(t):
            return ("tag=" if x["val"] else "tag!") + str(t[3][2])
        if kind == "branch" and szatom(t) is not None:
            return ("size=" if x["val"] else "size!") + str(szatom(t))
        if kind == "call" and last(t[1]) in ("append", "extend") and t[2]:
            return "dec:" + dec_label(t[2][0], last(t[1]))
        if kind == "call" and is_call(t, "_unpack_uleb128"):
            return "uleb"
        if kind == "branch" and t[0] == "cmp" and t[1] == "<" and is_call(t[3], "len"):
            return "iter"
        return None

    def dec_label(t, how):
        if is_call(t, "unpack") and how == "extend":
            return "pack:" + str(t[2][0][2])
        if t[0] == "sub" and is_call(t[1], "unpack") and t[2] == ("c", "int", 0):
            return "pack:" + str(t[1][2][0][2])
        if is_call(t, "bool"):
            return "bool"
        if is_call(t, "from_bytes"):
            return "int:" + (t[2][1][2] if len(t[2]) > 1 else "big") + (":ok" if arg(t, None, "signed") == TRUE else ":unsigned")
        if is_call(t, "decode"):
            e = arg(t, 1, "errors")
            return "str:" + str(arg(t, 0, "encoding", ("c", "str", "utf-8"))[2]) + ":" + (e[2] if e else "strict")
        if t[0] == "sub" and t[2][0] == "slice":
            return "raw"
        if t[0] == "cmp":
            return "bool"
        return "?" + show(t)[:40]

    segs, _ = rep.segments(r, ev2, ("iter",), inline=lambda f, call, root: f.module is root.module and f.name not in ("_pack_uleb128", "_unpack_uleb128"))
    rt = {}
    sizes = {}
    for head, sgm, how in segs:
        d = [y[4:] for y in sgm if y.startswith("dec:")]
        if not d or head != "iter":
            continue
        tg = [int(y[4:]) for y in sgm if y.startswith("tag=")]
        ng = {int(y[4:]) for y in sgm if y.startswith("tag!")}
        key = tg[0] if tg else ("else", tuple(sorted(ng)))
        rt.setdefault(key, set()).add(tuple(d))
        for y in sgm:
            if y.startswith("size"):
                sizes.setdefault(y[5:], set()).add((y[4], "uleb" in sgm))
    sizes = {k: v for k, v in sizes.items() if len({z[0] for z in v}) == 2}
    if any(v != {("=", True), ("!", False)} for v in sizes.values()):
        rt["size-form"] = set()
    rep.check("size-form" not in rt, "reader-size-form", r.name, r.loc, "the long size form is read when (and only when) the 5-bit size is 31")
    rep.check(set(sizes) == {"31"}, "reader-size-escape", r.name, r.loc, f"reader escapes at size {sorted(sizes)}, writer at 31")
    want = {"bool": "bool", **payload_ok}
    for ty, tg in wt.items():
        rows = rt.get(tg)
        if rows is None:
            e = [k for k in rt if isinstance(k, tuple) and tg not in k[1]]
            rows = rt.get(e[0]) if e else None
        rep.check(rows is not None and rows == {(want[ty],)}, "reader-row", ty, r.loc, f"tag {tg} written for {ty} is decoded as {sorted(rows) if rows else None}")
    rep.minimum("reader-row", 5)
    rep.check(len(set(wt.values())) == len(wt), "tags-distinct", w.name, w.loc, f"two choice types share a tag: {wt}")
    # varint helpers agree: 7-bit groups, continuation bit 7, little-endian group order
    pk = rep.func("hypothesis.database._pack_uleb128")
    up = rep.func("hypothesis.database._unpack_uleb128")

    def group_bits(f):
        s = set()
        mask = set()
        for n in nodes(f, ast.BinOp, ast.AugAssign):
            op = n.op
            right = n.right if isinstance(n, ast.BinOp) else n.value
            left = n.left if isinstance(n, ast.BinOp) else n.target
            k = _cfold(right)
            if isinstance(op, ast.RShift) and k is not None:
                s.add((">>", k))
            if isinstance(op, ast.BitAnd):
                mask.add(k if k is not None else _cfold(left))
            if isinstance(op, ast.Mult):
                s.add(("*", k if k is not None else _cfold(left)))
            if isinstance(op, ast.LShift) and k is None:
                s.add(("<<", None))
            if isinstance(op, ast.LShift) and _cfold(left) is None and k is not None:
                s.add(("<<", k))
            if isinstance(op, ast.BitOr) and k is not None:
                s.add(("|", k))
            if isinstance(op, ast.Add) and isinstance(n, ast.AugAssign) and k is not None and k > 1:
                s.add(("*", k))
        return s, mask

    s1, m1 = group_bits(pk)
    s2, m2 = group_bits(up)
    rep.check((">>", 7) in s1 and ("|", 128) in s1 and 127 in m1, "varint-writer", pk.name, pk.loc, f"7-bit groups with continuation bit 0x80: {sorted(map(str, s1))} mask {m1}")
    rep.check(127 in m2 and (("*", 7) in s2) and ((">>", 7) in s2 or 128 in m2), "varint-reader", up.name, up.loc, f"7-bit groups shifted by 7 per byte with continuation bit 7: {sorted(map(str, s2))} mask {m2}")
    # total reader
    cf = rep.func("hypothesis.database.choices_from_bytes")
    out = rep.trace(cf, lambda k, t, x: "caught" if k == "catch" else None, exc=True, raises=lambda c: ("builtins.Exception",), inline=lambda f, call, root: f.name != "_choices_from_bytes" and f.module is root.module)
    rep.check(not [o for o in out if o.kind == "raise"], "reader-total", cf.name, cf.loc, "a corrupted database entry raises instead of being reported as undecodable")
    rep.check(all(o.value == NONE for o in out if "caught" in o.state.auto and o.kind == "return") and any(is_call(o.value, "_choices_from_bytes") for o in out), "reader-none-on-error", cf.name, cf.loc, "decoding failure must be None and success the decoded choices")


def _cfold(n):
    try:
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return n.value
        if isinstance(n, ast.BinOp):
            a, b = _cfold(n.left), _cfold(n.right)
            if a is None or b is None:
                return None
            return {ast.Add: a + b, ast.Sub: a - b, ast.LShift: (a << b if b >= 0 else None), ast.Mult: a * b, ast.BitOr: a | b}.get(type(n.op))
    except Exception:
        return None
    return None


CHECKS = {
    "D01": check_forwarding,
    "D02": check_directory,
    "D03": check_move,
    "D04": check_notify,
    "D05": check_serial,
}
