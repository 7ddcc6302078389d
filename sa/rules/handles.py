"""M08: paired operations.

run   typestate of handles (files, info objects, communicators, requests):
      closed on every path to a normal return, not used after they are closed;
      the outcome of operations on parallel files is tested; started exchanges
      are finished; what the constructor of an object registers its destructor
      removes; sections of a timer that are entered are left.
"""
from canon import *
from util import *

OPEN = {"MPI_File_open": (4, "file"), "MPI_Info_create": (0, "info object"), "MPI_Comm_dup": (1, "communicator"), "MPI_Comm_split": (3, "communicator"),
        "MPI_Comm_create": (2, "communicator"), "MPI_Comm_split_type": (4, "communicator"),
        "MPI_Type_contiguous": (2, "datatype"), "MPI_Type_vector": (4, "datatype"), "MPI_Type_create_struct": (4, "datatype"),
        "MPI_Isend": (6, "request"), "MPI_Irecv": (6, "request"), "MPI_Iallreduce": (6, "request"), "MPI_Ibarrier": (1, "request"),
        "MPI_Win_create": (5, "window"), "MPI_Group_incl": (3, "group")}
CLOSE = {"MPI_File_close": 0, "MPI_Info_free": 0, "MPI_Comm_free": 0, "MPI_Type_free": 0, "MPI_Wait": 0, "MPI_Waitall": 1, "MPI_Waitany": 1,
         "MPI_Win_free": 0, "MPI_Group_free": 0, "MPI_Request_free": 0, "MPI_Cancel": 0, "fclose": 0}
FILEOPS = ("MPI_File_", "File_read", "File_write")


class Handles(Flow):
    def __init__(self, E, C, f):
        super().__init__(E)
        self.C, self.f = C, f
        self.obl = {}
        self.tests = {}

    def join(self, a, b):
        return a | b

    def want(self, callee, call, fr):
        return (callee.file == self.f.file if isinstance(callee, Fn) else True) and len(self.stack) < 5

    def pl(self, e, fr):
        if e is None:
            return None
        p = self.E.place(e, fr)
        while p and isinstance(p[-1], str) and (p[-1] == "[]" or p[-1] == ".data()"):
            p = p[:-1]
        return p

    def note(self, rule, key, node, ok, good, bad):
        o = self.obl.setdefault((rule, key, node.loc), [True, good, bad])
        o[0] = o[0] and ok

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or "")
        a = args_of(n) if n.a.get("m") else n.c
        if s in OPEN and len(a) > OPEN[s][0]:
            i, kind = OPEN[s]
            p = self.pl(a[i], fr)
            st = frozenset(x for x in st if not (x[0] == "shut" and x[1] == p))
            if p is not None and p[0] == "var":
                st = st | {("open", p, kind, n)}
            return self.result(n, s, fr, st)
        if s == "fopen":
            p = self.result_place(n, fr)
            return st | {("open", p, "file", n)} if p is not None and p[0] == "var" else st
        if s in CLOSE and len(a) > CLOSE[s]:
            p = self.pl(a[CLOSE[s]], fr)
            self.note("no-use-after-release", f"{self.f.q}/{s}", n, ("shut", p) not in st or s.startswith("MPI_Wait"), f"{s} on a live handle", f"{s} on a handle that is released already")
            st = frozenset(x for x in st if not (x[0] == "open" and x[1] == p)) | {("shut", p)}
            return self.result(n, s, fr, st)
        if s.endswith("_start") and n.a.get("m") and not self.P.targets(n) and any("MPI_Request" in (x.a.get("ty") or "") for x in a if x is not None):
            p = self.pl(a[-1], fr)
            return st | {("open", p, "exchange", n)} if p is not None and p[0] == "var" else st
        if s.endswith("_finish") and n.a.get("m") and not self.P.targets(n) and a:
            p = self.pl(a[-1], fr)
            return frozenset(x for x in st if not (x[0] == "open" and x[1] == p))
        if s.startswith(FILEOPS) and a:
            p = self.pl(a[0], fr)
            self.note("no-use-after-release", f"{self.f.q}/{s}", n, ("shut", p) not in st, f"{s} on an open file", f"{s} on a file that is closed already")
            return self.result(n, s, fr, st)
        return self.enter(n, fr, st)

    def result_place(self, n, fr):
        p, x = n.p, n
        while p is not None and p.k == "cast":
            x, p = p, p.p
        if p is None:
            return None
        if p.k == "bin" and p.a.get("op") == "=" and p.c[1] is x:
            return self.pl(p.c[0], fr)
        if p.k == "var":
            return ("var", p.a["id"], fr.uid)
        return None

    def result(self, n, s, fr, st):
        """outcome of a call on a file"""
        if not s.startswith(FILEOPS):
            return st
        self.tests.setdefault(n.loc, (n, s))
        p, x = n.p, n
        while p is not None and (p.k == "cast" or (p.k == "bin" and p.a.get("op") in ("==", "!=")) or (p.k == "call" and p.a.get("q") == "__builtin_expect") or (p.k == "un" and p.a.get("op") == "!")):
            if p.k == "cast" and clean_ty(p.a.get("ty")) == "void":
                break
            x, p = p, p.p
        if p is not None and p.k in ("if", "ret", "cond", "bin") and not (p.k == "bin" and p.a.get("op") == "="):
            self.note("outcome-tested", f"{self.f.q}/{s}", n, True, f"the outcome of {s} is tested", "")
            return st
        q = self.result_place(n, fr)
        if q is None:
            self.note("outcome-tested", f"{self.f.q}/{s}", n, False, "", f"the outcome of {s} is discarded")
            return st
        return st | {("new", q, n, s)}

    def settle(self, q, st):
        """the pending outcome in q is overwritten"""
        for x in [x for x in st if x[0] == "pend" and x[1] == q]:
            self.note("outcome-tested", f"{self.f.q}/{x[3]}", x[2], False, "", f"the outcome of {x[3]} is overwritten before it is tested")
        return frozenset(x for x in st if not (x[0] == "pend" and x[1] == q))

    def promote(self, q, st):
        return frozenset(("pend",) + x[1:] if x[0] == "new" and x[1] == q else x for x in st)

    def on_assign(self, n, lhs, rhs, fr, st):
        q = self.pl(lhs, fr)
        if any(x[0] in ("pend", "new") for x in st):
            st = self.promote(q, self.settle(q, st))
        return st

    def on_decl(self, v, fr, st):
        return self.promote(("var", v.a["id"], fr.uid), st)

    def on_cond(self, n, truth, fr, st):
        pl = {self.pl(x, fr) for x in n.walk() if x.k in ("ref", "mem")}
        done = [x for x in st if x[0] == "pend" and x[1] in pl]
        for x in done:
            self.note("outcome-tested", f"{self.f.q}/{x[3]}", x[2], True, f"the outcome of {x[3]} is tested", f"the outcome of {x[3]} may be overwritten before it is tested")
        return st - set(done) if done else st

    def on_return(self, n, fr, st):
        if n.c and n.c[0] is not None:
            pl = {self.pl(x, fr) for x in n.c[0].walk() if x.k in ("ref", "mem")}
            st = frozenset(x for x in st if not (x[0] in ("open", "pend") and x[1] in pl))
        return st

    def on_node(self, n, fr, st):
        return st

    def finish(self, st):
        seen = set()
        for x in st or ():
            if x[0] == "open":
                self.note("released", f"{self.f.q}/{x[2]}", x[3], False, "", f"the {x[2]} opened or started here is not released on every path to the end of the function")
                seen.add(x[3].loc)
            if x[0] == "pend":
                self.note("outcome-tested", f"{self.f.q}/{x[3]}", x[2], False, "", f"the outcome of {x[3]} is never tested")


def relevant(n):
    s = short(n.a.get("q") or "")
    return n.k == "call" and (s in OPEN or s in CLOSE or s.startswith(FILEOPS) or s == "fopen" or s.endswith(("_array_start", "_array_finish")))


def run(P, E, C):
    seen = set()
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        if not any(relevant(n) for n in f.find("call")):
            continue
        w = Handles(E, C, f)
        out, exc = w.run(f, frozenset())
        w.finish(out)
        for n in f.find("call"):
            s = short(n.a.get("q") or "")
            if s in OPEN or s == "fopen" or s.endswith("_array_start"):
                w.note("released", f"{f.q}/{OPEN[s][1] if s in OPEN else 'exchange' if s != 'fopen' else 'file'}", n, True, "released on every path", "")
        for (rule, key, loc), (ok, good, bad) in w.obl.items():
            if (rule, key, loc, ok) in seen:
                continue
            seen.add((rule, key, loc, ok))
            C.judge(ok, rule, key, loc, f"{f.q}: {good if ok else bad}")
    registered(P, E, C)
    sections(P, E, C)
    C.need("released", 1)
    C.need("outcome-tested", 3)


PAIRS = {"push_back": ("pop_back",), "emplace_back": ("pop_back",), "push": ("pop",), "attach": ("detach",), "insert": ("erase",), "emplace": ("erase",),
         "connect": ("disconnect",), "enter_subsection": ("leave_subsection",), "lock": ("unlock",), "subscribe": ("unsubscribe",), "register_observer": ("unregister_observer",)}


def reach(P, E, f, depth=0, seen=None):
    """calls a constructor / destructor makes, helpers of its class included"""
    seen = seen if seen is not None else set()
    if f.id in seen or depth > 3:
        return
    seen.add(f.id)
    for n in f.find("call"):
        yield f, n
        for t in P.targets(n):
            if t.clsid and t.clsid == f.clsid:
                yield from reach(P, E, t, depth + 1, seen)


def outlives(E, f, n):
    """the object a registering call changes is no member of this object"""
    o = obj_of(n) if n.a.get("m") else None
    if o is None and n.a.get("m") is None:
        return True
    y = unwrap(o) if o is not None else None
    while y is not None and y.k in ("call", "sub", "un") and y.c and y.k != "ref":
        if y.k == "call" and not y.a.get("m") and not y.a.get("op"):
            return True
        y = unwrap(y.c[0])
    if y is None or y.k == "this":
        return False
    if y.k == "ref":
        return y.a.get("dk") == "gvar" or (y.a.get("dk") == "parm" and is_ref_type(y.a.get("ty")))
    if y.k == "mem":
        return is_ref_type(y.a.get("ty")) or is_ptr_type(y.a.get("ty"))
    return False


def registered(P, E, C):
    dtors = {}
    for f in P.fns:
        if f.isdtor and f.body is not None:
            dtors.setdefault(f.clsid, f)
    done = set()
    for f in P.fns:
        if not f.isctor or f.body is None or f.loc in done or f.dep:
            continue
        done.add(f.loc)
        # constructors that copy are not registrations
        ins = []
        for g, n in reach(P, E, f):
            s = short(n.a.get("q") or "")
            if s not in PAIRS:
                continue
            selfarg = any(unwrap(x) is not None and any(y.k == "this" for y in x.walk()) for x in args_of(n) if x is not None)
            static = target_static(n)
            if static or (selfarg and s in ("attach", "insert", "emplace", "push_back", "subscribe") and outlives(E, g, n)):
                ins.append((g, n, s))
        for g, n, s in ins:
            d = dtors.get(f.clsid)
            outs = {short(m.a.get("q") or "") for h, m in reach(P, E, d)} if d is not None else set()
            ok = bool(outs & set(PAIRS[s]))
            C.judge(ok, "registered", f"{f.cls}/{s}", n.loc, f"{f.cls}: the destructor " + (f"undoes the {s} of the constructor" if ok else f"does not undo the {s} of the constructor"))
            if ok:
                # under the same condition
                m = next((h, m) for h, m in reach(P, E, d) if short(m.a.get("q") or "") in PAIRS[s])
                gi = set()
                for x, pol in all_guards(n):
                    gi |= mentioned(P, x)
                go = [(x, mentioned(P, x)) for x, pol in all_guards(m[1]) if not throws_otherwise(x)]
                extra = [canon_guard(E, x, m[0]) for x, names in go if names - gi and not any(looks_up(c) for c in x.walk())]
                C.judge(not extra, "registered", f"{f.cls}/{s}/condition", m[1].loc, f"{f.cls}: what the constructor registers is removed " + ("whenever it was registered" if not extra else f"only if {extra[0]}"))


def mentioned(P, x):
    """variables and members a condition reads, through helpers"""
    out = set()
    for y in x.walk():
        if y.k in ("ref", "mem"):
            out.add(y.a.get("n"))
        if y.k == "call":
            for t in P.targets(y):
                out |= {z.a.get("n") for z in t.find("mem")}
    return out - {"size", "empty", "end", "find", None}


def looks_up(c):
    """is it (still) in the collection?"""
    return c.k == "call" and (short(c.a.get("q") or "") in ("find", "contains", "count", "find_if", "end") or target_static(c))


def throws_otherwise(x):
    """condition of an assertion"""
    i = enclosing(x, "if")
    return i is not None and any(c.k == "throw" or "issue_error" in (c.a.get("q") or "") for s in i.c[2:] if s is not None for c in s.walk())


def canon_guard(E, x, f):
    return canon(E, x, E.root(f))


def target_static(n):
    """container with static storage"""
    o = obj_of(n) if n.a.get("m") else None
    y = unwrap(o) if o is not None else None
    return y is not None and y.k == "ref" and y.a.get("dk") == "gvar" and "std::" in (y.a.get("ty") or "")


class Depth(Flow):
    """nesting depths of the sections of one handler"""

    def __init__(self, E, f, obj):
        super().__init__(E)
        self.f, self.obj = f, obj
        self.low = None

    def join(self, a, b):
        return a | b

    def want(self, callee, call, fr):
        return isinstance(callee, Fn) and len(self.stack) < 4 and callee.file == self.f.file

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or "")
        if s in ("enter_subsection", "leave_subsection") and self.E.place(obj_of(n), fr) == self.obj:
            d = 1 if s[0] == "e" else -1
            st = frozenset(max(-3, min(12, x + d)) for x in st)
            if d < 0 and any(x < 0 for x in st) and self.low is None:
                self.low = n
            return st
        return self.enter(n, fr, st)


def sections(P, E, C):
    done = set()
    for f in P.fns:
        if f.dep or f.body is None or f.loc in done:
            continue
        ins, outs, objs = {}, {}, {}
        for n in f.find("call"):
            s = short(n.a.get("q") or "")
            if s not in ("enter_subsection", "leave_subsection") or f.n in ("enter_subsection", "leave_subsection") or f.isctor or f.isdtor:
                continue
            a = args_of(n)
            if "ParameterHandler" in (n.a.get("q") or ""):
                o = unwrap(obj_of(n))
                if o is not None and o.k == "ref" and o.a.get("dk") == "parm":
                    objs.setdefault(o.a["id"], n)
            elif a:
                (ins if s[0] == "e" else outs).setdefault(label(E, a[0], E.root(f)), n)
        if ins or outs or objs:
            done.add(f.loc)
        for i, n in objs.items():
            fr = E.root(f)
            w = Depth(E, f, ("var", i, fr.uid))
            out, _ = w.run(f, frozenset({0}), fr)
            ok = out is None or out == frozenset({0}) and w.low is None
            C.judge(ok, "sections", f"{f.q}/nesting", (w.low or n).loc, f"{f.q}: " + ("every section of the parameters that is entered is left again" if ok else f"sections of the parameters are not nested properly (depth {sorted(out)} at the end)"))
        for k, n in sorted(ins.items()):
            C.judge(k in outs, "sections", f"{f.q}/{k}", n.loc, f"{f.q}: section {k} is entered" + (" and left" if k in outs else " but never left"))
        for k, n in sorted(outs.items()):
            if k not in ins:
                C.bad("sections", f"{f.q}/{k}", n.loc, f"{f.q}: section {k} is left but never entered")


def label(E, e, fr):
    o, of = E.origin(e, fr)
    for n in (o or e).walk():
        if n.k == "lit" and n.a.get("lt") == "str":
            return n.a.get("v")
        if n.k == "ref" and n.a.get("dk") == "var":
            p, pf = E.origin(n, of)
            if p is not None and p is not n:
                for m in p.walk():
                    if m.k == "lit" and m.a.get("lt") == "str":
                        return m.a.get("v")
    return canon(E, e, fr)
