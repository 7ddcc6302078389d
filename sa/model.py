"""Program model: loads the fact files, links calls to definitions, and offers
the queries (access paths, value origins, callers, lambdas, overriders) on
which the rules are built."""
import glob, json, os, re, sys
from collections import defaultdict

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from extract import facts, AnalysisError, REPO

STRKEYS = {"n", "id", "ty", "q", "dk", "op", "v", "lt", "cv", "targs", "pm", "cls", "f", "mac", "ca"}


class Node:
    __slots__ = ("k", "l", "f", "mac", "c", "a", "p", "fn")

    def __init__(self, k):
        self.k = k
        self.l = 0
        self.f = None
        self.mac = None
        self.c = []
        self.a = {}
        self.p = None
        self.fn = None

    def __getattr__(self, name):          # attribute access to facts
        try:
            return self.a[name]
        except KeyError:
            if name.startswith("__"):
                raise AttributeError(name)
            return None

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for x in reversed(n.c):
                if x is not None:
                    st.append(x)

    def find(self, *kinds):
        for n in self.walk():
            if n.k in kinds:
                yield n

    @property
    def loc(self):
        f = self.f or (self.fn.file if self.fn else "?")
        return f"{f}:{self.l}"

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def __repr__(self):
        return f"<{self.k} {self.a.get('n') or self.a.get('q') or self.a.get('op') or self.a.get('v') or ''} {self.loc}>"


def conv(d, S, fn, parent):
    n = Node(d["k"])
    n.p = parent
    n.fn = fn
    n.l = d.get("l", parent.l if parent is not None else 0)
    a = n.a
    for k, v in d.items():
        if k in ("k", "l", "c"):
            continue
        if k == "f":
            n.f = S[v]
        elif k == "mac":
            n.mac = S[v]
        elif k in STRKEYS:
            a[k] = S[v]
        elif k == "params":
            a[k] = [(S[x], S[y], S[z]) for x, y, z in v]
        elif k == "bind":
            a[k] = [(S[x], S[y]) for x, y in v]
        elif k == "caps":
            caps = []
            for c in v:
                e = {}
                for kk, vv in c.items():
                    if kk in ("n", "id", "ty"):
                        e[kk] = S[vv]
                    elif kk == "init":
                        e[kk] = conv(vv, S, fn, n) if vv else None
                    else:
                        e[kk] = vv
                caps.append(e)
            a[k] = caps
        else:
            a[k] = v
    n.c = [conv(x, S, fn, n) if x is not None else None for x in d.get("c", ())]
    return n


class Fn:
    """One function definition (one instantiation shape of it)."""

    def __init__(self, d, S, tu):
        self.q = S[d["q"]]
        self.n = S[d["n"]]
        self.id = S[d["id"]]
        self.file = S[d["file"]]
        self.l = d["l"]
        self.e = d["e"]
        self.h = d["h"]
        self.dep = bool(d.get("dep"))
        self.targs = S[d["targs"]]
        self.cargs = S[d["cargs"]]
        self.rty = S[d["rty"]]
        self.cls = S[d["cls"]] if "cls" in d else None
        self.clsid = S[d["clsid"]] if "clsid" in d else None
        self.virt = bool(d.get("virt"))
        self.const = bool(d.get("const"))
        self.static = bool(d.get("static"))
        self.isctor = bool(d.get("isctor"))
        self.isdtor = bool(d.get("isdtor"))
        self.ov = [S[x] for x in d.get("ov", ())]
        self.params = [(S[x], S[y], S[z]) for x, y, z in d["params"]]
        self.tu = tu
        self._b = d["body"]
        self._i = d.get("inits")
        self._S = S
        self._body = None
        self._inits = None

    @property
    def body(self):
        if self._body is None:
            self._body = conv(self._b, self._S, self, None) if self._b else Node("blk")
            self._b = None
        return self._body

    @property
    def inits(self):
        if self._inits is None:
            out = []
            for i in self._i or ():
                e = {}
                for k, v in i.items():
                    if k in ("n", "id", "base"):
                        e[k] = self._S[v]
                    elif k == "e":
                        e[k] = conv(v, self._S, self, None) if v else None
                    else:
                        e[k] = v
                out.append(e)
            self._inits = out
        return self._inits

    def roots(self):
        for i in self.inits:
            if i.get("e") is not None:
                yield i["e"]
        yield self.body

    def walk(self):
        for r in self.roots():
            yield from r.walk()

    def find(self, *k):
        for n in self.walk():
            if n.k in k:
                yield n

    @property
    def loc(self):
        return f"{self.file}:{self.l}"

    def __repr__(self):
        return f"<Fn {self.q} {self.loc}>"


class Rec:
    def __init__(self, d, S):
        self.q = S[d["q"]]
        self.n = S[d["n"]]
        self.id = S[d["id"]]
        self.cargs = S[d["cargs"]]
        self.file = S[d["file"]]
        self.l = d["l"]
        self.dep = bool(d.get("dep"))
        self.abstract = bool(d.get("abstract"))
        self.agg = bool(d.get("agg"))
        self.struct = bool(d.get("struct"))
        self.bases = [(S[x], S[y]) for x, y in d["bases"]]
        self.fields = []
        for f in d["fields"]:
            g = {k: (S[v] if k in ("n", "id", "ty") else v) for k, v in f.items()}
            if "ie" in g:
                g["ie"] = conv(g["ie"], S, None, None) if g["ie"] else None
            self.fields.append(g)
        self.methods = [{k: (S[v] if k in ("n", "id") else v) for k, v in f.items()}
                        for f in d["methods"]]

    @property
    def loc(self):
        return f"{self.file}:{self.l}"

    def __repr__(self):
        return f"<Rec {self.q} {self.loc}>"


TRANSPARENT_CALLS = {
    "std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref",
}
DEREF_OPS = {"*", "->"}


class Prog:
    def __init__(self, only=None):
        paths, self.key, self.extract_s = facts(only=only)
        self.fns = []                       # all function variants
        self.by_id = defaultdict(list)
        self.recs = []
        self.rec_by_id = defaultdict(list)
        self.macros = set()
        seen = set()
        self.tus = sorted(paths)
        self.soft = getattr(facts, "soft", [])
        for tu in self.tus:
            lines = open(paths[tu]).read().split("\n")
            S = json.loads(lines[-2])["s"] if lines[-1] == "" else json.loads(lines[-1])["s"]
            for ln in lines:
                if not ln or ln.startswith('{"t":"str"'):
                    continue
                d = json.loads(ln)
                if d["t"] == "fn":
                    if S[d["file"]].startswith(("tests/", "/verif")):
                        continue
                    key = (S[d["id"]], d["h"])
                    if key in seen:
                        continue
                    seen.add(key)
                    f = Fn(d, S, tu)
                    self.fns.append(f)
                    self.by_id[f.id].append(f)
                elif d["t"] == "rec":
                    key = ("R", S[d["id"]], S[d["cargs"]], d.get("dep"))
                    if key in seen:
                        continue
                    seen.add(key)
                    r = Rec(d, S)
                    if r.file.startswith("/"):
                        continue
                    self.recs.append(r)
                    self.rec_by_id[r.id].append(r)
                elif d["t"] == "macros":
                    for m in d["u"]:
                        self.macros.add(tuple(m))
        # a template pattern is only kept when no instantiation exists
        for i, v in self.by_id.items():
            nd = [f for f in v if not f.dep]
            if nd:
                self.by_id[i] = nd
        self.fns = [f for v in self.by_id.values() for f in v]
        self.overriders = defaultdict(set)
        for f in self.fns:
            for o in f.ov:
                self.overriders[o].add(f.id)
        self._lam = None
        self._callers = None

    # ---- functions ------------------------------------------------------
    def one(self, fid):
        v = self.by_id.get(fid)
        return v[0] if v else None

    def named(self, q):
        """functions whose qualified name ends with q"""
        r = []
        for f in self.fns:
            if f.q == q or f.q.endswith("::" + q):
                r.append(f)
        return r

    def rec_named(self, q):
        return [r for r in self.recs if r.q == q or r.q.endswith("::" + q)]

    def all_overriders(self, fid):
        out, st = set(), [fid]
        while st:
            x = st.pop()
            for o in self.overriders.get(x, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return out

    def targets(self, call):
        """definitions a call may reach (virtual dispatch included)"""
        i = call.a.get("id")
        if not i:
            return []
        out = list(self.by_id.get(i, ()))
        if call.a.get("virt") and not call.a.get("qual"):
            for o in self.all_overriders(i):
                out += self.by_id.get(o, ())
        if "ca" in call.a and len(out) > 1:
            x = [f for f in out if f.cargs == call.a["ca"] and f.targs == (call.a.get("targs") or "")]
            if x:
                return x
        return out

    @property
    def lambdas(self):
        if self._lam is None:
            self._lam = {}
            for f in self.fns:
                for n in f.find("lambda"):
                    self._lam.setdefault(n.a["id"], n)
        return self._lam

    def callers(self):
        if self._callers is None:
            m = defaultdict(list)
            for f in self.fns:
                for n in f.find("call", "ctor"):
                    i = n.a.get("id")
                    if i:
                        m[i].append((f, n))
            self._callers = m
        return self._callers


# ---- expression helpers -------------------------------------------------
def is_call(n, *names):
    return n is not None and n.k == "call" and short(n.a.get("q", "")) in names


def short(q):
    return q.rsplit("::", 1)[-1] if q else q


def obj_of(call):
    """object expression of a member call (None for implicit this)"""
    if call.k == "call" and call.a.get("m") and call.c:
        return call.c[0]
    return None


def args_of(call):
    if call.k == "call" and call.a.get("m"):
        return call.c[1:]
    return call.c


def unwrap(n):
    """strip casts / moves / single-argument copies"""
    while n is not None:
        if n.k in ("cast", "defarg") and len(n.c) == 1:
            n = n.c[0]
        elif n.k == "ctor" and n.a.get("copy") and len(n.c) == 1:
            n = n.c[0]
        elif n.k == "call" and n.a.get("q") in TRANSPARENT_CALLS and n.c:
            n = n.c[0]
        elif n.k == "il" and len(n.c) == 1:
            n = n.c[0]
        else:
            break
    return n


def literal(n):
    n = unwrap(n)
    if n is None:
        return None
    if n.k == "lit":
        return n.a.get("v")
    if n.k == "un" and n.a.get("op") == "-":
        v = literal(n.c[0])
        return "-" + v if v is not None else None
    if n.k == "ctor" and "string" in (n.a.get("q") or "") and n.c:
        return literal(n.c[0])
    return None


def str_literal(n):
    n = unwrap(n)
    if n is None:
        return None
    if n.k == "lit" and n.a.get("lt") == "str":
        return n.a.get("v")
    if n.k == "ctor" and n.c and ("string" in (n.a.get("q") or "")):
        return str_literal(n.c[0])
    return None
