"""Results of searches that may fail: tested before they are used.

State (must / may):
  ne    places of containers known to be non-empty          (must)
  size  (container place, canonical size)                    (must)
  pos   canonical integer expressions known to be positive   (must)
  un    (variable place, container place, kind)              (may)
The analysis starts at functions nobody in the sources calls and follows the
calls that can reach a search; a function whose parameters are searched is
therefore judged with the facts of its callers.
"""
from canon import *
from util import *
import os, re
from extract import REPO

FIND = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "adjacent_find", "find_first_of", "search"}
EXT = {"min_element", "max_element", "minmax_element"}
ENDS = {"end", "cend", "rend", "crend"}
BEGINS = {"begin", "cbegin", "rbegin", "crbegin"}
GROW = {"push_back", "emplace_back", "emplace", "insert", "push", "push_front", "emplace_front", "try_emplace", "insert_or_assign"}
SHRINK = {"clear", "erase", "pop_back", "pop_front", "pop", "swap", "extract", "remove", "remove_if", "resize", "assign", "reinit"}
POSITIVE = re.compile(r"(n_dofs_per_cell|dofs_per_cell|n_q_points|n_lanes|dofs_per_component|n_vertices|n_active_cells|n_levels|n_global_levels|n_faces|vertices_per_cell|VectorizedArray\w*::size|n_mpi_processes)$")
STD_CONT = re.compile(r"^(const )?(dealii::Vector<|dealii::AlignedVector<|std::(vector|deque|list|map|multimap|set|multiset|unordered_\w+|basic_string|__cxx11::list)|boost::container)")


def std_q(q):
    return q.startswith(("std::", "boost::"))


def peel(n):
    """strip iterator-producing wrappers: casts, next/prev"""
    n = unwrap(n)
    while n is not None and n.k == "ctor" and len(n.c) == 1:
        n = unwrap(n.c[0])
    return n


def entrywise(lhs, rhs):
    """vector = number: the entries change, their number does not"""
    l, r = unwrap(lhs), unwrap(rhs)
    if l is None or r is None or not clean_ty(l.a.get("ty") or "").startswith("dealii::"):
        return False
    while r.k == "un" and r.c:
        r = unwrap(r.c[0])
    if r.k == "lit":
        return r.a.get("lt") in ("float", "int")
    return re.match(r"^(const )?(double|float|int|unsigned int|unsigned)( &)?$", (r.a.get("ty") or "").strip()) is not None


class Look(Flow):
    def __init__(self, E, C, rel, report):
        super().__init__(E)
        self.C = C
        self.rel = rel
        self.report = report
        self.cur = None

    def want(self, callee, call, fr):
        if isinstance(callee, Fn):
            return callee.id in self.rel
        return True

    def join(self, a, b):
        return (a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] | b[3])

    # -- helpers --------------------------------------------------------
    def container_of_iter(self, n, fr, names=BEGINS | ENDS):
        n, fr = self.E.origin(peel(n), fr)
        n = peel(n)
        if n is not None and n.k == "call" and short(n.a.get("q") or "") in names and n.c:
            return self.E.place(n.c[0], fr), n.c[0]
        return None, None

    def search(self, n, fr):
        """(kind, container place, container expr) of a search call"""
        n = peel(n)
        if n is None or n.k != "call":
            return None
        q = n.a.get("q") or ""
        s = short(q)
        if not std_q(q):
            return None
        if n.a.get("m") and s in ("find", "lower_bound", "upper_bound") and "basic_string" not in q:
            return "find", self.E.place(n.c[0], fr), n.c[0], None
        if not n.a.get("m") and s in FIND | EXT and n.c:
            p, x = self.container_of_iter(n.c[0], fr)
            return ("find" if s in FIND else "ext"), p, x, (canon(self.E, n.c[1], fr) if len(n.c) > 1 else None)
        return None

    def positive(self, e, fr, st):
        v = literal(e)
        if v is not None:
            try:
                return int(v.rstrip("uUlL")) > 0
            except ValueError:
                return False
        n, f2 = self.E.origin(e, fr)
        n = unwrap(n)
        if n is None:
            return False
        if n.a.get("cv") is not None:
            try:
                return int(n.a["cv"]) > 0
            except ValueError:
                pass
        if n.k == "lit":
            return self.positive(n, f2, st) if n is not e else False
        if n.k == "bin" and n.a["op"] == "+":
            return self.positive(n.c[0], f2, st) or self.positive(n.c[1], f2, st)
        if n.k == "bin" and n.a["op"] == "*":
            return self.positive(n.c[0], f2, st) and self.positive(n.c[1], f2, st)
        nm = n.a.get("q") or n.a.get("n") or ""
        if POSITIVE.search(nm):
            return True
        if n.k == "call" and short(nm) in ("size", "n_elements") and n.c and self.nonempty(self.E.place(n.c[0], f2), n.c[0], f2, st):
            return True
        return canon(self.E, e, fr) in st[2]

    def nonempty(self, p, x, fr, st):
        if p is not None and p in st[0]:
            return True
        ty = (x.a.get("ty") if x is not None else "") or ""
        ty = ty.replace("const ", "")
        m = re.match(r"std::array<.*, (\d+)>", ty.rstrip(" &"))
        if m:
            return int(m.group(1)) > 0
        if "dealii::VectorizedArray" in ty.split("<")[0] or ty.startswith(("dealii::Point", "dealii::Tensor")):
            return True
        if p is not None:
            for q, c in st[1]:
                if q == p and (c in st[2] or isinstance(c, tuple) and any(t in st[2] and v in st[2] for t, v in c)):
                    return True
        return False

    def set_facts(self, p, e, fr, st):
        """container p receives the value e"""
        st = self.kill(p, st)
        e = peel_ctor(e)
        if e is None:
            return st
        e2, f2 = (e, fr) if e.k in ("il", "ctor") else self.E.origin(e, fr)
        e2 = peel_ctor(e2)
        if e2 is None:
            return st
        if e2.k == "il":
            return (st[0] | {p}, *st[1:]) if len(e2.c) > 0 else st
        if e2.k == "ctor":
            a = [x for x in e2.c if x is not None and x.k != "defarg"]
            if not a:
                return st
            a0 = peel_ctor(a[0])
            if a0 is not None and a0.k == "il":
                return (st[0] | {p}, *st[1:]) if a0.c else st
            src, x = self.container_of_iter(a[0], f2, BEGINS)
            if src is not None:
                return (st[0] | {p}, *st[1:]) if self.nonempty(src, x, f2, st) else st
            return self.sized(p, a[0], f2, st)
        q = self.E.place(e2, f2)
        if q is not None and q[0] not in ("tmp", "?"):
            if self.nonempty(q, e2, f2, st):
                return (st[0] | {p}, *st[1:])
        return st

    def sized(self, p, e, fr, st):
        if self.positive(e, fr, st):
            return (st[0] | {p}, *st[1:])
        x, f2 = self.E.origin(e, fr)
        x = unwrap(x)
        if x is not None and x.k == "cond":
            c = canon(self.E, x.c[0], f2)
            alt = tuple((t + c, canon(self.E, y, f2)) for t, y in (("true:", x.c[1]), ("false:", x.c[2])))
            return (st[0], st[1] | {(p, alt)}, st[2], st[3])
        ty = clean_ty((unwrap(e).a.get("ty") or "")) if unwrap(e) is not None else ""
        if "int" in ty or "long" in ty or ty.endswith("size_type") or ty.startswith("unsigned"):
            return (st[0], st[1] | {(p, canon(self.E, e, fr))}, st[2], st[3])
        return st

    def kill(self, p, st):
        if p is None:
            return st
        t = place_str(p)
        return (frozenset(x for x in st[0] if not prefix(p, x)), frozenset(x for x in st[1] if not prefix(p, x[0])),
                frozenset(x for x in st[2] if t not in x), st[3])

    def vplace(self, x, fr, st):
        """place of a variable holding a search result (also when it is a reference to a temporary)"""
        x = unwrap(x)
        if x is None or x.k not in ("ref", "mem"):
            return None
        if x.k == "ref" and x.a.get("dk") == "var":
            own = self.E.owner(fr, x.a["id"])
            v = ("var", x.a["id"], own.uid)
            if any(u[0] == v for u in st[3]):
                return v
        return self.E.place(x, fr)

    def forget(self, p, st):
        return (st[0], st[1], st[2], frozenset(x for x in st[3] if x[0] != p))

    # -- hooks ----------------------------------------------------------
    def on_decl(self, v, fr, st):
        p = ("var", v.a["id"], fr.uid)
        st = self.kill(p, self.forget(p, st))
        e = v.c[0] if v.c else None
        if e is None:
            return st
        return self.bind(p, v.a.get("ty") or "", e, fr, st, bool(v.a.get("ref")))

    def bind(self, p, ty, e, fr, st, ref=False):
        s = self.search(e, fr)
        if s is not None:
            if s[0] == "ext" and self.nonempty(s[1], s[2], fr, st):
                return st
            return (st[0], st[1], st[2], st[3] | {(p, s[1], s[0], s[3])})
        x = unwrap(e)
        if x is not None and x.k == "cast" and x.a.get("ck") == "dyn":
            return (st[0], st[1], st[2], st[3] | {(p, None, "cast", None)})
        # copies of unchecked iterators
        q = self.E.place(e, fr) if x is not None and x.k == "ref" else None
        if q is not None:
            for u in st[3]:
                if u[0] == q:
                    st = (st[0], st[1], st[2], st[3] | {(p, u[1], u[2], u[3])})
        if not ref and STD_CONT.match(ty):
            return self.set_facts(p, e, fr, st)
        return st

    def on_assign(self, n, lhs, rhs, fr, st):
        if n.a.get("op") != "=":
            p = self.E.place(lhs, fr)
            return self.kill(p, st) if n.k == "bin" else st
        l = unwrap(lhs)
        if l is not None and l.k == "call" and short(l.a.get("q") or "") == "tie":
            for x in l.c:
                p = self.E.place(x, fr)
                st = self.kill(p, self.forget(p, st))
            return st
        p = self.E.place(lhs, fr)
        if p is None:
            return st
        if entrywise(lhs, rhs):
            return st               # every entry gets the value, the number of entries stays
        st = self.forget(p, st)
        st = self.kill(p, st)
        return self.bind(p, (unwrap(lhs).a.get("ty") if unwrap(lhs) is not None else "") or "", rhs, fr, st)

    def on_incdec(self, n, fr, st):
        p = self.E.place(n.c[0], fr)
        return self.kill(p, self.forget(p, st))

    def s_blk(self, n, fr, st):
        if (n.mac or "").split(",")[-1] in ("Assert", "AssertIndexRange", "AssertDimension"):
            txt = source(n)
            for u in list(st[3]):
                nm = var_name(self, u[0])
                if nm and re.search(r"\b" + re.escape(nm) + r"\b", txt):
                    st = self.forget(u[0], st)
            return st
        return super().s_blk(n, fr, st)

    def s_rfor(self, n, fr, st):
        st = self.ev(n.c[1], fr, st)
        if st is None:
            return None
        p = self.E.place(n.c[1], fr)
        s2 = (st[0] | {p}, *st[1:]) if p is not None else st
        out = self.loop(n, None, n.c[2], None, fr, s2)
        return self.j(out, st)

    def on_cond(self, n, truth, fr, st):
        while n.k == "cast" and len(n.c) == 1:
            n = n.c[0]
        op = n.a.get("op")
        if n.k in ("ref", "mem") and clean_ty(n.a.get("ty")) == "bool":
            return (st[0], st[1], st[2] | {("true:" if truth else "false:") + canon(self.E, n, fr)}, st[3])
        if n.k == "ref" or n.k == "mem":
            if truth:
                return self.forget(self.vplace(n, fr, st), st)
            return st
        if n.k == "call" and short(n.a.get("q") or "") == "empty" and n.c:
            p = self.E.place(n.c[0], fr)
            if p is not None and not truth:
                return (st[0] | {p}, *st[1:])
            return st
        if n.k == "call" and short(n.a.get("q") or "") in ("size", "count", "contains") and n.c:
            p = self.E.place(n.c[0], fr)
            if truth and p is not None:
                return (st[0] | {p}, *st[1:])
            return st
        ch = n.c
        if op in ("==", "!=") and len(ch) == 2:
            eq = (op == "==") == truth
            # comparisons with false / true
            for a, b in (ch, ch[::-1]):
                v = literal(b)
                if v in ("true", "false"):
                    return self.on_cond(unwrap(a), (v == "true") == eq, fr, st)
            for a, b in (ch, ch[::-1]):
                p = self.vplace(a, fr, st)
                bb, bf = self.E.origin(peel(b), fr)
                bb = peel(bb)
                hits = [u for u in st[3] if u[0] == p] if p is not None else []
                if hits:
                    isend = False
                    if bb is not None and bb.k == "call" and short(bb.a.get("q") or "") in ENDS and bb.c:
                        bp = self.E.place(bb.c[0], bf)
                        isend = all(u[1] is None or bp is None or u[1] == bp for u in hits)
                    elif bb is not None and bb.k in ("nullptr", "lit", "zero"):
                        isend = True
                    elif bb is not None and not (bb.k == "call" and short(bb.a.get("q") or "") in BEGINS):
                        isend = all(u[3] is not None and u[3] == canon(self.E, b, fr) for u in hits)
                    if isend and not eq:
                        return self.forget(p, st)
                    if isend and eq:
                        return st
                    if bb is not None and bb.k == "call" and short(bb.a.get("q") or "") in BEGINS and eq and bb.c:
                        if self.nonempty(self.E.place(bb.c[0], bf), bb.c[0], bf, st):
                            return self.forget(p, st)
                if bb is not None and bb.k == "call" and short(bb.a.get("q") or "") in ENDS and not eq:
                    x = peel(a)
                    if x is not None and x.k == "call" and short(x.a.get("q") or "") in ("find",) and x.c and x.a.get("m"):
                        c = self.E.place(x.c[0], fr)
                        if c is not None:
                            st = (st[0] | {c}, *st[1:])
                    if x is not None and x.k == "call" and short(x.a.get("q") or "") in BEGINS:
                        c = self.E.place(x.c[0], fr)
                        if c is not None:
                            st = (st[0] | {c}, *st[1:])
        if op in ("<", ">", "<=", ">=", "==", "!=") and len(ch) == 2:
            for a, b, o in ((ch[0], ch[1], op), (ch[1], ch[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                # a o b : is a > 0 ?
                o2 = o if truth else {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[o]
                v = literal(b)
                good = False
                if v is not None and re.fullmatch(r"\d+[uUlL]*", v):
                    k = int(v.rstrip("uUlL"))
                    good = (o2 == ">") or (o2 == ">=" and k > 0) or (o2 == "!=" and k == 0) or (o2 == "==" and k > 0)
                elif o2 == ">" and "double" not in (unwrap(b).a.get("ty") or "" if unwrap(b) is not None else ""):
                    t = (unwrap(b).a.get("ty") or "") if unwrap(b) is not None else ""
                    good = "unsigned" in t or "size_t" in t or "size_type" in t
                if good:
                    st = self.mark_pos(a, fr, st)
        return st

    def mark_pos(self, a, fr, st):
        x, f2 = self.E.origin(a, fr)
        x = unwrap(x)
        c = canon(self.E, a, fr)
        st = (st[0], st[1], st[2] | {c}, st[3])
        if x is not None and x.k == "call" and short(x.a.get("q") or "") in ("size", "n_elements") and x.c:
            p = self.E.place(x.c[0], f2)
            if p is not None:
                st = (st[0] | {p}, *st[1:])
        return st

    def deref(self, x, n, fr, st):
        """x is dereferenced at n"""
        self.cur = st
        x = peel(x)
        if x is None:
            return st
        s = self.search(x, fr)
        what = None
        if s is not None:
            if s[0] == "ext":
                ok = self.nonempty(s[1], s[2], fr, st)
                self.report(n, fr, ok, "ext", s[1], s[2], "the extremum of a range that may be empty is used")
            else:
                self.report(n, fr, False, "find", s[1], s[2], "the result of a search is used although nothing may have been found")
            return st
        if x.k == "call" and short(x.a.get("q") or "") in BEGINS and x.c and std_q(x.a.get("q") or ""):
            ty = x.c[0].a.get("ty") or ""
            p = self.E.place(x.c[0], fr)
            ok = self.nonempty(p, x.c[0], fr, st)
            self.report(n, fr, ok, "first", p, (n.c[0] if n.k == "call" and short(n.a.get("q") or "") in ("front", "back", "top") else x.c[0]), "the first or last element of a container that may be empty is used")
            return st
        p = self.vplace(x, fr, st) if x.k in ("ref", "mem") else None
        if p is not None:
            hit = [u for u in st[3] if u[0] == p]
            for u in hit:
                ok = u[2] == "ext" and u[1] is not None and u[1] in st[0]
                self.report(n, fr, ok, u[2], u[1], None,
                            "a pointer that may be null after a cast is used" if u[2] == "cast" else "the result of a search is used although nothing may have been found")
            if not hit and x.k == "ref" and re.search(r"iterator", x.a.get("ty") or ""):
                self.report(n, fr, True, "find", None, None, "tested iterator")
        return st

    def on_node(self, n, fr, st):
        if n.k == "un" and n.a.get("op") == "*":
            return self.deref(n.c[0], n, fr, st)
        if n.k == "mem" and n.a.get("arrow") and n.c and n.c[0] is not None:
            x = unwrap(n.c[0])
            if x is not None and x.k in ("ref", "mem"):
                return self.deref(x, n, fr, st)
        return st

    def on_call(self, n, fr, st):
        if n.a.get("op") == "=" and len(n.c) == 2 and entrywise(*n.c):
            return st
        op = n.a.get("op")
        q = n.a.get("q") or ""
        s = short(q)
        if op in ("->",) or (op == "*" and len(n.c) == 1):
            return self.deref(n.c[0], n, fr, st)
        if n.a.get("arrow") and n.a.get("m") and n.c:
            st = self.deref(n.c[0], n, fr, st)
        if n.a.get("m") and std_q(q) and n.c:
            p = self.E.place(n.c[0], fr)
            ty = n.c[0].a.get("ty") or ""
            if s in ("front", "back", "top") and STD_CONT.match(ty.replace("const ", "")):
                ok = self.nonempty(p, n.c[0], fr, st)
                self.cur = st
                self.report(n, fr, ok, "first", p, (n.c[0] if n.k == "call" and short(n.a.get("q") or "") in ("front", "back", "top") else x.c[0]), "the first or last element of a container that may be empty is used")
                return st
            if s == "erase" and len(n.c) > 1:
                x = peel(n.c[1])
                if x is not None and "iterator" in (x.a.get("ty") or ""):
                    st = self.deref(x, n, fr, st)
            if s in GROW or (op == "[]" and "map" in ty.split("<")[0] and p is not None):
                return (st[0] | {p}, *st[1:]) if p is not None else st
            if s in SHRINK:
                st = self.kill(p, st)
                if s in ("resize", "assign") and len(n.c) > 1 and p is not None:
                    x = unwrap(n.c[1])
                    if x is not None and "iterator" in (x.a.get("ty") or ""):
                        return st
                    return self.sized(p, n.c[1], fr, st)
                return st
        if s in ("advance",) and n.c:
            return self.forget(self.E.place(n.c[0], fr), st)
        # un-inlined non-const reference arguments
        cal = self.E.callees(n, fr)
        if not cal or not any(self.want(c, n, fr) for c in cal):
            for x, kind, _ in write_targets(n):
                if kind in ("arg", "call") and not (kind == "arg" and self.keeps(n, x, cal)):
                    st = self.kill(self.E.place(x, fr), st)
        return self.enter(n, fr, st)

    # fill an array of the right length
    FILLS = {"get_dof_values", "get_function_values", "get_dof_indices", "get_interpolated_dof_values", "get_function_gradients", "get_function_hessians"}

    def keeps(self, n, x, cal, depth=0):
        """the callee cannot remove elements from the container handed to it"""
        s = short(n.a.get("q") or "")
        if not cal:
            return s in self.FILLS
        if depth > 4 or not all(isinstance(c, Fn) for c in cal):
            return False
        a = args_of(n)
        if not any(y is x for y in a):
            return False
        i = next(k for k, y in enumerate(a) if y is x)
        for c in cal:
            if i >= len(c.params) or c.body is None:
                return False
            pid = c.params[i][1]
            me = lambda e: e is not None and e.k == "ref" and e.a.get("id") == pid
            for m in c.body.walk():
                if m.k == "ret" and m.c and me(unwrap(m.c[0])):
                    return False
                if m.k == "bin" and m.a.get("op") == "=" and me(unwrap(m.c[0])):
                    return False
                if m.k == "decl" and m.c and me(unwrap(m.c[0])) and "&" in (m.a.get("ty") or ""):
                    return False
                if m.k not in ("call", "ctor"):
                    continue
                for y, kind, _ in write_targets(m):
                    if not me(unwrap(y)):
                        continue
                    t = short(m.a.get("q") or "")
                    if kind == "call" and t not in SHRINK and m.a.get("op") not in ("=", ">>"):
                        continue
                    if kind == "arg" and m.k == "call":
                        if self.P.targets(m) and all(q.id == c.id for q in self.P.targets(m)):
                            continue
                        if self.keeps(m, y, self.P.targets(m), depth + 1):
                            continue
                    return False
        return True


def peel_ctor(n):
    while n is not None and (n.k in ("cast", "defarg") and len(n.c) == 1 or n.k == "ctor" and n.a.get("copy") and len(n.c) == 1 and n.c[0] is not None
                             or n.k == "call" and n.a.get("q") in TRANSPARENT_CALLS and n.c):
        n = n.c[0]
    return n


_src = {}


def source(n):
    f = n.f or (n.fn.file if n.fn else None)
    if f is None:
        return ""
    if f not in _src:
        try:
            _src[f] = open(os.path.join(REPO, f)).read().split("\n")
        except OSError:
            _src[f] = []
    return "\n".join(_src[f][n.l - 1:(n.a.get("e") or n.l) + 12]).split(";")[0]


def var_name(F, p):
    if p is None or p[0] != "var":
        return None
    m = re.match(r"(.*):(\d+):(\d+)$", p[1])
    if not m:
        return None
    f, l, c = m.group(1), int(m.group(2)), int(m.group(3))
    if f not in _src:
        try:
            _src[f] = open(os.path.join(REPO, f)).read().split("\n")
        except OSError:
            _src[f] = []
    if l > len(_src[f]):
        return None
    m = re.match(r"[A-Za-z_]\w*", _src[f][l - 1][c - 1:])
    return m.group(0) if m else None


def is_lookup(n):
    if n.k == "call":
        q = n.a.get("q") or ""
        s = short(q)
        if std_q(q) and (s in FIND | EXT) and "basic_string" not in q:
            return True
        if std_q(q) and s in ("front", "back", "top") and n.a.get("m"):
            return True
        if n.a.get("op") in ("*", "->") and n.c and is_begin(n.c[0]):
            return True
    if n.k == "un" and n.a.get("op") == "*" and n.c and is_begin(n.c[0]):
        return True
    return n.k == "cast" and n.a.get("ck") == "dyn"


def is_begin(x):
    x = peel(x)
    return x is not None and x.k == "call" and short(x.a.get("q") or "") in BEGINS and std_q(x.a.get("q") or "")


def run(P, E, C):
    direct = {f.id for f in P.fns if any(is_lookup(n) for n in f.walk())}
    rel = {f.id for f in P.fns if f.id in direct and needs_context(f)}
    roots = []
    for f in P.fns:
        if f.id in direct and f.id not in rel:
            roots.append(f)
        elif f.id not in rel and any(t.id in rel for n in f.find("call") for t in P.targets(n)):
            roots.append(f)
    seen = {}

    def report(n, fr, ok, kind, p, x, text, st=None):
        if n.f is None and n.fn is None:
            return
        k = (n.loc, kind, n.a.get("op"))
        old = seen.get(k)
        if old is None or (old[0] and not ok):
            seen[k] = (ok, kind, p, text, n, x, [c for q, c in (F.cur[1] if F.cur else ()) if q == p])

    F = Look(E, C, rel, report)
    E0 = frozenset()
    for f in roots:
        try:
            F.stack = [f.id]
            F.run(f, (E0, E0, E0, E0))
        except AnalysisError as e:
            C.note(f"{f.q}: {e}")
    for (loc, kind, op), (ok, kk, p, text, n, x, szs) in sorted(seen.items(), key=lambda x: x[0][0]):
        key = f"{n.fn.q if n.fn else ''}:{kind}:{key_place(p)}"
        if not ok and kind in ("ext", "first") and not may_be_empty(P, E, p, x, szs):
            C.note(f"{loc}: {text} (nothing known about the container)")
            continue
        C.judge(ok, "lookup", key, loc, text if not ok else f"{kind}: established before use")


def key_place(p):
    return re.sub(r"\$?[\w./-]*:\d+:\d+", "local", place_str(p)) if p else ""


def needs_context(f):
    """a container searched or measured here is, or takes its size from, a parameter"""
    ids = {p[1] for p in f.params}
    decl = {n.a["id"]: n for n in f.find("var")}

    def from_param(e, depth=0):
        for x in e.walk():
            if x.k == "ref" and x.a.get("id") in ids and STD_CONT.match((x.a.get("ty") or "").replace("const ", "")):
                return True
            if x.k == "ref" and x.a.get("id") in decl and depth < 3:
                v = decl[x.a["id"]]
                if STD_CONT.match((v.a.get("ty") or "").replace("const ", "")) and v.c and v.c[0] is not None and from_param(v.c[0], depth + 1):
                    return True
        return False
    return any(is_lookup(n) and from_param(n) for n in f.walk())


LOCAL_COUNT = re.compile(r"n_cell_batches|n_locally|locally_owned|n_ghost|local_size|n_particles|n_segments|particle_(centers|radii)|grains?\.size")


def may_be_empty(P, E, p, x, szs=()):
    """is there evidence that the container can be empty?  Locals and parameters:
    nothing guarantees an element.  Members: some code tests or clears them.
    Elements of other containers: unknown"""
    if p is None or p[0] == "tmp":
        return False
    if p[0] == "var":
        if len(p) != 3:
            return False
        return not szs or any(LOCAL_COUNT.search(str(c)) for c in szs)
    if p[0] == "this" and len(p) == 2 and x is not None:
        x = unwrap(x)
        return x is not None and x.a.get("id") in emptiable(P)
    return False


def emptiable(P):
    """members which some code clears or tests for emptiness, or which receive
    the value of such a member"""
    r = getattr(P, "_emptiable", None)
    if r is not None:
        return r
    r, flow = set(), {}
    for f in P.fns:
        for n in f.find("call", "bin"):
            if n.k == "call" and short(n.a.get("q") or "") in ("empty", "clear") and n.c:
                y = unwrap(n.c[0])
                if y is not None and y.k == "mem":
                    r.add(y.a.get("id"))
            elif n.a.get("op") == "=" and len(n.c) == 2:
                l, e = unwrap(n.c[0]), unwrap(n.c[1])
                if l is not None and e is not None and l.k == "mem" and e.k == "mem":
                    flow.setdefault(e.a.get("id"), set()).add(l.a.get("id"))
    st = list(r)
    while st:
        for y in flow.get(st.pop(), ()):
            if y not in r:
                r.add(y)
                st.append(y)
    P._emptiable = r
    return r
