"""U01: dimensional homogeneity with respect to the unit of length.

run   every expression is given a power of length (a linear expression over
      unknown exponents); additions, comparisons, assignments and arguments
      equate exponents.  Coordinates, cell diameters, measures and quadrature
      weights are the sources.  A contradiction names the construct.
"""
from fractions import Fraction as Q
import re
from canon import *
from util import *

ONE = "1"


class Ex(dict):
    """linear expression: var -> coefficient, ONE -> constant"""


def const(c):
    return Ex({ONE: Q(c)}) if c else Ex()


def lin(a, b, k=1):
    r = Ex(a)
    for v, c in b.items():
        r[v] = r.get(v, 0) + c * k
        if r[v] == 0:
            del r[v]
    return r


def scale(a, k):
    return Ex({v: c * k for v, c in a.items()}) if k else Ex()


class Lit:
    """a literal: takes any dimension in sums and none in products"""


LIT = Lit()




class Comp:
    """pairs, tuples, maps: a unit per component"""

    def __init__(self, S):
        self.S, self.d, self.up = S, {}, None

    def root(self):
        x = self
        while x.up is not None:
            x = x.up
        return x

    def get(self, k, mk=None):
        r = self.root()
        if k not in r.d:
            r.d[k] = mk() if mk else r.S.fresh()
        return r.d[k]


class Cell:
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = u


COMPT = ("std::pair<", "std::tuple<", "std::map<", "std::unordered_map<", "std::multimap<")
FLAT = ("std::vector<double", "std::vector<float")
SAME = {"abs", "fabs", "real", "norm", "l2_norm", "linfty_norm", "l1_norm", "sum", "min", "max", "fmin", "fmax", "move", "forward",
        "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "front", "back", "at", "value", "min_element", "max_element",
        "next", "prev", "local_element", "as_const", "broadcast", "ceil", "floor", "round", "hypot", "clamp", "mean_value", "add",
        "block", "transpose", "symmetrize", "lower_bound", "upper_bound", "begin_raw", "end_raw", "unroll", "get", "ref", "cref", "side_length",
        "lower_bound_", "diagonal_element", "compute_global_min", "compute_global_max", "gather", "all_gather", "distance_to", "get_boundary_points", "swap"}
PLAIN1 = {"exp", "log", "sin", "cos", "tan", "tanh", "sinh", "cosh", "acos", "asin", "atan", "log2", "log10", "erf"}
# dimension announced by the name of a public accessor
GETTERS = {"get_measure": "dim", "measure": "dim", "get_radius": 1, "get_max_radius": 1, "get_r_max": 1, "get_r_min": 1, "get_radii": 1,
           "get_center": 1, "diameter": 1, "max_diameter": 1}
ACCESSOR = ("dealii::TriaAccessor", "dealii::CellAccessor", "dealii::DoFCellAccessor", "dealii::DoFAccessor", "dealii::TriaIterator",
            "dealii::TriaActiveIterator", "dealii::TriaRawIterator", "dealii::FilteredIterator", "dealii::CellAccessorBase")


class Sys:
    def __init__(self, P, E, C):
        self.P, self.E, self.C = P, E, C
        self.sub = {}
        self.n = 0
        self.fields = {}
        self.checked = 0
        self.steps = 0
        self.bad = {}
        self.stack = []
        self.lams = {}
        self.used = {}
        self.slots = {}
        self.busy = {}
        self.keep = []
        self.pack = {}
        # parameters some call leaves to their default
        self.wild = set()
        # spherical coordinates mix lengths and angles
        self.mixed = set()
        for f in P.fns:
            for n in f.walk():
                if n.k == "call" and short(n.a.get("q") or "").endswith("_spherical"):
                    self.mixed |= {y.a["id"] for a in n.c if a is not None for y in a.walk() if y.k == "ref" and y.a.get("dk") == "var"}
                if n.k in ("call", "ctor") and any(a is not None and a.k == "defarg" for a in n.c):
                    for t in P.by_id.get(n.a.get("id"), ()):
                        for (nm, pid, ty), a in zip(t.params, args_of(n) if n.k == "call" else n.c):
                            if a is not None and a.k == "defarg":
                                self.wild.add(pid)

    def fresh(self):
        self.n += 1
        return Ex({f"u{self.n}": Q(1)})

    def norm(self, e):
        todo = [v for v in e if v in self.sub]
        while todo:
            r = Ex({v: c for v, c in e.items() if v not in self.sub})
            for v in todo:
                r = lin(r, self.sub[v], e[v])
            e = r
            todo = [v for v in e if v in self.sub]
        return e

    def link(self, a, b):
        ra, rb = a.root(), b.root()
        if ra is rb:
            return []
        rb.up = ra
        todo = []
        for k, v in rb.d.items():
            if k in ra.d:
                todo.append((ra.d[k], v))
            else:
                ra.d[k] = v
        return todo

    def eq(self, a, b, n, what):
        if a is None or b is None or isinstance(a, Lit) or isinstance(b, Lit):
            return
        if isinstance(a, Comp) or isinstance(b, Comp):
            if isinstance(a, Comp) and isinstance(b, Comp):
                for x, y in self.link(a, b):
                    self.eq(x, y, n, what)
            return
        d = self.norm(lin(a, b, -1))
        self.checked += 1
        vs = [v for v in d if v != ONE]
        if not vs:
            if d.get(ONE):
                self.conflict(n, self.norm(a), self.norm(b), what)
            return
        v = max(vs, key=lambda x: int(x[1:]))
        c = d[v]
        self.sub[v] = Ex({w: -k / c for w, k in d.items() if w != v})

    def conflict(self, n, a, b, what):
        f = self.stack[-1][0] if self.stack else None
        root = self.stack[0][0] if self.stack else None
        fa, fb = str(a.get(ONE, 0)), str(b.get(ONE, 0))
        key = (n.loc, what)
        if key not in self.bad:
            self.bad[key] = (f.q if f is not None else "?", n.loc, f"{what}: a quantity of dimension length^{fa} meets one of length^{fb}")

    # ---- types ---------------------------------------------------------
    def mk(self, ty):
        t = clean_ty(ty)
        m = re.match(r"^(std::vector|std::array|std::deque|std::list|std::set|std::optional)<(.*)>$", t)
        while m:
            t = clean_ty(m.group(2))
            m = re.match(r"^(std::vector|std::array|std::deque|std::list|std::set|std::optional)<(.*)>$", t)
        if t.startswith(COMPT):
            return Comp(self)
        return self.fresh()


def targs_of(ty):
    t = clean_ty(ty)
    for w in ("std::unique_ptr<", "std::shared_ptr<"):
        if t.startswith(w):
            t = clean_ty(t[len(w):-1])
    i = t.find("<")
    return t[i + 1:-1] if i >= 0 and t.endswith(">") else ""


def norm_args(s):
    return re.sub(r"\s+", "", s or "").rstrip(",")


def is_int(ty):
    return clean_ty(ty) in ("unsigned int", "int", "bool", "unsigned long", "long", "size_t", "unsigned char", "char", "std::size_t", "short", "unsigned short", "unsigned long long", "long long")


class Inst:
    """one activation of a function (or lambda) being typed"""

    def __init__(self, S, fn, parent=None, body=None, dimension=2):
        self.S, self.fn, self.parent, self.body = S, fn, parent, body
        self.env = parent.env if parent is not None else {}
        self.ret = None
        self.dim = dimension
        self.fr = S.E.root(fn)
        self.this = None

    def cell(self, i, ty=None):
        c = self.env.get(i)
        if c is None:
            c = self.env[i] = Cell(self.S.mk(ty or ""))
        return c

    # ---- places ----------------------------------------------------------
    def lval(self, n):
        """cell of a variable-like expression, or None"""
        y = unwrap(n)
        if y is None:
            return None
        if y.k == "ref" and y.a.get("id") in self.S.mixed:
            return None
        if y.k == "ref" and y.a.get("dk") in ("var", "parm", "binding"):
            return self.cell(y.a.get("id"), y.a.get("ty"))
        if y.k in ("sub",) or (y.k == "call" and (y.a.get("op") in ("[]", "*", "->") or short(y.a.get("q") or "") in ("at", "block", "front", "back", "local_element")) and y.c) or (y.k == "un" and y.a.get("op") in ("*", "&")):
            k = self.slot(y)
            if k is not None:
                c = self.lval(y.c[0])
                if c is None or isinstance(c.u, Comp):
                    return c
                return self.S.slots.setdefault((id(c), k), None) or self.newslot(c, k, y)
            b = unwrap(y.c[0])
            if b is not None and clean_ty(b.a.get("ty")).startswith(("std::map<", "std::unordered_map<")):
                return None
            return self.lval(y.c[0])
        return None

    def newslot(self, c, k, y):
        r = self.S.slots[(id(c), k)] = Cell(self.S.fresh())
        self.S.keep.append(c)
        return r

    def slot(self, y):
        """packed buffers: data[stride * i + offset] addresses the slot of the
        offset; None where all entries share one dimension"""
        if len(y.c) < 2 or y.k == "un":
            return None
        b = unwrap(y.c[0])
        t = clean_ty(b.a.get("ty")) if b is not None else ""
        tens = t.startswith(("dealii::Tensor<1", "dealii::Point"))
        if not (tens or t.startswith(FLAT) or t.endswith("*")):
            return None
        o = self.offset(y.c[1])
        if o is None:
            return None
        const, var, stride = o
        if tens:
            # records stored in a tensor
            return (const, var) if (var and const) or const >= 3 else None
        if const == 0 and var == 0:
            return None
        return (const, var) if stride or self.root_id(b) in self.packed() else None

    def offset(self, e):
        """(constant, number of free terms, number of products) of an index"""
        const, var, stride = 0, 0, 0
        todo = [(unwrap(e), 1)]
        while todo:
            e, sg = todo.pop()
            if e is None:
                return None
            if e.k == "bin" and e.a.get("op") in ("+", "-"):
                todo += [(unwrap(e.c[0]), sg), (unwrap(e.c[1]), sg if e.a["op"] == "+" else -sg)]
                continue
            if e.k == "bin" and e.a.get("op") == "*":
                stride += 1
                continue
            v = self.number(e)
            if v is not None:
                const += sg * v
                continue
            if e.k == "ref":
                o, of = self.S.E.origin(e, self.fr)
                o = unwrap(o)
                if o is not None and o is not e and o.k == "bin" and o.a.get("op") in ("+", "-", "*"):
                    todo.append((o, sg))
                    continue
            var += 1
        return const, var, stride

    def root_id(self, e):
        y = unwrap(e)
        if y is None or y.k not in ("ref", "mem"):
            return None
        return y.a.get("id")

    def packed(self):
        """buffers of this function some access of which addresses an entry
        of a record"""
        r = self.S.pack.get(self.fn.loc)
        if r is None:
            r = self.S.pack[self.fn.loc] = set()
            links = []
            for n in self.fn.walk():
                if n.k == "var" and n.c and n.c[0] is not None and clean_ty(n.a.get("ty")).endswith("*"):
                    for m in n.c[0].walk():
                        if m.k == "sub" or (m.k == "call" and (m.a.get("op") == "[]" or short(m.a.get("q") or "") in ("data", "begin"))):
                            links.append((n.a["id"], self.root_id(m.c[0])))
                if not (n.k == "sub" or (n.k == "call" and n.a.get("op") == "[]")) or len(n.c) < 2:
                    continue
                b = unwrap(n.c[0])
                t = clean_ty(b.a.get("ty")) if b is not None else ""
                if not (t.startswith(FLAT) or t.endswith("*")):
                    continue
                o = self.offset(n.c[1])
                if o and ((o[2] and (o[0] or o[1])) or (t.endswith("*") and o[0] and o[1])) and self.root_id(b):
                    r.add(self.root_id(b))
            for a, b in links:
                if a in r or b in r:
                    r |= {x for x in (a, b) if x}
        return r

    def field(self, y):
        base = y.c[0] if y.c else None
        bt = base.a.get("ty") if base is not None and base.k != "this" else (self.fn.cls or "") + "<" + (self.fn.cargs or "") + ">"
        three = bool(re.search(r"<3\b", bt or ""))
        k = (y.a.get("id"), three)
        c = self.S.fields.get(k)
        if c is None:
            c = self.S.fields[k] = Cell(self.S.mk(y.a.get("ty")))
        return c

    # ---- expressions -------------------------------------------------------
    def U(self, n):
        if n is None:
            return LIT
        u = self.U1(n)
        # counts and indices are free of dimension and mix with everything
        if not isinstance(u, Comp) and n.k != "lambda" and is_int(n.a.get("ty")):
            return LIT
        return u

    def U1(self, n):
        S = self.S
        S.steps += 1
        k = n.k
        if k in ("cast", "defarg"):
            return self.U(n.c[0]) if n.c else LIT
        if k == "lit" or k == "zero":
            return LIT
        if n.a.get("cv") is not None and k == "ref":
            return LIT
        if k == "ref":
            if n.a.get("dk") in ("enumc", "func", "nttp"):
                return LIT
            if n.a.get("dk") == "gvar" or n.a.get("id") in S.mixed:
                return LIT
            u = self.cell(n.a.get("id"), n.a.get("ty")).u
            return S.fresh() if n.a.get("id") in S.wild else u
        if k == "mem":
            nm = n.a.get("n")
            if n.c and n.c[0] is not None and nm in ("first", "second"):
                b = self.U(n.c[0])
                return b.get(nm, lambda: S.mk(n.a.get("ty"))) if isinstance(b, Comp) else S.fresh()
            if n.c and n.c[0] is not None and n.c[0].k != "this":
                self.U(n.c[0])
            if not n.a.get("id") or not (n.a.get("id") or "").startswith(("include/", "applications/", "src/")):
                return S.mk(n.a.get("ty"))
            return self.field(n).u
        if k == "bin":
            return self.binary(n, n.a.get("op"), n.c[0], n.c[1])
        if k == "un":
            op = n.a.get("op")
            u = self.U(n.c[0])
            return LIT if op == "!" else u
        if k == "cond":
            self.U(n.c[0])
            a, b = self.U(n.c[1]), self.U(n.c[2])
            S.eq(a, b, n, "branches of a conditional")
            return b if isinstance(a, Lit) else a
        if k == "sub":
            self.U(n.c[1])
            c = self.lval(n)
            return c.u if c is not None else self.U(n.c[0])
        if k == "il":
            t = clean_ty(n.a.get("ty"))
            if t.startswith(("std::pair<", "std::tuple<")):
                r = Comp(S)
                for j, x in enumerate(n.c):
                    r.d[("first", "second")[j] if t.startswith("std::pair<") and j < 2 else f"<{j}>"] = self.val(self.U(x))
                return r
            rec = self.aggregate(t)
            if rec is not None:
                three = bool(re.search(r"<3\b", t))
                for f, x in zip(rec.fields, n.c):
                    u = self.U(x)
                    c = S.fields.get((f["id"], three))
                    if c is None:
                        c = S.fields[(f["id"], three)] = Cell(S.mk(f["ty"]))
                    S.eq(c.u, u, x if x is not None else n, f"initialisation of {f['n']}")
                return S.fresh()
            r = LIT
            for x in n.c:
                u = self.U(x)
                if isinstance(r, Lit):
                    r = u
                else:
                    S.eq(r, u, n, "entries of a list")
            return r
        if k == "ctor":
            return self.construct(n)
        if k == "call":
            return self.call(n)
        if k == "lambda":
            self.lam(n)
            return S.fresh()
        if k in ("sizeof", "this", "new"):
            for c in n.c:
                self.U(c)
            return S.fresh()
        if k == "throw":
            return LIT
        for c in n.c:
            self.U(c)
        return S.fresh()

    def aggregate(self, t):
        q = t.split("<")[0]
        for r in self.S.P.recs:
            if r.q == q and r.agg and len(r.fields):
                return r
        return None

    def val(self, u):
        return self.S.fresh() if isinstance(u, Lit) else u

    def binary(self, n, op, l, r):
        S = self.S
        if op in ("=", "+=", "-="):
            b = self.U(r)
            c = self.lval(l)
            y = unwrap(l)
            if y is not None and y.k == "mem" and y.c and (y.a.get("n") not in ("first", "second")):
                pass
            if op == "=" and c is not None and y.k == "ref" and self.mentions(r, y.a.get("id")):
                c.u = self.val(b)
                return c.u
            a = c.u if c is not None else self.U(l)
            S.eq(a, b, n, "assignment" if op == "=" else "sum")
            return b if isinstance(a, Lit) else a
        if op in ("*=", "/="):
            b = self.U(r)
            c = self.lval(l)
            a = c.u if c is not None else self.U(l)
            if isinstance(b, Lit):
                return a
            if isinstance(a, (Comp, Lit)) or isinstance(b, Comp) or b is None:
                return a
            new = lin(a, b, 1 if op == "*=" else -1)
            if c is not None:
                c.u = new
            else:
                y = unwrap(l)
                while y is not None and (y.k == "sub" or (y.k == "call" and y.a.get("op") == "[]")) and y.c:
                    y = unwrap(y.c[0])
                if y is not None and y.k == "mem":
                    # members have one dimension
                    S.eq(b, const(0), n, f"factor applied to {y.a.get('n')}")
            return new
        if op in ("+", "-"):
            a, b = self.U(l), self.U(r)
            if isinstance(a, Lit) or isinstance(b, Lit):
                v = self.number(l if isinstance(a, Lit) else r)
                u = b if isinstance(a, Lit) else a
                # constants that are no tolerances are pure numbers
                if v is not None and abs(v) >= Q(1, 100) and not clean_ty(n.a.get("ty")).endswith("*") and not is_int(n.a.get("ty")) and not isinstance(u, (Lit, Comp)):
                    S.eq(u, const(0), n, "constant added")
                return u
            S.eq(a, b, n, "sum" if op == "+" else "difference")
            return a if not isinstance(a, Comp) else a
        if op in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.U(l), self.U(r)
            S.eq(a, b, n, "comparison")
            return LIT
        if op in ("*", "/"):
            a, b = self.U(l), self.U(r)
            if op == "*" and l is r:
                pass
            if isinstance(a, Comp) or isinstance(b, Comp) or a is None or b is None:
                return S.fresh()
            if isinstance(a, Lit) and isinstance(b, Lit):
                return LIT
            if isinstance(a, Lit):
                a = const(0)
            if isinstance(b, Lit):
                b = const(0)
            return lin(a, b, 1 if op == "*" else -1)
        if op == ",":
            self.U(l)
            return self.U(r)
        if op == "%":
            a, b = self.U(l), self.U(r)
            return a
        self.U(l)
        self.U(r)
        return LIT

    def mentions(self, e, i):
        return e is not None and any(y.k == "ref" and y.a.get("id") == i for y in e.walk())

    def number(self, e, depth=0):
        """constant value of an exponent"""
        y = unwrap(e)
        if y is None or depth > 8:
            return None
        if y.a.get("cv") is not None:
            try:
                return Q(str(y.a["cv"]))
            except ValueError:
                return None
        if y.k == "lit":
            try:
                return Q(str(y.a.get("v")).rstrip("fFuUlL"))
            except ValueError:
                return None
        if y.k == "un" and y.a.get("op") == "-":
            v = self.number(y.c[0], depth + 1)
            return -v if v is not None else None
        if y.k == "bin":
            a, b = self.number(y.c[0], depth + 1), self.number(y.c[1], depth + 1)
            if a is None or b is None:
                return None
            op = y.a["op"]
            if op == "/" and is_int(y.c[0].a.get("ty")) and is_int(y.c[1].a.get("ty")):
                return Q(int(a / b)) if b else None
            return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b if op == "/" and b else None
        if y.k == "ref":
            o, _ = self.S.E.origin(y, self.fr)
            if o is not None and o is not y:
                return self.number(o, depth + 1)
        return None

    def construct(self, n):
        S = self.S
        q = n.a.get("q") or ""
        t = clean_ty(n.a.get("ty") or q)
        us = [self.U(x) for x in n.c]
        if n.a.get("copy") and us:
            return us[0]
        if t.startswith(("std::pair<", "std::tuple<")):
            if len(us) >= 2:
                r = Comp(S)
                for j, u in enumerate(us):
                    r.d[("first", "second")[j] if t.startswith("std::pair<") and j < 2 else f"<{j}>"] = self.val(u)
                return r
            return us[0] if us else Comp(S)
        if t.startswith(("dealii::Point", "dealii::Tensor", "dealii::SymmetricTensor", "dealii::VectorizedArray", "dealii::BoundingBox")):
            r = LIT
            for u in us:
                if isinstance(r, Lit):
                    r = u
                else:
                    S.eq(r, u, n, "coordinates")
            return r if not isinstance(r, Lit) else S.fresh()
        if t.startswith(("std::vector<", "std::deque<", "std::array<", "std::set<", "std::list<", "dealii::Vector<", "dealii::LinearAlgebra", "std::optional<")):
            if len(us) >= 2 and not is_int(n.c[1].a.get("ty")):
                return us[1] if not isinstance(us[1], Lit) else S.mk(t)
            if len(us) == 1 and not is_int(n.c[0].a.get("ty")):
                return us[0] if not isinstance(us[0], Lit) else S.mk(t)
            return S.mk(t)
        for f in self.targets(n):
            self.inline(f, n, us, n.c)
        return S.fresh()

    def targets(self, n):
        t = self.S.P.targets(n) if n.k == "call" else list(self.S.P.by_id.get(n.a.get("id"), ()))
        t = [f for f in t if not f.dep and f.body is not None]
        if t and len(set(f.id for f in t)) == 1:
            want = None
            if n.k == "ctor":
                want = targs_of(n.a.get("ty") or n.a.get("q") or "")
            elif n.a.get("m"):
                o = obj_of(n)
                want = self.fn.cargs if o is None or o.k == "this" else targs_of(o.a.get("ty") or "")
            w = t
            if want:
                w = [f for f in w if norm_args(f.cargs) == norm_args(want)] or w
                # bodies shared by instantiations of other dimensions are left out
                d = re.match(r"\s*(\d)\b", want)
                w = [f for f in w if not d or not re.match(r"\s*\d\b", f.cargs or "") or re.match(r"\s*%s\b" % d.group(1), f.cargs)]
            if n.a.get("targs"):
                w = [f for f in w if norm_args(f.targs) == norm_args(n.a.get("targs"))] or w
            w = [f for f in w if f.tu == self.fn.tu] or w
            t = w[:1]
        return t[:1] if not (n.a.get("virt")) else t[:3]

    def inline(self, f, n, us, args):
        S = self.S
        if len(S.stack) > 4 or any(x[0] is f for x in S.stack) or S.steps > self.limit():
            return S.mk(f.rty)
        ins = Inst(S, f)
        ins.env = {}
        for (nm, pid, ty), u, a in zip(f.params, us, args):
            c = self.lval(a) if (is_ref_type(ty) and not ty.strip().startswith("const ")) else None
            if c is not None:
                ins.env[pid] = c
            else:
                ins.env[pid] = Cell(u if u is not None and not isinstance(u, Lit) else S.mk(ty))
        S.stack.append((f, n))
        ins.run()
        S.stack.pop()
        if ins.ret is None or isinstance(ins.ret, Lit):
            return S.mk(f.rty)
        return ins.ret

    def limit(self):
        return self.S.cap

    def lam(self, n):
        """types the body once; parameters are shared by all calls"""
        S = self.S
        key = (n.a.get("id"), id(self.env))
        if key in S.lams:
            return S.lams[key]
        ins = Inst(S, self.fn, parent=self, body=n)
        for nm, pid, ty in n.a.get("params") or ():
            self.cell(pid, ty)
        for c in n.a.get("caps") or ():
            if c.get("init") is not None:
                self.cell(c["id"], c.get("ty")).u = self.val(self.U(c["init"]))
        S.lams[key] = ins
        ins.block(n.c[0] if n.c else None)
        return ins

    def call(self, n):
        S = self.S
        q = n.a.get("q") or ""
        s = short(q or n.a.get("n") or "")
        op = n.a.get("op")
        ch = n.c
        if op and len(ch) == 2 and op not in ("[]", "()", "->", "<<", ">>"):
            if not (op in ("*",) and False):
                return self.binary(n, op, ch[0], ch[1])
        if op in ("<<", ">>"):
            for c in ch:
                self.U(c)
            return S.fresh()
        if op in ("*", "->", "++", "--") and len(ch) >= 1:
            return self.U(ch[0])
        if op == "-" and len(ch) == 1:
            return self.U(ch[0])
        if op == "!" and len(ch) == 1:
            self.U(ch[0])
            return LIT
        if op == "[]":
            self.U(ch[1])
            c = self.lval(n)
            if c is not None:
                return c.u
            b = self.U(ch[0])
            if isinstance(b, Comp) and clean_ty(ch[0].a.get("ty")).startswith(("std::map<", "std::unordered_map<")):
                return b.get("second", lambda: S.mk(n.a.get("ty")))
            if clean_ty(unwrap(ch[0]).a.get("ty") if unwrap(ch[0]) is not None else "").startswith("dealii::"):
                return b if not isinstance(b, Comp) else S.fresh()
            return b
        # callables
        if op == "()" or s == "operator()" or n.a.get("ind"):
            us = [self.U(x) for x in ch[1:]]
            y = unwrap(ch[0]) if ch else None
            lam = self.lookup(ch[0]) if ch else None
            if lam is not None:
                # typed anew for every call
                if S.busy.get(id(lam), 0) > 1 or S.steps > self.limit():
                    return S.mk(n.a.get("ty"))
                S.busy[id(lam)] = S.busy.get(id(lam), 0) + 1
                ins = Inst(S, self.fn, parent=self, body=lam)
                for (nm, pid, ty), u, a in zip(lam.a.get("params") or (), us, ch[1:]):
                    c = self.lval(a) if is_ref_type(ty) and not ty.strip().startswith("const ") else None
                    self.env[pid] = c or Cell(self.val(u))
                for c in lam.a.get("caps") or ():
                    if c.get("init") is not None:
                        self.cell(c["id"], c.get("ty")).u = self.val(self.U(c["init"]))
                ins.block(lam.c[0] if lam.c else None)
                S.busy[id(lam)] -= 1
                return ins.ret if ins.ret is not None and not isinstance(ins.ret, Lit) else S.mk(n.a.get("ty"))
            if y is not None:
                u = self.U(ch[0])
                # element access of tensors and matrices
                if clean_ty(y.a.get("ty")).startswith(("dealii::Point", "dealii::Tensor", "dealii::Vector", "dealii::LinearAlgebra")) and not isinstance(u, Lit):
                    return u
            return S.mk(n.a.get("ty"))
        o = obj_of(n) if n.a.get("m") else None
        args = args_of(n)
        # sources of length
        ot = clean_ty(o.a.get("ty")) if o is not None else ""
        repo = self.targets(n)
        if not repo:
            r = self.known(n, s, o, ot, args)
            if r is not None:
                return r
        if s == "make_pair" or s == "make_tuple" or s == "tie":
            us = [self.U(a) for a in args]
            r = Comp(S)
            for j, u in enumerate(us):
                r.d[("first", "second")[j] if s == "make_pair" else f"<{j}>"] = self.val(u)
            return r
        ou = self.U(o) if o is not None else None
        us = [self.U(a) for a in args]
        if repo:
            r = None
            for f in repo:
                u = self.inline(f, n, us, args)
                if r is None:
                    r = u
            return r
        if isinstance(ou, Comp):
            if s in ("at", "operator[]") and args and clean_ty(ot).startswith(("std::map", "std::unordered")):
                S.eq(ou.get("first"), us[0], n, "key")
                return ou.get("second", lambda: S.mk(n.a.get("ty")))
            if s in ("try_emplace", "emplace", "insert_or_assign") and len(us) == 2:
                S.eq(ou.get("first"), us[0], n, "key")
                S.eq(ou.get("second"), us[1], n, "value") if clean_ty(ot).startswith(("std::map", "std::unordered")) else None
                return S.fresh()
            if s in ("push_back", "emplace_back", "insert") and us:
                if len(us) == 1:
                    S.eq(ou, us[0], n, "appended entry")
                elif s == "emplace_back":
                    for k, u in zip(("first", "second"), us):
                        S.eq(ou.get(k), u, n, "appended entry")
                return S.fresh()
            if s in ("begin", "end", "find", "front", "back", "cbegin", "cend", "at"):
                return ou
        elif o is not None and ou is not None and not isinstance(ou, Lit):
            if s in ("push_back", "emplace_back", "insert", "assign", "push_front") and us and not is_int(args[-1].a.get("ty")):
                # plain buffers may collect quantities of different kinds
                if (len(us) == 1 or s in ("assign",)) and not ot.startswith(("std::vector<double", "std::vector<float")):
                    S.eq(ou, us[-1], n, "appended entry")
                return S.fresh()
            if s == "resize" and len(us) == 2:
                S.eq(ou, us[1], n, "fill value")
                return LIT
        return S.mk(n.a.get("ty") or "") if n.a.get("ty") not in (None, "void") else LIT

    def lookup(self, e):
        y = Engine.strip_fun(e)
        if y is None:
            return None
        if y.k == "lambda":
            return y
        if y.k == "ref":
            info = self.S.E.info(self.fn)
            v = info.decl.get(y.a.get("id"))
            if v is not None and v.c and v.c[0] is not None:
                z = Engine.strip_fun(v.c[0])
                if z is not None and z.k == "lambda":
                    return z
        return None

    def known(self, n, s, o, ot, args):
        S = self.S
        acc = ot.startswith(ACCESSOR) or "Accessor" in ot or "cell_iterator" in ot
        if acc or (o is not None and ("FEValues" in ot or "FEPointEvaluation" in ot or "FEEvaluation" in ot or "FEIntegrator" in ot or "FEFaceEvaluation" in ot or "NonMatching" in ot)):
            d = dim_of(ot, self.fn)
            for a in args:
                self.U(a)
            if s in ("center", "barycenter", "vertex", "quadrature_point", "diameter", "minimum_vertex_distance", "extent_in_direction", "get_quadrature_points", "point"):
                self.mark(n)
                return const(1)
            if s == "measure":
                self.mark(n)
                return const(d)
            if s == "JxW":
                self.mark(n)
                return const(d - 1 if "Face" in ot else d)
            return None
        if s in ("sqrt", "cbrt"):
            u = self.U(args[0])
            self.mark(n)
            return u if isinstance(u, (Lit, Comp)) else scale(u, Q(1, 2) if s == "sqrt" else Q(1, 3))
        if s == "pow" and len(args) == 2:
            u = self.U(args[0])
            if isinstance(u, (Lit, Comp)):
                self.U(args[1])
                return u if isinstance(u, Lit) else S.fresh()
            k = self.number(args[1])
            if k is None:
                S.eq(self.U(args[1]), const(0), n, "exponent")
                return S.fresh()
            if k.denominator > 1:
                k = k.limit_denominator(12)
            self.mark(n)
            return scale(u, k)
        if s in PLAIN1 and len(args) == 1:
            S.eq(self.U(args[0]), const(0), n, f"argument of {s}")
            return const(0)
        if s in ("atan2",) and len(args) == 2:
            S.eq(self.U(args[0]), self.U(args[1]), n, "arguments of atan2")
            return const(0)
        if s in ("fmod", "remainder") and len(args) == 2:
            a, b = self.U(args[0]), self.U(args[1])
            S.eq(a, b, n, "arguments of " + s)
            return a
        if s == "eigenvectors" and o is None:
            r = Comp(S)
            r.d = {"first": self.val(self.U(args[0])), "second": const(0)}
            return r
        if s == "basis_transformation" and o is None and len(args) == 2:
            u, v = self.U(args[0]), self.U(args[1])
            if isinstance(u, (Lit, Comp)) or isinstance(v, (Lit, Comp)):
                return S.fresh()
            # a rotation is free of dimension
            S.eq(v, const(0), n, "rotation")
            return u
        if s == "eigenvalues" and o is None:
            return self.val(self.U(args[0]))
        if s in ("norm_square", "square") and (o is not None or args):
            u = self.U(o if o is not None else args[0])
            return u if isinstance(u, (Lit, Comp)) else scale(u, 2)
        if s in ("fixed_power",) and args:
            u = self.U(args[0])
            k = re.match(r"\s*(-?\d+)", n.a.get("targs") or "")
            return u if isinstance(u, (Lit, Comp)) else scale(u, int(k.group(1))) if k else S.fresh()
        if s in ("distance", "distance_square") and o is not None and len(args) == 1:
            a, b = self.U(o), self.U(args[0])
            S.eq(a, b, n, "distance")
            if isinstance(a, Lit):
                a = b
            return a if isinstance(a, (Lit, Comp)) or s == "distance" else scale(a, 2)
        if s == "distance" and o is None:
            for a in args:
                self.U(a)
            return LIT
        if s == "volume" and "BoundingBox" in ot:
            u = self.U(o)
            return scale(u, dim_of(ot, self.fn)) if not isinstance(u, (Lit, Comp)) else S.fresh()
        if s in ("scalar_product", "outer_product", "cross_product_3d", "contract", "schur_product", "double_contract") and len(args) == 2:
            a, b = self.U(args[0]), self.U(args[1])
            if isinstance(a, (Lit, Comp)) or isinstance(b, (Lit, Comp)):
                return S.fresh()
            return lin(a, b)
        if s == "cross_product_2d":
            return self.U(args[0])
        if s == "invert" and o is None and len(args) == 1:
            u = self.U(args[0])
            return scale(u, -1) if not isinstance(u, (Lit, Comp)) else u
        if s in ("sum", "min", "max") and "MPI" in (n.a.get("q") or ""):
            u = self.U(args[0])
            for a in args[1:]:
                v = self.U(a)
                if len(args) == 3 and a is args[2]:
                    S.eq(u, v, n, "reduced values")
            return u if not isinstance(u, Lit) else S.fresh()
        if s in ("min", "max", "fmin", "fmax", "hypot", "clamp") and len(args) >= 2 and o is None:
            r = LIT
            for a in args[:3 if s == "clamp" else 2]:
                u = self.U(a)
                if isinstance(r, Lit):
                    r = u
                else:
                    S.eq(r, u, n, f"arguments of {s}")
            return r
        if s == "transform" and o is None and len(args) >= 4:
            us = [self.U(a) for a in args[:-1]]
            lam = self.lookup(args[-1])
            if lam is not None:
                ins = self.lam(lam)
                ps = lam.a.get("params") or ()
                src = [us[0]] + ([us[2]] if len(args) == 5 else [])
                for (nm, pid, ty), u in zip(ps, src):
                    S.eq(self.cell(pid, ty).u, u, n, f"argument {nm}")
                S.eq(us[-1], ins.ret, n, "transformed values")
            return us[-1]
        if s in ("copy", "copy_n", "partial_sum") and o is None and len(args) >= 3:
            us = [self.U(a) for a in args]
            if "insert_iterator" not in (args[2].a.get("ty") or ""):
                S.eq(us[0], us[2], n, "copied values")
            return us[2]
        if s in ("accumulate", "reduce") and o is None and len(args) >= 3:
            us = [self.U(a) for a in args]
            if len(args) == 3:
                S.eq(us[0], us[2], n, "accumulated values")
                return us[0]
            return S.mk(n.a.get("ty"))
        if s == "fill" and o is None and len(args) == 3:
            us = [self.U(a) for a in args]
            S.eq(us[0], us[2], n, "fill value")
            return LIT
        if s in ("max_element", "min_element") and o is None:
            us = [self.U(a) for a in args]
            return us[0]
        if s == "get" and (n.a.get("q") or "").startswith("std::") and len(args) == 1 and clean_ty(args[0].a.get("ty")).startswith(("std::tuple", "std::pair", "std::array")):
            u = self.U(args[0])
            k = (n.a.get("targs") or "0").split(",")[0].strip()
            if isinstance(u, Comp):
                if clean_ty(args[0].a.get("ty")).startswith("std::pair") and k in "01":
                    return u.get(("first", "second")[int(k)], lambda: S.mk(n.a.get("ty")))
                return u.get(f"<{k}>", lambda: S.mk(n.a.get("ty")))
            return u
        if s in SAME:
            x = o if o is not None else (args[0] if args else None)
            if x is None:
                return None
            u = self.U(x)
            for a in (args if o is not None else args[1:]):
                self.U(a)
            if isinstance(u, Comp) and s in ("at",):
                return None
            if isinstance(u, (Lit,)):
                return S.mk(n.a.get("ty"))
            if s == "get_boundary_points":
                r = Comp(S)
                r.d = {"first": u, "second": u}
                return r
            if clean_ty(n.a.get("ty")).startswith(COMPT) != isinstance(u, Comp) and not isinstance(u, Comp):
                return S.mk(n.a.get("ty"))
            return u
        return None

    def mark(self, n):
        self.S.used[n.loc] = self.fn.q

    # ---- statements ---------------------------------------------------------
    def run(self):
        f = self.fn
        S = self.S
        for i in f.inits:
            e = i.get("e")
            if e is None:
                continue
            u = self.U(e)
            if i.get("id"):
                three = bool(re.search(r"(^|<|,\s*)3\b", f.cargs or ""))
                c = S.fields.get((i["id"], three))
                if c is None:
                    ty = e.a.get("ty")
                    c = S.fields[(i["id"], three)] = Cell(S.mk(ty))
                S.eq(c.u, u, e, f"initialisation of {i.get('n')}")
        # functions evaluated at a point: coordinates carry the unit of length
        # (the main programs of small applications hard-code their geometry)
        if short(f.q).endswith("value") and "include/" in (f.loc or f.id or "") and f.params and clean_ty(f.params[0][2]).startswith("dealii::Point<"):
            S.eq(self.cell(f.params[0][1], f.params[0][2]).u, const(1), f.body, "coordinates")
        self.block(f.body)
        k = GETTERS.get(short(f.q))
        if k is not None and f.cls and self.ret is not None and not isinstance(self.ret, (Lit, Comp)):
            S.eq(self.ret, const(k if k != "dim" else dim_of("", f)), f.body, f"result of {short(f.q)}")

    def block(self, n):
        S = self.S
        if n is None:
            return
        k = n.k
        if k == "blk":
            for c in n.c:
                self.block(c)
        elif k == "decl":
            for v in n.c:
                self.var(v)
        elif k == "var":
            self.var(n)
        elif k == "if":
            self.block(n.c[0])
            self.expr(n.c[1])
            self.block(n.c[2])
            if len(n.c) > 3:
                self.block(n.c[3])
        elif k == "for":
            self.block(n.c[0])
            self.expr(n.c[1])
            self.block(n.c[3])
            self.expr(n.c[2])
        elif k == "rfor":
            u = self.U(n.c[1])
            v = n.c[0]
            c = self.lval(n.c[1]) if (v.a.get("ref") or is_ref_type(v.a.get("ty"))) else None
            if c is not None and not isinstance(c.u, Comp):
                self.env[v.a["id"]] = c
            else:
                self.env[v.a["id"]] = Cell(self.val(u))
            self.bindings(v, self.env[v.a["id"]].u)
            self.block(n.c[2])
        elif k == "while":
            self.expr(n.c[0])
            self.block(n.c[1])
        elif k == "do":
            self.block(n.c[0])
            self.expr(n.c[1])
        elif k == "switch":
            self.expr(n.c[0])
            self.block(n.c[1])
        elif k in ("case", "default"):
            self.block(n.c[-1])
        elif k == "ret":
            if n.c and n.c[0] is not None:
                u = self.U(n.c[0])
                if self.ret is None or isinstance(self.ret, Lit):
                    self.ret = u
                else:
                    S.eq(self.ret, u, n, "returned values")
        elif k == "try":
            for c in n.c:
                self.block(c if c is None or c.k != "catch" else (c.c[0] if c.c else None))
        elif k in ("break", "cont", "null"):
            pass
        else:
            self.expr(n)

    def expr(self, n):
        if n is None:
            return
        if n.k == "decl":
            self.block(n)
        else:
            self.U(n)

    def var(self, v):
        S = self.S
        i = v.a.get("id")
        e = v.c[0] if v.c else None
        if e is None:
            self.env[i] = Cell(S.mk(v.a.get("ty")))
        else:
            y = unwrap(e)
            if y is not None and y.k == "lambda":
                self.lam(y)
                return
            if (v.a.get("ty") or "").startswith("const ") and clean_ty(v.a.get("ty")) in ("double", "float") and self.number(e) is not None:
                S.wild.add(i)
            u = self.U(e)
            c = self.lval(e) if (v.a.get("ref") and not (v.a.get("ty") or "").startswith("const ")) or i in self.packed() else None
            if c is not None:
                self.env[i] = c
            else:
                self.env[i] = Cell(u if not isinstance(u, Lit) and u is not None else S.mk(v.a.get("ty")))
        self.bindings(v, self.env[i].u)

    def bindings(self, v, u):
        for j, (nm, bid) in enumerate(v.a.get("bind") or ()):
            if isinstance(u, Comp):
                r = u.root()
                t = clean_ty(v.a.get("ty"))
                k = ("first", "second")[j] if j < 2 and f"<{j}>" not in r.d and not t.startswith("std::tuple") else f"<{j}>"
                self.env[bid] = Cell(u.get(k))
            else:
                self.env[bid] = Cell(self.S.fresh())


def dim_of(t, f):
    m = re.search(r"<(\d)", t or "") or re.search(r"^(\d)", (f.cargs or f.targs or "2"))
    return int(m.group(1)) if m else 2


def run(P, E, C):
    S = Sys(P, E, C)
    n = 0
    order = [f for f in P.fns if not f.dep and f.body is not None]
    # functions with sources of length first: errors are then reported where a
    # dimension is misused rather than where it comes from
    import time
    for f in order:
        S.cap = S.steps + 200000
        S.lams = {}
        ins = Inst(S, f)
        S.stack = [(f, None)]
        ins.run()
        n += 1
    for loc in sorted(S.used):
        C.ok("length-power", loc, f"{S.used[loc]}: power of length propagated")
    C.ok("homogeneous", "program", f"{n} functions, {S.checked} equations between dimensions")
    for (loc, what), (fq, where, txt) in sorted(S.bad.items()):
        C.bad("homogeneous", f"{fq}/{what}", where, f"{fq}: {txt}")
    C.need("homogeneous", 1)
    C.need("length-power", 20)
