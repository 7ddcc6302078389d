"""Extension of the formula domain by objects with identity: smart pointers,
containers of them, and library objects described by models."""
from formula import *

NULL = 0


class Ref:
    """smart pointer value; identity is that of the object"""
    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ref) and self.o is x.o

    __hash__ = None


def unbox(v):
    return v.v if isinstance(v, (Box, Slot)) else v


def isnull(v):
    return v is None or (isinstance(v, int) and not isinstance(v, bool) and v == 0) or v == "nullptr"


class Abs(Interp):
    """models: class short name -> python class with a method per member
    function (called with the interpreter, the object and raw arguments)"""

    def __init__(self, P, E, models=None, hook=None):
        super().__init__(P, E, hook=self._hook)
        self.models = models or {}
        self.user = hook
        self.order = {}          # order type of the inputs: representative values

    def rank(self, v):
        if isinstance(v, (int, Fr)):
            return Fr(v)
        if isinstance(v, Rat) and self.order:
            w = v.subst({k: Rat(x) for k, x in self.order.items()}).const()
            return w
        return None

    def truth(self, n, fr):
        v = self.rv(n, fr)
        if isinstance(v, Ref):
            return True
        if isnull(v) and not isinstance(v, int):
            return False
        return super().truth(n, fr)

    def cmp(self, op, a, b, n):
        if self.order and (isinstance(a, Rat) or isinstance(b, Rat)) and isinstance(a, (int, Rat)) and isinstance(b, (int, Rat)):
            x, y = self.rank(a), self.rank(b)
            if x is not None and y is not None:
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if isinstance(a, Ref) or isinstance(b, Ref) or a is None or b is None:
            if op in ("==", "!="):
                eq = (isnull(a) and isnull(b)) or (isinstance(a, Ref) and a == b)
                return eq == (op == "==")
        if op in ("==", "!=") and (isinstance(a, Obj) and isnull(b) or isinstance(b, Obj) and isnull(a)):
            return op == "!="
        if isinstance(a, Obj) and isinstance(b, Obj) and op in ("==", "!="):
            return (a is b) == (op == "==")
        return super().cmp(op, a, b, n)

    def unary(self, n, fr):
        if n.a["op"] == "*":
            v = self.rv(n.c[0], fr)
            if isinstance(v, Ref):
                return v.o
        if n.a["op"] == "!":
            v = self.rv(n.c[0], fr)
            if isinstance(v, Ref):
                return False
            if v is None:
                return True
        return super().unary(n, fr)

    def lvrv(self, n, fr):
        if n is not None and n.k == "mem" and n.a.get("cv") is None:
            b = self.rv(n.c[0], fr) if n.c and n.c[0] is not None else fr[1]
            if isinstance(b, Ptr):
                b = self.deref(b, n)
            if isinstance(b, Ref):
                b = b.o
            if isinstance(b, Obj):
                return Slot(b.f, n.a.get("n"))
            raise Undecided(f"member {n.a.get('n')} at {n.loc}")
        if n is not None and n.k == "lit" and n.a.get("lt") in ("null", "nullptr"):
            return NULL
        return super().lvrv(n, fr)

    def ctor(self, n, fr):
        cls = short(n.a.get("q") or "")
        if cls in self.models and not (n.a.get("copy") and len(n.c) == 1):
            return self.models[cls](self, [self.rv(x, fr) for x in n.c if x is not None and x.k != "defarg"])
        return super().ctor(n, fr)

    def make(self, cls, args, n):
        """new object of a class given by its type text"""
        nm = short(re.sub(r"<.*", "", cls)).strip()
        if nm in self.models:
            return self.models[nm](self, [unbox(a) for a in args])
        cargs = cls[cls.find("<") + 1:-1] if "<" in cls else ""
        c = [f for f in self.P.fns if f.isctor and not f.dep and f.n == nm or (f.isctor and not f.dep and f.q.split("::")[-2:-1] == [nm])]
        c = [f for f in c if (f.cargs or "").replace(" ", "") == cargs.replace(" ", "")] or c
        c = sorted((f for f in c if len(f.params) >= len(args)), key=lambda f: len(f.params))
        if not c:
            raise Undecided("class " + cls)
        f = c[0]
        o = Obj((f.clsid, f.cargs))
        self.call_fn(f, args + self.defaults(f, len(args)), o)
        return o

    def defaults(self, f, k):
        out = []
        for p in f.params[k:]:
            z = zero_of(p[2])
            if z is None:
                raise Undecided("default argument")
            out.append(z)
        return out

    def _hook(self, q, n, I, fr):
        if self.user is not None:
            v = self.user(q, n, I, fr)
            if v is not NotImplemented:
                return v
        s = short(q)
        if n.k == "ctor":
            cls = short(q)
            if cls in ("shared_ptr", "unique_ptr"):
                if not n.c:
                    return NULL
                v = self.rv(n.c[0], fr)
                return v if isinstance(v, Ref) or isnull(v) else Ref(v)
            return NotImplemented
        if s in ("make_shared", "make_unique") and q.startswith("std::"):
            t = (split_args(n.a.get("targs") or "") or [""])[0]
            return Ref(self.make(clean_ty(t), [self.lvrv(x, fr) for x in n.c], n))
        if q == "std::swap" or (s == "swap" and q.startswith("std::") and len(n.c) == 2 and not n.a.get("m")):
            a, b = self.lvrv(n.c[0], fr), self.lvrv(n.c[1], fr)
            if isinstance(a, (Box, Slot)) and isinstance(b, (Box, Slot)):
                a.v, b.v = b.v, a.v
                return None
            if isinstance(a, list) and isinstance(b, list):
                a[:], b[:] = list(b), list(a)
                return None
            raise Undecided("swap at " + n.loc)
        if n.a.get("m") and n.c:
            o = self.rv(n.c[0], fr) if n.c[0] is not None else fr[1]
            if isinstance(o, Ref) and ("_ptr" in q):
                if s in ("operator->", "operator*", "get"):
                    return o.o
                if s == "operator bool":
                    return True
                if s == "reset":
                    self.lvrv(n.c[0], fr).v = NULL if len(n.c) < 2 else self.rv(n.c[1], fr)
                    return None
                if s == "use_count":
                    raise Undecided("use_count")
            if isnull(o) and "_ptr" in q and s == "operator bool":
                return False
            if isinstance(o, Ptr) and isinstance(o.v, list) and 0 <= o.o < len(o.v):
                w = o.v[o.o]
                if isinstance(w, Obj) and hasattr(w, "model"):
                    o = w
            if isinstance(o, Obj) and hasattr(o, "model"):
                m = getattr(o, "m_" + s.replace("operator", "op"), None) if not s.startswith("operator") else o.op(s[8:])
                if m is None:
                    raise Undecided(f"{q} at {n.loc}")
                return m(self, *[self.lvrv(x, fr) for x in n.c[1:] if x is None or x.k != "defarg"])
            if isinstance(o, list):
                r = self.container(o, s, n, fr)
                if r is not NotImplemented:
                    return r
        op = n.a.get("op")
        if op and len(n.c) == 2 and not n.a.get("m"):
            a = self.rv(n.c[0], fr)
            b = self.rv(n.c[1], fr)
            if op in ("==", "!=") and (isinstance(a, Ref) or isinstance(b, Ref) or "shared_ptr" in (n.c[0].a.get("ty") or "") or "unique_ptr" in (n.c[0].a.get("ty") or "")):
                return self.cmp(op, a, b, n)
        if q.startswith("std::"):
            r = self.std(s, q, n, fr)
            if r is not NotImplemented:
                return r
        return NotImplemented

    def container(self, o, s, n, fr):
        a = n.c
        if s == "resize":
            k = self.rv(a[1], fr)
            if not isinstance(k, int):
                raise Undecided("size")
            if k > 4000:
                raise OutOfRange(f"size {k} at {n.loc}")
            t = targ(a[0].a.get("ty") or "", "std::vector") or [""]
            fill = self.rv(a[2], fr) if len(a) > 2 and a[2].k != "defarg" else None
            while len(o) < k:
                z = copyv(fill) if fill is not None else zero_of(t[0])
                o.append(NULL if z is None else z)
            del o[k:]
            return None
        if s == "empty":
            return not o
        if s == "clear":
            del o[:]
            return None
        if s == "reserve" or s == "shrink_to_fit":
            return None
        if s == "pop_back":
            if not o:
                raise OutOfRange("pop_back of nothing at " + n.loc)
            o.pop()
            return None
        if s in ("push_back", "emplace_back") and len(a) >= 2:
            t = (targ(a[0].a.get("ty") or "", "std::vector") or [""])[0]
            args = [self.rv(x, fr) for x in a[1:] if x is None or x.k != "defarg"]
            pt = targ(t, "std::pair")
            if pt and len(args) == 2:
                v = Obj("std::pair", {"first": self.coerce(args[0], pt[0]), "second": self.coerce(args[1], pt[1])})
            elif len(args) == 1:
                v = args[0]
            else:
                v = self.make(clean_ty(t), args, n)
            o.append(copyv(v))
            return Slot(o, len(o) - 1)
        if s == "assign":
            x, y = self.rv(a[1], fr), self.rv(a[2], fr) if len(a) > 2 else None
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                o[:] = [copyv(z) for z in x.v[x.o:y.o]]
                return None
            if isinstance(x, int):
                o[:] = [copyv(y) for _ in range(x)]
                return None
        if s in ("insert", "emplace") and len(a) >= 3:
            p = self.rv(a[1], fr)
            if isinstance(p, Ptr):
                if s == "emplace":
                    t = targ(a[0].a.get("ty") or "", "std::vector") or [""]
                    args = [self.rv(x, fr) for x in a[2:]]
                    pt = targ(t[0], "std::pair")
                    v = Obj("std::pair", {"first": args[0], "second": args[1]}) if pt and len(args) == 2 else args[0]
                    o.insert(p.o, copyv(v))
                    return Ptr(o, p.o)
                x = self.rv(a[2], fr)
                if len(a) == 4:
                    y = self.rv(a[3], fr)
                    if isinstance(x, Ptr) and isinstance(y, Ptr):
                        o[p.o:p.o] = [copyv(z) for z in x.v[x.o:y.o]]
                        return Ptr(o, p.o)
                else:
                    o.insert(p.o, copyv(x))
                    return Ptr(o, p.o)
        if s == "erase":
            p = self.rv(a[1], fr)
            if isinstance(p, Ptr):
                e = self.rv(a[2], fr).o if len(a) > 2 else p.o + 1
                if not (0 <= p.o <= e <= len(o)):
                    raise OutOfRange("erase at " + n.loc)
                del o[p.o:e]
                return Ptr(o, p.o)
        if s in ("rbegin", "rend"):
            raise Undecided(s)
        if s == "swap":
            b = self.rv(a[1], fr)
            o[:], b[:] = list(b), list(o)
            return None
        return NotImplemented

    def std(self, s, q, n, fr):
        a = n.c
        if s in ("rotate", "copy", "copy_n", "fill_n", "swap_ranges", "move_backward", "copy_backward", "fill", "for_each", "transform", "reverse", "advance", "next", "prev", "distance",
                 "inner_product", "iota", "any_of", "all_of", "none_of", "lower_bound", "upper_bound", "find_if", "sort", "tie") \
                or (s == "move" and len(a) == 3):
            v = [self.rv(x, fr) for x in a]
            if s == "tie":
                return NotImplemented
            if s == "advance":
                p = self.lvrv(a[0], fr)
                p.v = self.arith("+", p.v, v[1], n) if not isinstance(v[1], int) or v[1] >= 0 else Ptr(p.v.v, p.v.o + v[1])
                return None
            if not (v and isinstance(v[0], Ptr)):
                return NotImplemented
            L = v[0].v
            if s in ("next", "prev"):
                k = v[1] if len(v) > 1 and a[1].k != "defarg" else 1
                return Ptr(L, v[0].o + (k if s == "next" else -k))
            if s == "distance":
                return v[1].o - v[0].o
            if s == "rotate":
                b, m, e = v[0].o, v[1].o, v[2].o
                if not 0 <= b <= m <= e <= len(L):
                    raise OutOfRange("rotate at " + n.loc)
                L[b:e] = L[m:e] + L[b:m]
                return Ptr(L, b + e - m)
            if s == "fill_n":
                if not isinstance(v[1], int):
                    raise Undecided("size")
                if v[0].o + v[1] > len(L):
                    raise OutOfRange("fill at " + n.loc)
                for i in range(v[0].o, v[0].o + v[1]):
                    L[i] = copyv(v[2])
                return Ptr(L, v[0].o + v[1])
            if s == "swap_ranges":
                for j, i in enumerate(range(v[0].o, v[1].o)):
                    L[i], v[2].v[v[2].o + j] = v[2].v[v[2].o + j], L[i]
                return Ptr(v[2].v, v[2].o + v[1].o - v[0].o)
            if s in ("copy", "move", "copy_n"):
                if s == "copy_n" and not isinstance(v[1], int):
                    raise Undecided("size")
                k = v[1] if s == "copy_n" else v[1].o - v[0].o
                if v[0].o + k > len(L):
                    raise OutOfRange("copy at " + n.loc)
                src = [copyv(L[v[0].o + i]) for i in range(k)] if v[0].v is not v[2].v or v[2].o <= v[0].o else None
                if src is None:
                    raise Undecided("overlapping copy")
                if v[2].o + k > len(v[2].v):
                    raise OutOfRange("copy at " + n.loc)
                v[2].v[v[2].o:v[2].o + k] = src
                return Ptr(v[2].v, v[2].o + k)
            if s in ("move_backward", "copy_backward"):
                k = v[1].o - v[0].o
                src = [copyv(L[v[0].o + i]) for i in range(k)]
                if v[2].o - k < 0:
                    raise OutOfRange("copy at " + n.loc)
                v[2].v[v[2].o - k:v[2].o] = src
                return Ptr(v[2].v, v[2].o - k)
            if s == "fill":
                for i in range(v[0].o, v[1].o):
                    L[i] = copyv(v[2])
                return None
            if s == "iota":
                for j, i in enumerate(range(v[0].o, v[1].o)):
                    L[i] = self.arith("+", v[2], j, n)
                return None
            if s == "reverse":
                L[v[0].o:v[1].o] = L[v[0].o:v[1].o][::-1]
                return None
            if s == "for_each":
                for i in range(v[0].o, v[1].o):
                    self.call_closure(v[2], [Slot(L, i)])
                return v[2]
            if s == "transform":
                k = v[1].o - v[0].o
                two = len(v) == 5
                out, f = (v[3], v[4]) if two else (v[2], v[3])
                for i in range(k):
                    r = self.call_closure(f, [Slot(L, v[0].o + i)] + ([Slot(v[2].v, v[2].o + i)] if two else []))
                    Slot(out.v, out.o + i).v = copyv(unbox(r))
                return Ptr(out.v, out.o + k)
            if s == "inner_product":
                acc = v[3]
                k = v[1].o - v[0].o
                for i in range(k):
                    x, y = L[v[0].o + i], v[2].v[v[2].o + i]
                    if len(v) > 4:
                        t = unbox(self.call_closure(v[5], [Box(x), Box(y)]))
                        acc = unbox(self.call_closure(v[4], [Box(acc), Box(t)]))
                    else:
                        acc = self.arith("+", acc, self.arith("*", x, y, n), n)
                return acc
            if s in ("any_of", "all_of", "none_of", "find_if"):
                for i in range(v[0].o, v[1].o):
                    r = self.b(unbox(self.call_closure(v[2], [Slot(L, i)])), n)
                    if s == "find_if" and r:
                        return Ptr(L, i)
                    if s == "any_of" and r:
                        return True
                    if s == "none_of" and r or s == "all_of" and not r:
                        return False
                return {"any_of": False, "none_of": True, "all_of": True, "find_if": v[1]}[s]
            if s in ("lower_bound", "upper_bound"):
                for i in range(v[0].o, v[1].o):
                    if len(v) > 3:
                        r = self.b(unbox(self.call_closure(v[3], [Slot(L, i), Box(v[2])] if s == "lower_bound" else [Box(v[2]), Slot(L, i)])), n)
                    else:
                        r = self.cmp("<", L[i], v[2], n) if s == "lower_bound" else self.cmp("<", v[2], L[i], n)
                    if (s == "lower_bound" and not r) or (s == "upper_bound" and r):
                        return Ptr(L, i)
                return v[1]
            if s == "sort":
                raise Undecided("sort")
        return NotImplemented
