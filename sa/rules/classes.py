"""Values before reads, and faithful copies.

run_init   G02: every object of basic type has a value before it is read --
           members after each constructor, locals on each path to a read.
run_copy   R03: copy, assignment and clone transfer every member of the
           source into the same member of the copy.
"""
from canon import *
from util import *
import re

BASIC = re.compile(r"^(unsigned( (int|long|char|short|long long))?|int|long|long long|short|char|signed char|float|double|long double|bool|std::size_t|size_t|"
                   r"(un)?signed|std::u?int\d+_t|dealii::types::\w+|dealii::VectorizedArray<.*>|.*\*( const)?)$")


def bare(ty):
    return clean_ty((ty or "").removeprefix("dep:"))


def is_basic(ty):
    t = bare(ty)
    if t.endswith("&"):
        return False
    return bool(BASIC.match(t)) and "(" not in t


def arr_of(ty):
    """element type of an array type, else None"""
    t = bare(ty)
    m = re.match(r"^(.*?)\s*\[[^\]]*\]$", t)
    if m:
        return arr_of(m.group(1)) or m.group(1)
    if t.startswith("std::array<") and t.endswith(">"):
        depth, cut = 0, None
        for i, ch in enumerate(t):
            depth += ch == "<"
            depth -= ch == ">"
            if ch == "," and depth == 1:
                cut = i
        if cut:
            e = t[len("std::array<"):cut].strip()
            return arr_of(e) or e
    return None


def enum_types(P):
    return getattr(P, "enums", set())


def aggregates(P):
    """classes without constructors whose members need values from outside:
    type name -> set of basic member names without default value"""
    out = {}
    ct = {f.clsid for f in P.fns if f.isctor}
    for r in P.recs:
        if not r.agg or r.bases:
            continue
        un = {f["n"] for f in r.fields if not f.get("static") and f.get("ie") is None and not f.get("init") and is_basic(f["ty"])}
        if un:
            out[r.q] = un
    return out


def needs(P, ty, agg):
    """'s' a basic type, 'a' an array of basic values, a set of members, or None"""
    if ty is None or bare(ty).endswith("&"):
        return None
    e = arr_of(ty)
    if e is not None:
        return "a" if is_basic(e) else None
    if is_basic(ty):
        return "s"
    t = bare(ty)
    return agg.get(t) or agg.get(t.split("<")[0])


class Ctor(Flow):
    """members with a value when a constructor ends (must); state: frozenset"""

    def __init__(self, E, cand):
        super().__init__(E)
        self.cand = cand
        self.early = []

    def join(self, a, b):
        return a & b

    def want(self, callee, call, fr):
        if not isinstance(callee, Fn):
            return True
        o = obj_of(call) if call.k == "call" else None
        return call.k == "call" and call.a.get("m") and len(self.stack) < 8 and (o is None or unwrap(o) is None or unwrap(o).k == "this" or True)

    def fld(self, e, fr):
        p = self.E.place(e, fr)
        if p and p[0] == "this" and len(p) > 1 and p[1].startswith("."):
            return p[1][1:]
        return None

    def on_init(self, i, fr, st):
        if fr.depth == 0 and i.get("n"):
            return st | {i["n"]}
        return st

    def on_assign(self, n, lhs, rhs, fr, st):
        f = self.fld(lhs, fr)
        if f:
            return st | {f}
        y = unwrap(lhs)
        if y is not None and y.k == "un" and y.a.get("op") == "*" and y.c and y.c[0].k == "this":
            return st | self.cand
        return st

    def on_call(self, n, fr, st):
        st0 = st
        for tgt, kind, val in write_targets(n):
            if tgt is None:
                continue
            y = unwrap(tgt)
            f = self.fld(tgt, fr)
            if f and kind in ("arg", "call"):
                st = st | {f}
            if y is not None and y.k == "un" and y.a.get("op") == "&" and y.c:
                f = self.fld(y.c[0], fr)
                if f:
                    st = st | {f}
        for x in n.c:                       # addresses handed out
            y = unwrap(x) if x is not None else None
            if y is not None and not (n.k == "call" and n.a.get("m") and x is n.c[0]):
                z = y.c[0] if y.k == "un" and y.a.get("op") == "*" and y.c else y
                z = unwrap(z)
                if z is not None and z.k == "this" and handed_over(n, x):
                    st = st | self.cand     # the object itself, e.g. filled from an archive
            if y is not None and y.k == "un" and y.a.get("op") == "&" and y.c:
                f = self.fld(y.c[0], fr)
                if f:
                    st = st | {f}
        return NotImplemented if st == st0 else self.enter(n, fr, st)


def handed_over(n, x):
    i = n.c.index(x) - (1 if n.k == "call" and n.a.get("m") else 0)
    pm = n.a.get("pm") or ""
    return n.a.get("dep") or (0 <= i < len(pm) and pm[i] in "rp")


def run_init(P, E, C):
    agg = aggregates(P)
    ctors = {}
    for f in P.fns:
        if f.isctor and f.clsid:
            ctors.setdefault(f.clsid, []).append(f)
    seen = set()
    res = {}
    archived = {f.clsid for f in P.fns if f.n in ("serialize", "load") and f.clsid}
    for r in P.recs:
        cs = ctors.get(r.id, [])
        fl = [f for f in r.fields if not f.get("static") and f.get("ie") is None and not f.get("init")
              and needs(P, f["ty"], agg)]
        if not fl:
            continue
        names = frozenset(f["n"] for f in fl)
        declared = [m for m in r.methods if m.get("isctor")]
        if not cs:
            if r.agg or not declared:
                continue                     # values come from the creator, see locals()
            continue
        for c in cs:
            if c.body is None:
                continue
            if delegates(c, r):
                C.ok("member-init", c.loc, f"{r.q}: delegates")
                continue
            if not c.params and r.id in archived:
                C.ok("member-init", c.loc, f"{r.q}: filled from an archive")
                continue
            if c.dep:
                continue
            w = Ctor(E, names)
            st = frozenset(i["n"] for i in c.inits if i.get("n") and i.get("e") is not None and not defaulted(i["e"]))
            out, exc = w.run(c, st)
            if out is None:
                continue
            for f in fl:
                n = f["n"]
                k = (r.q, c.loc, n)
                res[k] = (res.get(k, (False,))[0] or n in out, f["ty"])
    # a member that depends on the template arguments is set in some instantiation
    for (q, loc, n), (good, ty) in res.items():
        if good:
            C.ok("member-init", loc, f"{q}::{n}")
        else:
            C.bad("member-init", f"{q}::{n}", loc, f"{q}::{n} ({ty}) has no value after the constructor at {loc}")
    C.need("member-init", 20)
    locals_(P, E, C, agg)


def defaulted(e):
    return e.k == "ctor" and not e.c and not e.a.get("zero") and is_basic(e.a.get("ty"))


def delegates(c, r):
    for i in c.inits:
        if i.get("n") is None and i.get("e") is not None:
            b = (i.get("base") or "")
            if not b:
                return True
            if b.split("<")[0].rsplit("::", 1)[-1] == r.n:
                return True
    return False


# ---------------------------------------------------------------- locals
class Loc(Flow):
    """locals that may be without a value (may); state frozenset of keys
    (variable id) or (variable id, member)"""

    def __init__(self, E, C, agg, f):
        super().__init__(E)
        self.C, self.agg, self.f = C, agg, f
        self.read = {}
        self.n_decl = 0
        self.names = {}
        self.quiet = False

    def join(self, a, b):
        return a | b

    def want(self, callee, call, fr):
        return False

    def on_decl(self, v, fr, st):
        ty = v.a.get("ty")
        e = v.c[0] if v.c else None
        k = needs(self.P, ty, self.agg)
        if k is None or v.a.get("static") or v.a.get("bind"):
            return st
        if e is not None:
            y = e
            if not (y.k == "ctor" and not y.c and not y.a.get("zero") and not y.a.get("li") and not y.a.get("list")):
                return frozenset(x for x in st if x[0] != v.a["id"])
        self.n_decl += 1
        self.names[v.a["id"]] = (v.a.get("n"), ty, v.loc)
        if k == "a":
            return st                       # arrays: see order()
        if k == "s":
            return st | {(v.a["id"], "")}
        return st | {(v.a["id"], m) for m in k}

    def var_of(self, e):
        """(variable id, member) a plain expression names"""
        y = e
        while y is not None and y.k == "cast" and len(y.c) == 1:
            y = y.c[0]
        if y is None:
            return None
        if y.k == "ref":
            return y.a.get("id"), None
        if y.k == "mem" and y.c:
            b = y.c[0]
            while b is not None and b.k == "cast" and len(b.c) == 1:
                b = b.c[0]
            if b is not None and b.k == "ref":
                return b.a.get("id"), y.a.get("n")
        return None

    def kill(self, e, st):
        y = e
        while y is not None and y.k in ("cast", "sub") and y.c:
            y = y.c[0]
        if y is not None and y.k == "call" and y.a.get("op") == "[]" and y.c:
            return self.kill(y.c[0], st)
        if y is not None and y.k == "un" and y.a.get("op") in ("&", "*", "++", "--") and y.c:
            return self.kill(y.c[0], st)
        v = self.var_of(y)
        if v is None:
            if y is not None and y.k == "mem" and y.c:
                return self.kill(y.c[0], st)
            return st
        if v[1] is None:
            return frozenset(x for x in st if x[0] != v[0])
        return frozenset(x for x in st if x != (v[0], v[1]))

    # evaluation that distinguishes reads from writes
    def ev(self, n, fr, st):
        if n is None or st is None:
            return st
        k = n.k
        if k == "ref":
            self.use(n, n.a.get("id"), None, st)
            return st
        if k == "mem" and n.c:
            v = self.var_of(n)
            if v is not None:
                self.use(n, v[0], v[1], st)
                return st
        if k == "bin" and n.a.get("op") in ASSIGN_OPS:
            st = Flow.ev(self, n.c[1], fr, st) if n.c[1].k in ("zz",) else self.ev(n.c[1], fr, st)
            if n.a["op"] != "=":
                st = self.ev(n.c[0], fr, st)
            else:
                st = self.subs(n.c[0], fr, st)
            return self.kill(n.c[0], st) if st is not None else None
        if k == "un" and n.a.get("op") == "&" and n.c:
            return self.kill(n.c[0], self.subs(n.c[0], fr, st))
        if k == "cast" and n.a.get("lv"):
            return st
        if k == "sizeof" or k == "decltype":
            return st
        if k == "lambda":
            # captured by reference: written or read when the lambda runs
            for x in n.walk():
                if x.k == "ref":
                    st = frozenset(y for y in st if y[0] != x.a.get("id"))
            return st
        if k in ("call", "ctor"):
            return self.callx(n, fr, st)
        if k == "cast" and n.a.get("ty") == "void":
            return st
        return Flow.ev(self, n, fr, st)

    def subs(self, e, fr, st):
        """evaluate the index expressions of an lvalue"""
        y = e
        while y is not None and y.k == "cast" and len(y.c) == 1:
            y = y.c[0]
        if y is None or y.k == "ref":
            return st
        if y.k == "mem":
            return self.subs(y.c[0], fr, st) if y.c else st
        if y.k == "sub" or (y.k == "call" and y.a.get("op") == "[]"):
            st = self.subs(y.c[0], fr, st)
            for x in y.c[1:]:
                st = self.ev(x, fr, st) if st is not None else None
            return st
        return self.ev(y, fr, st)

    def callx(self, n, fr, st):
        op = n.a.get("op") if n.k == "call" else None
        q = n.a.get("q") or ""
        if n.k == "call" and (q.endswith("issue_error_noreturn") or q in self.NORETURN):
            return Flow.ev(self, n, fr, st)
        if op in ASSIGN_OPS and len(n.c) == 2:
            st = self.ev(n.c[1], fr, st)
            st = self.ev(n.c[0], fr, st) if op != "=" else self.subs(n.c[0], fr, st)
            return self.kill(n.c[0], st) if st is not None else None
        if n.k == "call" and short(q) in ("cell_loop", "loop", "loop_cell_centric"):
            for x in n.c:                   # arguments are handed through to the workers
                st = self.kill(x, st) if x is not None and self.var_of(x) else self.ev(x, fr, st)
            return st
        pm = n.a.get("pm") or ""
        ch = list(n.c)
        kills = []
        if n.k == "call" and n.a.get("m") and ch:
            o = ch[0]
            if n.a.get("const") and not n.a.get("dep"):
                st = self.ev(o, fr, st)
            else:
                st = self.subs(o, fr, st) if o is not None else st
                kills.append(o)
            ch = ch[1:]
        elif n.k == "call" and n.a.get("dep"):
            kills += [x for x in ch if x is not None]
            for x in ch:
                st = self.subs(x, fr, st) if x is not None and unwrap(x) is not None else st
            for x in kills:
                st = self.kill(x, st) if st is not None else None
            return st
        for i, x in enumerate(ch):
            if x is None or st is None:
                continue
            if op == "=" and False:
                continue
            if (i < len(pm) and pm[i] in "rp") or (n.a.get("dep") and i >= len(pm)):
                st = self.subs(x, fr, st) if self.var_of(x) else self.ev(x, fr, st)
                kills.append(x)
            elif i < len(pm) and pm[i] in "cC" and False:
                pass
            else:
                st = self.ev(x, fr, st)
        for x in kills:
            if st is not None and x is not None:
                st = self.kill(x, st)
        return st

    def use(self, n, vid, mem, st):
        for x in st:
            if x[0] == vid and (mem is None or x[1] == mem or x[1] == ""):
                self.read.setdefault(x, n)


def locals_(P, E, C, agg):
    done = set()
    for f in P.fns:
        if f.body is None or f.dep:
            continue
        w = Loc(E, C, agg, f)
        try:
            w.run(f, frozenset())
        except RecursionError:
            C.note(f"{f.q} at {f.loc}: too deep")
            continue
        for (vid, m), n in w.read.items():
            nm, ty, loc = w.names[vid]
            C.bad("local-init", f"{f.q}/{nm}{'.' + m if m else ''}", n.loc, f"{f.q}: {nm}{'.' + m if m else ''} ({ty}, declared at {loc}) may be read at {n.loc} before it has a value")
        bad = {vid for vid, m in w.read}
        for vid, (nm, ty, loc) in w.names.items():
            if vid not in bad:
                C.ok("local-init", loc, f"{f.q}: {nm}")
        order(E, C, f, agg)
    C.need("local-init", 20)


def order(E, C, f, agg):
    """arrays: some element is written before any is read"""
    for v in f.find("var"):
        e = v.c[0] if v.c else None
        if needs(E.P, v.a.get("ty"), agg) != "a" or v.a.get("static"):
            continue
        if e is not None and not (e.k == "ctor" and not e.c and not e.a.get("zero") and not e.a.get("li") and not e.a.get("list")):
            continue
        first = None
        for n in f.body.walk():
            if n.k == "ref" and n.a.get("id") == v.a["id"]:
                if enclosing(n, "sizeof") is not None or shape_only(n):
                    continue
                first = n
                break
        if first is None:
            continue
        key = f"{f.q}/{v.a.get('n')}"
        C.judge(not pure_read(first), "local-init", key, first.loc, f"{f.q}: array {v.a.get('n')} ({v.a.get('ty')}): first use at {first.loc} " +
                ("reads an element without a value" if pure_read(first) else "gives it values"))


def shape_only(n):
    p = n.p
    return p is not None and p.k == "call" and p.a.get("m") and p.c and p.c[0] is n and short(p.a.get("q") or "") in ("size", "empty", "max_size")


def pure_read(n):
    """the element (or the array) is certainly read where n occurs"""
    x, p = n, n.p
    while p is not None and (p.k in ("sub", "cast", "mem") or (p.k == "call" and p.a.get("op") == "[]")):
        if p.c and p.c[0] is not x:
            return True
        if p.k == "cast" and p.a.get("ty") and p.a.get("ck") in ("LValueToRValue",):
            return True
        x, p = p, p.p
    if p is None:
        return False
    if p.k in ("bin", "call") and p.a.get("op") in ASSIGN_OPS and len(p.c) == 2:
        if p.c[0] is x:
            return p.a["op"] != "="
        return not is_pointer(x)
    if p.k == "bin":
        return not is_pointer(x)
    if p.k == "call" and p.a.get("op") in ("+", "-", "*", "/", "<", ">", "=="):
        return True
    if p.k == "ret":
        return not is_pointer(x)
    return False


def is_pointer(x):
    t = bare(x.a.get("ty"))
    return t.endswith("*") or arr_of(t) is not None




# ------------------------------------------------------------------ copies
def last(t):
    return (t or "").split("<")[0].rsplit("::", 1)[-1]


def has_base(r):
    return [b for b in r.bases]


def self_fields(E, fn, seen=None):
    """members of the own object a member function looks at (transitively)"""
    seen = seen if seen is not None else set()
    if fn.id in seen or len(seen) > 60:
        return set()
    seen.add(fn.id)
    out = set()
    for n in fn.walk():
        if n.k == "mem" and n.c and (n.c[0] is None or unwrap(n.c[0]) is None or unwrap(n.c[0]).k == "this"):
            out.add(n.a.get("n"))
        elif n.k == "call" and n.a.get("m"):
            o = obj_of(n)
            if o is None or unwrap(o) is None or unwrap(o).k == "this":
                for t in E.P.targets(n):
                    out |= self_fields(E, t, seen)
    return out


class Copy(Flow):
    """records every write to a member of the target object together with the
    members of source and target its value is made of"""

    def __init__(self, E, src, dst, names):
        super().__init__(E)
        self.src, self.dst, self.names = src, dst, names
        self.w = {}
        self.sequence = []
        self.whole = False

    def join(self, a, b):
        return True

    def want(self, callee, call, fr):
        return len(self.stack) < 6

    def on_cond(self, n, truth, fr, st):
        x = unwrap(n)
        if x is not None and x.k == "bin" and x.a.get("op") in ("==", "!="):
            ks = [unwrap(y) for y in x.c]
            if any(y is not None and y.k == "this" for y in ks) and truth == (x.a["op"] == "=="):
                return None
        return st

    def fld(self, p, root):
        if p and root and p[:len(root)] == root and len(p) > len(root) and p[len(root)].startswith("."):
            return p[len(root)][1:]
        return None

    def parts(self, e, fr, depth=0):
        """(source members, target members) a value is made of"""
        s, t = set(), set()
        if e is None:
            return s, t
        for n in e.walk():
            if n.k in ("mem", "ref", "call", "this"):
                p = E_place(self.E, n, fr)
                f = self.fld(p, self.src)
                if f:
                    s.add(f)
                f = self.fld(p, self.dst)
                if f:
                    t.add(f)
            if n.k == "call" and n.a.get("m"):
                o = E_place(self.E, obj_of(n), fr)
                if o == self.src or o == self.dst:
                    for g in self.P.targets(n):
                        (s if o == self.src else t).update(self_fields(self.E, g) & self.names)
            if n.k == "call" and depth < 4:
                a = args_of(n) if not (n.a.get("m") and n.a.get("static")) else n.c[1:]
                if any(E_place(self.E, x, fr) in (self.src, self.dst) for x in a if x is not None):
                    for g in self.P.targets(n):
                        u, v = self.parts(g.body, self.E.inline_frame(g, n, fr), depth + 2)
                        s |= u
                        t |= v
            if n.k == "ref" and n.a.get("dk") == "var" and depth < 4:
                for v in self.filled(n, fr):
                    a, b = self.parts(v, fr, depth + 2)
                    s |= a
                    t |= b
            if n.k == "ref" and n.a.get("dk") in ("var", "binding", "parm") and depth < 4:
                own = self.E.owner(fr, n.a.get("id"))
                m, mf = own.args[n.a["id"]][:2] if n.a.get("id") in own.args else self.E.origin(n, fr)
                if m is not None and m is not unwrap(n):
                    a, b = self.parts(m, mf, depth + 1)
                    s |= a
                    t |= b
        return s, t

    def filled(self, ref, fr):
        """values written into a local variable"""
        own = self.E.owner(fr, ref.a.get("id"))
        body = own.body if own.body is not None else own.fn.body
        if hasattr(body, "k") and body.k == "lambda":
            body = body.c[0]
        out = []
        for n in body.walk():
            for tgt, kind, val in write_targets(n):
                y = unwrap(tgt) if tgt is not None else None
                while y is not None and (y.k == "sub" or y.k == "call") and y.c:
                    y = unwrap(y.c[0])
                if y is not None and y.k == "ref" and y.a.get("id") == ref.a.get("id"):
                    out += [x for x in n.c if x is not None and x is not tgt]
        return out

    def put(self, tgt, vals, node, fr, plain=None):
        p = E_place(self.E, tgt, fr)
        if p is not None and p == self.dst and vals:
            for v in vals:
                y = E_place(self.E, v, fr)
                if y == self.src:
                    self.whole = True
        f = self.fld(p, self.dst)
        if f is None:
            return
        s, t = set(), set()
        for v in vals:
            a, b = self.parts(v, fr)
            s |= a
            t |= b
        share = False
        if plain is not None and p is not None and len(p) == len(self.dst) + 1:
            q = E_place(self.E, plain, fr)
            share = q is not None and self.fld(q, self.src) == f and len(q) == len(self.src) + 1
        t.discard(f)
        self.w.setdefault(f, []).append((s, t, node, share))

    def on_init(self, i, fr, st):
        if (fr.depth == 0 or fr.this == self.dst) and i.get("n") and i.get("e") is not None and i.get("w", 1):
            class T:
                pass
            s, t = self.parts(i["e"], fr)
            y = i["e"]
            q = E_place(self.E, y, fr)
            share = q is not None and self.fld(q, self.src) == i["n"] and len(q) == len(self.src) + 1
            self.w.setdefault(i["n"], []).append((s, t - {i["n"]}, i["e"], share))
        return st

    def on_assign(self, n, lhs, rhs, fr, st):
        self.put(lhs, [rhs], n, fr, plain=rhs)
        return st

    def on_call(self, n, fr, st):
        for tgt, kind, val in write_targets(n):
            if tgt is None:
                continue
            if n.k == "call" and n.a.get("op") in ASSIGN_OPS:
                continue
            others = [x for x in n.c if x is not None and x is not tgt]
            if kind == "call" and E_place(self.E, tgt, fr) == self.dst:
                if any(E_place(self.E, x, fr) == self.src for x in others) and not self.P.targets(n):
                    self.whole = True
                continue
            self.put(tgt, others, n, fr)
        return NotImplemented

    def on_ctor(self, n, fr, st):
        self.on_call(n, fr, st)
        return NotImplemented


def E_place(E, n, fr):
    if n is None:
        return fr.this
    return E.place(n, fr)


def writes_of(E, f, src, names):
    w = Copy(E, src, ("this",), names)
    w.run(f, True)
    return w


def transfers(P, f):
    """what kind of copy a function is: (kind, parameter index)"""
    me = last(f.cls)
    same = [i for i, p in enumerate(f.params) if last(bare(p[2]).removesuffix("&&").strip()) == me and not bare(p[2]).endswith("*")]
    if f.isctor and same == [0] and len(f.params) == 1:
        return "move" if f.params[0][2].strip().endswith("&&") else "copy"
    if f.n == "operator=" and same == [0]:
        return "move" if f.params[0][2].strip().endswith("&&") else "copy"
    if f.n == "swap" and same == [0] and len(f.params) == 1:
        return "swap"
    return None


def derives(P, r, base, seen=()):
    for q, i in r.bases:
        if last(q) == base or any(derives(P, b, base, seen + (r.id,)) for b in P.recs if b.id == i and b.id not in seen):
            return True
    return False


def run_copy(P, E, C):
    order_ = sorted(P.recs, key=lambda r: r.dep)
    recs = {}
    for r in order_:
        recs.setdefault(r.id, r)
    byname = {}
    for r in order_:
        byname.setdefault(last(r.q), r)
    seen = set()
    mutated = None
    for f in P.fns:
        if f.dep or not f.clsid or f.clsid not in recs or f.body is None:
            continue
        r = recs[f.clsid]
        kind = transfers(P, f)
        if kind:
            names = {x["n"] for x in r.fields if not x.get("static")}
            if not names or (f.loc, kind) in seen:
                continue
            fields = {x["n"]: x for x in r.fields}
            root = ("var", f.params[0][1], None)
            w = None
            fr = E.root(f)
            p = E.place_of_param(f, 0, fr) if hasattr(E, "place_of_param") else ("var", f.params[0][1], fr.uid)
            w = Copy(E, p, ("this",), names)
            w.run(f, True, fr)
            seen.add((f.loc, kind))
            judge_copy(P, E, C, r, f, kind, w, fields)
            continue
        if f.params or f.static or f.isctor or f.isdtor:
            continue
        clone(P, E, C, r, f, byname, seen)
    C.need("copy-complete", 10)


def judge_copy(P, E, C, r, f, kind, w, fields):
    ref = f.isctor is False
    for m, x in sorted(fields.items()):
        if x.get("static"):
            continue
        key = f"{f.q}({kind})/{m}"
        ev = w.w.get(m, [])
        if w.whole and not ev:
            C.ok("copy-complete", f.loc, f"{f.q} ({kind}): {m} through the assignment of the whole object")
            continue
        if not ev:
            if not f.isctor and (x["ty"].startswith("const ") or bare(x["ty"]).endswith("&")):
                continue
            C.bad("copy-complete", key, f.loc, f"{f.q} ({kind}): member {m} is not taken over from the source")
            continue
        good = [e for e in ev if m in e[0]]
        own = [e for e in ev if not e[0] and e[1]]
        crossed = [e for e in ev if e[0] and m not in e[0]]
        if good:
            C.ok("copy-complete", good[0][2].loc, f"{f.q} ({kind}): {m} from {m} of the source")
        elif own and not crossed:
            C.ok("copy-complete", own[0][2].loc, f"{f.q} ({kind}): {m} recomputed from {sorted(own[0][1])}")
        elif crossed:
            C.bad("copy-complete", key, crossed[0][2].loc, f"{f.q} ({kind}): member {m} is made of the source's {sorted(crossed[0][0])}")
        else:
            C.bad("copy-complete", key, ev[0][2].loc, f"{f.q} ({kind}): member {m} gets a value that does not come from the source")
        if kind == "copy" and "shared_ptr<" in x["ty"] and "shared_ptr<const" not in x["ty"]:
            sh = [e for e in ev if e[3]]
            C.judge(not sh, "copy-deep", key, (sh or ev)[0][2].loc, f"{f.q}: {m} " + ("shares its storage with the source" if sh else "has storage of its own"))


MAKE = ("std::make_unique", "std::make_shared")


def clone(P, E, C, r, f, byname, seen):
    if "unique_ptr<" not in (f.rty or "") and "shared_ptr<" not in (f.rty or ""):
        return
    makes = [n for n in f.find("call") if n.a.get("q") in MAKE]
    if len(makes) != 1 or not f.const:
        return
    mk = makes[0]
    made = re.search(r"_ptr<([^<>]*)", mk.a.get("ty") or "")
    made = last((mk.a.get("targs") or "").split(",")[0] or (made.group(1) if made else ""))
    ret = last(re.search(r"_ptr<(?:const )?([\w:]*)", f.rty).group(1))
    me = last(r.q)
    if made not in byname or (f.loc, made) in seen:
        return
    R = byname[made]
    if ret != me and not derives(P, r, ret):
        return
    seen.add((f.loc, made))
    sts = [a for a in mk.c if a is not None]
    star = any(is_self(a) for a in sts)
    if ret != me and not (f.ov or f.virt):
        return
    if made != me and not (star and derives(P, R, me)):
        C.bad("clone-type", f"{f.q}", mk.loc, f"{f.q} makes a {made} where a copy of {me} is due")
        return
    C.ok("clone-type", mk.loc, f"{f.q}: makes a {made}")
    if star:
        C.ok("copy-complete", mk.loc, f"{f.q}: copy of the whole object")
        return
    fields = {x["n"]: x for x in R.fields if not x.get("static")}
    for b in R.bases:
        for q in sorted(P.recs, key=lambda q: q.dep):
            if q.id == b[1]:
                fields.update({x["n"]: x for x in q.fields if not x.get("static")})
                break
    cands = [c for c in P.fns if c.isctor and c.clsid == R.id and not c.dep and len(c.params) >= len(sts) and c.cargs == f.cargs and not transfers(P, c)]
    if not cands:
        cands = [c for c in P.fns if c.isctor and last(c.cls) == made and not c.dep and len(c.params) >= len(sts) and not transfers(P, c)]
    if not cands:
        C.note(f"{f.q}: constructor of {made} not found")
        return
    cands.sort(key=lambda c: len(c.params))
    c = cands[0]
    # members of the new object <- parameters of the constructor
    feeds = {}
    for i in c.inits:
        if not i.get("n") or i.get("e") is None:
            continue
        ids = {n.a.get("id") for n in i["e"].find("ref")}
        feeds[i["n"]] = [k for k, p in enumerate(c.params) if p[1] in ids]
    for n in c.body.walk():
        for tgt, kd, val in write_targets(n):
            t = unwrap(tgt) if tgt is not None else None
            while t is not None and t.k == "call" and t.c:
                t = unwrap(t.c[0])
            if t is not None and t.k == "mem" and (not t.c or t.c[0] is None or unwrap(t.c[0]).k == "this"):
                ids = {y.a.get("id") for y in n.find("ref")}
                feeds.setdefault(t.a.get("n"), []).extend(k for k, p in enumerate(c.params) if p[1] in ids)
    # assignments to the new object afterwards
    var = None
    for a in mk.ancestors():
        if a.k == "var":
            var = a
            break
        if a.k in ("call", "ret", "lambda", "blk"):
            break
    later = {}
    if var is not None:
        fr = E.root(f)
        w = Copy(E, ("this",), ("var", var.a["id"], fr.uid), set(fields))
        w.run(f, True, fr)
        later = w.w
    fr = E.root(f)
    cp = Copy(E, ("this",), ("none",), set(fields))
    written = members_written(P, R)
    for m, x in sorted(fields.items()):
        key = f"{f.q}(clone)/{m}"
        got = set()
        ks = feeds.get(m, [])
        args = [k for k in ks if k < len(sts)]
        for k in args:
            got |= cp.parts(sts[k], fr)[0]
        ev = later.get(m, [])
        for e in ev:
            got |= e[0]
        if m in got:
            C.ok("copy-complete", mk.loc, f"{f.q}: {m} from {m} of the source")
        elif got:
            C.bad("copy-complete", key, (ev[0][2] if ev else sts[args[0]]).loc, f"{f.q}: member {m} of the copy is made of {sorted(got)} of the source")
        elif m not in written and not ks:
            C.ok("copy-complete", mk.loc, f"{f.q}: {m} is the same in every object")
        else:
            C.bad("copy-complete", key, mk.loc, f"{f.q}: member {m} of the copy does not come from the source")


def members_written(P, R):
    out = set()
    for f in P.fns:
        if f.clsid != R.id or f.isctor:
            continue
        for n in f.walk():
            for tgt, kd, val in write_targets(n):
                t = unwrap(tgt) if tgt is not None else None
                while t is not None and t.k in ("call", "sub") and t.c:
                    t = unwrap(t.c[0])
                if t is not None and t.k == "mem":
                    out.add(t.a.get("n"))
    return out


def is_self(a):
    y = unwrap(a)
    while y is not None and y.k in ("un", "cast", "ctor") and len(y.c) == 1:
        y = unwrap(y.c[0])
    return y is not None and y.k == "this"
