"""G06: values that stand for 'nothing' are told apart before they are used.

run   Marker values (the invalid ids of the library, the largest value of an
      integer type, entries of a cell-wise field of ids) are followed through
      variables, members, containers, tuples, parameters and results.  Where
      a value that may be a marker becomes an index, a key, an operand of
      arithmetic or an argument of a function that relies on it, every path
      must have compared it before.

State: (bad, ok): variables that may hold a marker (may), canonical values
known not to be one (must).
"""
from canon import *
from util import *

import re
_INT = re.compile(r"^(const )?(unsigned |long |short |signed )*(int|long|short|char|unsigned)( const)?( ?&)*$")
MAXES = {"4294967295", "18446744073709551615", "2147483647", "9223372036854775807", "65535", "255"}
MAPS = ("std::map<", "std::unordered_map<", "std::multimap<")
CELLIDX = {"global_active_cell_index", "active_cell_index"}


def is_int(t):
    return bool(_INT.match((t or "").strip()))


def strip_const(n):
    return clean_ty(n or "")


def marker(n):
    """the node denotes a marker constant"""
    if n is None:
        return False
    q = n.a.get("q") or ""
    if n.k in ("ref", "mem"):
        if q.startswith("dealii::numbers::invalid_") or (q.startswith("dealii::") and short(q).startswith("invalid_")):
            return True
        return False
    if n.k == "call" and q.endswith("::max") and "numeric_limits" in q and len(n.c) <= 1:
        return is_int(n.a.get("ty"))
    if n.k == "cast" and n.c:
        v = n.c[0]
        return is_int(n.a.get("ty")) and "unsigned" in (n.a.get("ty") or "") and literal(v) == "-1"
    return False


def cell_field(n):
    """element of a distributed field addressed by the index of a cell"""
    if n.k != "call" or not (n.a.get("op") in ("[]", "()") or short(n.a.get("q") or "") in ("operator[]", "operator()")) or len(n.c) != 2:
        return False
    o = unwrap(n.c[0])
    ty = clean_ty((o.a.get("ty") or "") if o is not None else "")
    if "distributed::Vector" not in ty or "Block" in ty.split("<")[0]:
        return False
    return any(x.k == "call" and short(x.a.get("q") or "") == "global_active_cell_index" for x in n.c[1].walk())


class Marks:
    """summaries of the program"""

    def __init__(self):
        self.ret = set()       # functions that may return a marker
        self.field = set()     # (class, member) that may hold one (or contain some)
        self.weak = set()      # members that receive one through a constructor: judged where the function tests them
        self.param = set()     # parameters of constructors that receive one
        self.need = {}         # (fn, index) -> where it relies on the value
        self.changed = False

    def add(self, s, x):
        if x not in s:
            s.add(x)
            self.changed = True


E2 = (frozenset(), frozenset())


class Sent(Flow):
    max_depth = 6

    def __init__(self, E, M, f, final):
        super().__init__(E)
        self.M, self.f, self.final = M, f, final
        self.pidx = {p[1]: i for i, p in enumerate(f.params)}
        self.uses = {}
        self.content = set()       # local containers with marker entries
        self.checks = 0

    def join(self, a, b):
        return (a[0] | b[0], a[1] & b[1])

    def want(self, callee, call, fr):
        return not isinstance(callee, Fn)

    # -- values ----------------------------------------------------------
    def key(self, e, fr):
        o, of = self.E.origin(e, fr)
        o = unwrap(o)
        while o is not None and o.k == "mem" and o.a.get("n") in ("first", "second") and o.c:
            o, of = self.E.origin(o.c[0], of)
            o = unwrap(o)
        while o is not None and o.k == "call" and (o.a.get("q") or "") == "std::get" and o.c:
            o, of = self.E.origin(o.c[0], of)
            o = unwrap(o)
        if o is None:
            return None
        if o.k == "ref" and o.a.get("dk") == "binding":
            own = self.E.owner(of, o.a["id"])
            info = self.E.info(own.body if own.body is not None else own.fn)
            b = info.binds.get(o.a["id"])
            if b is not None:
                return "$bind" + b.a["id"]
        if o.k in ("lit", "lambda"):
            return None
        return canon(self.E, o, of)

    def var_id(self, e, fr):
        o = unwrap(e)
        return o.a.get("id") if o is not None and o.k == "ref" and o.a.get("dk") in ("var", "parm", "binding") else None

    def maybe(self, e, fr, st, d=0):
        """why e may be a marker here, or None"""
        if e is None or d > 12:
            return None
        # a plain variable with its own history
        x = unwrap(e)
        if x is None:
            return None
        if marker(x) or marker(e):
            return "mark"
        v = self.var_id(x, fr)
        if v is not None and v in st[0]:
            return "mark" if self.key(x, fr) not in st[1] else None
        o, of = self.E.origin(x, fr)
        o2 = o
        while o2 is not None and o2.k == "cast" and o2.c and not marker(o2):
            o2 = o2.c[0]
        o = o2 if marker(o2) else unwrap(o)
        if o is None:
            return None
        if marker(o):
            return "mark"
        k = self.key(e, fr)
        if k is not None and k in st[1]:
            return None
        if o.k == "ref":
            i = o.a.get("id")
            if i in st[0]:
                return "mark"
            if o.a.get("dk") == "binding":
                own = self.E.owner(of, i)
                info = self.E.info(own.body if own.body is not None else own.fn)
                b = info.binds.get(i)
                if b is not None and b.c and i not in info.writes:
                    return self.maybe(b.c[0], own, st, d + 1)
            if o.a.get("dk") == "parm" and i in self.pidx and is_int(self.f.params[self.pidx[i]][2]):
                own = self.E.owner(of, i)
                if own.parent is None and i not in self.E.info(self.f).writes:
                    return ("param", self.pidx[i])
            return None
        if o.k == "cond":
            t, f = self.cond(o.c[0], of, st)
            return (self.maybe(o.c[1], of, t, d + 1) if t is not None else None) or (self.maybe(o.c[2], of, f, d + 1) if f is not None else None)
        if o.k == "mem":
            if o.a.get("n") in ("first", "second") and o.c:
                return self.maybe(o.c[0], of, st, d + 1)
            fk = self.fieldkey(o, of)
            return "mark" if fk in self.M.field or (fk in self.M.weak and fk[-1] in self.tested) else None
        if o.k in ("il", "ctor") and ("pair" in (o.a.get("ty") or o.a.get("q") or "") or "tuple" in (o.a.get("ty") or o.a.get("q") or "")):
            for c in o.c:
                r = self.maybe(c, of, st, d + 1)
                if r == "mark":
                    return r
            return None
        if o.k == "ctor" and len(o.c) == 1:
            return self.maybe(o.c[0], of, st, d + 1)
        if o.k == "sub" or (o.k == "call" and (o.a.get("op") in ("[]", "()") or short(o.a.get("q") or "") == "at") and len(o.c) >= 2):
            if cell_field(o):
                return "cell"
            return "mark" if self.holds(o.c[0], of) else None
        if o.k == "call":
            q = o.a.get("q") or ""
            if q in ("std::make_pair", "std::make_tuple"):
                for c in o.c:
                    r = self.maybe(c, of, st, d + 1)
                    if r == "mark":
                        return r
                return None
            if q == "std::get" and o.c:
                return self.maybe(o.c[0], of, st, d + 1)
            ts = self.P.targets(o)
            if ts and any(t.id in self.M.ret for t in ts):
                return "mark"
        return None

    def fieldkey(self, o, fr):
        return ("f", o.a.get("id")) if o.a.get("id") else ("n", o.a.get("n"), clean_ty((o.c[0].a.get("ty") or "") if o.c and o.c[0] is not None else ""))

    def base(self, o, fr):
        """variable or member a container expression denotes"""
        for _ in range(8):
            o, fr = self.E.origin(o, fr)
            o = unwrap(o)
            if o is None:
                return None
            if o.k == "ref":
                own = self.E.owner(fr, o.a.get("id"))
                if o.a.get("id") in own.args and is_ref_type(own.args[o.a["id"]][2]):
                    x, fr, _ = own.args[o.a["id"]]
                    o = x
                    continue
                info = self.E.info(own.body if own.body is not None else own.fn)
                v = info.decl.get(o.a.get("id"))
                if v is not None and v.a.get("ref") and v.c and v.c[0] is not None:
                    o, fr = v.c[0], own
                    continue
                return ("v", o.a.get("id"))
            if o.k == "mem":
                return self.fieldkey(o, fr)
            if (o.k == "sub" or o.k == "call" and (o.a.get("op") in ("[]", "()", "*") or short(o.a.get("q") or "") in ("at", "back", "front"))) and o.c:
                o = o.c[0]
                continue
            return None
        return None

    def holds(self, o, fr):
        b = self.base(o, fr)
        return b is not None and (b in self.M.field if b[0] != "v" else b[1] in self.content or ("c", b[1]) in self.M.field)

    def fill(self, o, fr):
        b = self.base(o, fr)
        if b is None:
            return
        x = o
        for _ in range(6):
            x = unwrap(x)
            if x is None or x.k not in ("sub", "call") or not x.c:
                break
            x = x.c[0]
        if x is None or not contains_ints(x.a.get("ty")):
            return
        if b[0] == "v":
            if b[1] not in self.content:
                self.content.add(b[1])
                self.M.changed = True
                self.M.field.add(("c", b[1]))
        else:
            self.M.add(self.M.field, b)

    # -- state -----------------------------------------------------------
    def forget(self, vid, st, bad):
        t = "$" + vid.rsplit("/", 1)[-1]
        ok = frozenset(k for k in st[1] if not mentions(k, t)) if st[1] else st[1]
        b = (st[0] | {vid}) if bad else (st[0] - {vid})
        return (b, ok) if b != st[0] or len(ok) != len(st[1]) else st

    def on_decl(self, v, fr, st):
        st = self.forget(v.a["id"], st, False)
        for _, b in v.a.get("bind") or ():
            st = self.forget(b, st, False)
        st = (st[0], frozenset(k for k in st[1] if k != "$bind" + v.a["id"])) if v.a.get("bind") else st
        i = v.c[0] if v.c else None
        if i is None:
            return st
        ty = v.a.get("ty") or ""
        if is_int(ty) and v.a["id"] in self.E.info(fr.body if fr.body is not None else fr.fn).writes:
            if self.maybe(i, fr, st) in ("mark",):
                st = self.forget(v.a["id"], st, True)
        # std::vector<unsigned int> a(n, marker)
        self.fill_ctor(i, ("var", v), fr, st)
        return st

    def fill_ctor(self, i, tgt, fr, st):
        x = i
        while x is not None and x.k == "cast" and x.c:
            x = x.c[0]
        if x is not None and x.k in ("ctor", "il") and contains_ints(x.a.get("ty") or (tgt[1].a.get("ty") if tgt[0] == "var" else "")):
            if any(self.maybe(c, fr, st) == "mark" for c in x.c if c is not None and (is_int(c.a.get("ty")) or marker(unwrap(c)) or "pair" in (c.a.get("ty") or ""))):
                vid = tgt[1].a["id"]
                if vid not in self.content:
                    self.content.add(vid)
                    self.M.field.add(("c", vid))
                    self.M.changed = True

    def on_assign(self, n, lhs, rhs, fr, st):
        x = unwrap(lhs)
        v = self.var_id(lhs, fr)
        plain = n.a.get("op") == "="
        why = self.maybe(rhs, fr, st) if plain else None
        if v is not None:
            own = self.E.owner(fr, v)
            return self.forget(v, st, why == "mark" and is_int(x.a.get("ty")))
        if not plain or x is None:
            return st
        if x.k == "mem" and why == "mark" and x.a.get("n") not in ("first", "second"):
            if is_int(x.a.get("ty")) or "pair" in (x.a.get("ty") or ""):
                self.M.add(self.M.field, self.fieldkey(x, fr))
        elif (x.k == "sub" or x.k == "call") and why == "mark":
            self.fill(x, fr)
        # a value just stored is known
        k = self.key(lhs, fr)
        if k is not None and x.k in ("sub", "call", "mem"):
            if why is None:
                return (st[0], st[1] | {k})
            if k in st[1]:
                return (st[0], st[1] - {k})
        return st

    def on_incdec(self, n, fr, st):
        v = self.var_id(n.c[0], fr)
        return self.forget(v, st, False) if v is not None else st

    def on_init(self, i, fr, st):
        e = i.get("e")
        if e is not None and i.get("id") and fr.parent is None:
            w = self.maybe(e, fr, st)
            if w == "mark" or (isinstance(w, tuple) and (self.f.id, w[1]) in self.M.param):
                self.M.add(self.M.field if w == "mark" else self.M.weak, ("f", i["id"]))
        return st

    # -- guards ------------------------------------------------------------
    def on_cond(self, n, truth, fr, st, d=0):
        if n is None or d > 6:
            return st
        if n.k == "un" and n.a.get("op") == "!":
            return self.on_cond(unwrap(n.c[0]), not truth, fr, st, d + 1)
        op = n.a.get("op")
        if (n.k == "bin" or n.k == "call") and op in ("==", "!=", "<", "<=", ">", ">=") and len(n.c) == 2:
            for a, b, o in ((n.c[0], n.c[1], op), (n.c[1], n.c[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                st = self.compared(a, b, o, truth, fr, st)
            # looking for the value in a container
            for s in n.c:
                y = unwrap(s)
                if y is not None and y.k == "call" and short(y.a.get("q") or "") in ("find", "count", "lower_bound"):
                    for a in args_of(y):
                        st = self.valid(a, fr, st)
            return st
        if n.k == "bin" and op in ("&&", "||"):
            if (op == "&&") == truth:
                for c in n.c:
                    st = self.on_cond(unwrap(c), truth, fr, st, d + 1)
            return st
        if n.k == "call":
            s = short(n.a.get("q") or "")
            if s in ("contains", "count", "find"):
                for a in args_of(n):
                    st = self.valid(a, fr, st)
                return st
            # a predicate of the sources
            o, of = self.E.origin(n, fr)
            if o is not None and o is not n and (of is not fr or o.k != "call"):
                return self.on_cond(unwrap(o), truth, of, st, d + 1)
            if self.P.targets(n) or any(not isinstance(c, Fn) for c in self.E.callees(n, fr)):
                for a in n.c:
                    if a is not None and (is_int(a.a.get("ty")) or is_int((unwrap(a).a.get("ty") or "") if unwrap(a) is not None else "")):
                        st = self.valid(a, fr, st)
            return st
        if n.k == "ref":
            o, of = self.E.origin(n, fr)
            if o is not None and o is not n:
                return self.on_cond(unwrap(o), truth, of, st, d + 1)
            # a flag: what it was set along with is not followed
            st = self.flagged(n, truth, fr, st)
        return st

    def flagged(self, n, truth, fr, st):
        """bool flag set where a variable got its value"""
        if not st[0] or not truth:
            return st
        own = self.E.owner(fr, n.a.get("id"))
        info = self.E.info(own.body if own.body is not None else own.fn)
        out = st
        for w in info.writes.get(n.a.get("id"), ()):
            blk = enclosing(w, "blk")
            if blk is None:
                continue
            for x in blk.find("bin"):
                if x.a.get("op") == "=":
                    v = self.var_id(x.c[0], fr)
                    if v in out[0]:
                        out = self.forget(v, out, False)
        return out

    def compared(self, a, b, op, truth, fr, st):
        y, of = self.E.origin(b, fr)
        y = b if marker(unwrap(b)) or marker(b) else y
        isn = marker(y) or marker(unwrap(y)) or marker(b)
        x = unwrap(a)
        flt = x is not None and (x.a.get("ty") or "").replace("const ", "").strip(" &") in ("double", "float")
        o, _ = self.E.origin(a, fr)
        o = unwrap(o)
        cell = o is not None and cell_field(o)
        if op in ("==", "!="):
            eq = (op == "==") == truth
            if isn:
                # relying on it: the other branch throws
                if throws_on(self, a, b, op, fr):
                    w = self.maybe(a, fr, st)
                    if isinstance(w, tuple):
                        self.M.need.setdefault((self.f.id, w[1]), a.loc)
                return st if eq else self.valid(a, fr, st)
            if cell or flt:
                # an id compared with the id of 'nothing' or with another id
                if not eq or self.maybe(b, fr, st) is None and not constant(y):
                    return self.valid(a, fr, st)
                return st
            if eq and self.maybe(b, fr, st) is None:
                return self.valid(a, fr, st)
            return st
        if cell or flt:
            if (op in (">=", ">") and truth) or (op in ("<", "<=") and not truth):
                return self.valid(a, fr, st)
            return st
        if (op in ("<", "<=") and truth and (op == "<" or not isn)) or (op in (">=", ">") and not truth and not (op == ">" and isn)):
            return self.valid(a, fr, st)
        return st

    def valid(self, e, fr, st):
        v = self.var_id(e, fr)
        if v is not None and v in st[0]:
            st = (st[0] - {v}, st[1])
        k = self.key(e, fr)
        if k is not None and k not in st[1]:
            st = (st[0], st[1] | {k})
        return st

    # -- uses --------------------------------------------------------------
    def use(self, e, n, fr, st, how):
        if e is None:
            return
        w = self.maybe(e, fr, st)
        if isinstance(w, tuple):
            if (self.f.id, w[1]) not in self.M.need and how != "arithmetic":
                self.M.need[(self.f.id, w[1])] = n.loc
                self.M.changed = True
            return
        src = self.source(e, fr)
        if w is None and not src:
            return
        k = (n.loc, how, desc(e))
        o = self.uses.setdefault(k, [True, n, e, how])
        o[0] = o[0] and w is None

    def source(self, e, fr):
        """could be a marker without the tests"""
        return self.maybe(e, fr, E2) in ("mark", "cell") or (self.var_id(e, fr) is not None and self.var_id(e, fr) in self.everbad)

    everbad = frozenset()
    tested = frozenset()

    def on_node(self, n, fr, st):
        if n.k == "sub" and len(n.c) == 2:
            self.use(n.c[1], n, fr, st, "an index")
        elif n.k == "bin" and n.a.get("op") in ("+", "-", "*", "/", "%") and len(n.c) == 2 and is_int(n.a.get("ty")):
            for c in n.c:
                self.use(c, n, fr, st, "arithmetic")
        return st

    def on_call(self, n, fr, st):
        q = n.a.get("q") or ""
        s = short(q)
        a = args_of(n)
        cty = clean_ty((unwrap(n.c[0]).a.get("ty") or "") if n.c and unwrap(n.c[0]) is not None else "")
        if (n.a.get("op") in ("[]", "()") or s in ("at", "block", "operator[]")) and len(n.c) >= 2 and not self.P.targets(n) and "std::function" not in cty:
            if not any(not isinstance(c, Fn) for c in self.E.callees(n, fr)):
                for x in n.c[1:]:
                    self.use(x, n, fr, st, "an index or key")
        oty = clean_ty((unwrap(n.c[0]).a.get("ty") or "") if n.a.get("m") and n.c and unwrap(n.c[0]) is not None else "")
        if n.a.get("m") and oty.startswith(MAPS) and s in ("emplace", "try_emplace", "insert_or_assign") and len(a) >= 2:
            self.use(a[0], n, fr, st, "a key")
        # containers of ids
        if n.a.get("m") and not self.P.targets(n) and s in ("push_back", "emplace_back", "insert", "assign", "resize", "fill", "push", "emplace", "try_emplace", "insert_or_assign", "reinit"):
            for x in (a if s not in ("emplace", "try_emplace", "insert_or_assign") or not oty.startswith(MAPS) else a[1:]):
                if x is not None and self.maybe(x, fr, st) == "mark":
                    self.fill(n.c[0], fr)
        if q in ("std::fill", "std::fill_n") and a and self.maybe(a[-1], fr, st) == "mark":
            b = unwrap(a[0])
            if b is not None and b.k == "call" and b.c:
                self.fill(b.c[0], fr)
        for t in self.P.targets(n):
            for i, x in enumerate(a):
                if (t.id, i) in self.M.need:
                    self.use(x, n, fr, st, f"argument {i + 1} of {t.n}")
                elif x is not None and i < len(t.params) and is_int(t.params[i][2]) and t.isctor and self.maybe(x, fr, st) == "mark":
                    self.M.add(self.M.param, (t.id, i))
        # written by the callee
        pm = n.a.get("pm") or ""
        for i, x in enumerate(a):
            if i < len(pm) and pm[i] in "rp" and x is not None:
                v = self.var_id(x, fr)
                if v is not None and v in st[0]:
                    st = self.forget(v, st, False)
                    return self.enter(n, fr, st)
        return NotImplemented

    def on_ctor(self, n, fr, st):
        for t in self.P.targets(n):
            for i, x in enumerate(n.c):
                if x is not None and i < len(t.params) and is_int(t.params[i][2]) and self.maybe(x, fr, st) == "mark":
                    self.M.add(self.M.param, (t.id, i))
        return NotImplemented

    def on_return(self, n, fr, st):
        if fr.parent is None and n.c and n.c[0] is not None:
            r = n.c[0]
            if (is_int(self.f.rty) or "pair<" in (self.f.rty or "") or "tuple<" in (self.f.rty or "")) and self.maybe(r, fr, st) == "mark":
                self.M.add(self.M.ret, self.f.id)
            o = unwrap(r)
            if o is not None and contains_ints(self.f.rty or "") and o.k in ("ref", "mem") and self.holds(o, fr):
                self.M.add(self.M.ret, self.f.id)
        return st


def constant(y):
    y = unwrap(y)
    return y is None or y.k in ("lit", "un") or (y.k == "ref" and y.a.get("dk") in ("parm", "gvar")) or (y.k in ("mem", "ref") and y.a.get("cv") is not None) or y.k == "mem"


def contains_ints(t, d=0):
    """container of (containers or pairs of) integers"""
    t = clean_ty(t or "")
    if t.startswith("const "):
        t = t[6:]
    if d > 4 or "<" not in t:
        return False
    head, rest = t.split("<", 1)
    args, lvl, cur = [], 0, ""
    for ch in rest:
        if ch in "<(":
            lvl += 1
        elif ch in ">)":
            lvl -= 1
            if lvl < 0:
                break
        if ch == "," and lvl == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    args.append(cur.strip())
    if head in ("std::map", "std::unordered_map", "std::multimap"):
        args = args[1:2]
    elif head in ("std::vector", "std::array", "std::deque", "std::set", "std::list", "std::optional", "dealii::Table", "dealii::AlignedVector"):
        args = args[1:2] if head == "dealii::Table" else args[:1]
    elif head in ("std::pair", "std::tuple"):
        return any(is_int(x) or contains_ints(x, d + 1) for x in args)
    else:
        return False
    return any(is_int(x) or contains_ints(x, d + 1) for x in args)


def throws_on(self, a, b, op, fr):
    """the comparison is an assertion: equality leaves the function by an exception"""
    n = a
    while n is not None and n.k not in ("if", "blk", "lambda"):
        n = n.p
    if n is None or n.k != "if":
        return False
    t = [x for s in n.c[2:3] if s is not None for x in s.walk()]
    return any(x.k == "throw" or (x.k == "call" and "issue_error" in (x.a.get("q") or "")) for x in t)


def mentions(k, t):
    i = k.find(t)
    while i >= 0:
        e = i + len(t)
        if e >= len(k) or not k[e].isdigit():
            return True
        i = k.find(t, e)
    return False


def desc(e):
    x = unwrap(e)
    if x is None:
        return "?"
    if x.k in ("ref", "mem"):
        return x.a.get("n") or "?"
    if x.k in ("sub", "call") and x.c:
        return desc(x.c[0]) + "[]" if x.k == "sub" or x.a.get("op") in ("[]", "()") else short(x.a.get("q") or "?")
    return x.k


def run(P, E, C):
    fns, seen = [], set()
    for f in P.fns:
        if f.dep or f.body is None or (f.loc, f.q) in seen:
            continue
        seen.add((f.loc, f.q))
        fns.append(f)
    M = Marks()
    ever, tested = {}, {}
    for f in fns:
        ids = set()
        for n in f.find("var", "bin"):
            if n.k == "var" and n.c and n.c[0] is not None and (marker(unwrap(n.c[0])) or marker(n.c[0])):
                ids.add(n.a["id"])
            elif n.k == "bin" and n.a.get("op") == "=" and (marker(unwrap(n.c[1])) or marker(n.c[1])):
                x = unwrap(n.c[0])
                if x is not None and x.k == "ref":
                    ids.add(x.a.get("id"))
        ever[f.id] = frozenset(ids)
        ts = set()
        for n in f.find("bin", "call"):
            if n.a.get("op") in ("==", "!=", "<") and len(n.c) == 2 and any(marker(unwrap(c)) or marker(c) for c in n.c if c is not None):
                ts |= {x.a.get("id") for c in n.c if c is not None for x in c.walk() if x.k == "mem"}
        tested[f.id] = frozenset(ts)
    # members with a marker as their default value
    for recs in P.rec_by_id.values():
        for r in recs:
            for fd in r.fields:
                d = fd.get("e") or fd.get("init")
                if d is not None and hasattr(d, "k") and (marker(unwrap(d)) or marker(d)) and fd.get("id"):
                    M.field.add(("f", fd["id"]))
    res = {}
    for rnd in range(5):
        M.changed = False
        for f in fns:
            w = Sent(E, M, f, False)
            w.everbad = ever[f.id]
            w.tested = tested[f.id]
            w.run(f, E2)
            res[f.id] = (f, w)
        if not M.changed:
            break
    for f, w in res.values():
        for (loc, how, nm), (ok, n, e, _) in sorted(w.uses.items()):
            C.judge(ok, "told-apart", f"{f.q}/{nm}/{how}", loc,
                    f"{f.q}: {nm}, which may stand for 'nothing', " + ("is tested before it is used as " if ok else "is used without a test as ") + how)
    C.need("told-apart", 10)
