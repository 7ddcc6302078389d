"""M07: ghost values of distributed vectors.

run   ghost-restore: a function leaves the ghost values of the vectors it is
      given as it found them; ghost-leak: vectors given read-only do not come
      back ghosted.
"""
from canon import *
from util import *

READS = {"get_function_values", "get_function_gradients", "get_dof_values", "get_interpolated_dof_values", "add_data_vector", "process_cell",
         "integrate_difference", "read_dof_values", "read_dof_values_plain"}
UP, DOWN, HAS = "update_ghost_values", "zero_out_ghost_values", "has_ghost_elements"


class Ghost(Flow):
    """state: '0' no ghost values, '1' ghost values, '?' either -- for one
    vector and one assumed state at entry"""

    def __init__(self, E, vec, entry):
        super().__init__(E)
        self.vec, self.entry = vec, entry
        self.reads = {}
        self.downs = {}

    def join(self, a, b):
        return a | b

    def pl(self, e, fr):
        return self.E.place(e, fr) if e is not None else None

    def mine(self, p):
        if p is None:
            return False
        if p == self.vec or (p[:len(self.vec)] == self.vec and set(p[len(self.vec):]) <= {"[]"}):
            return True
        # one block: also what is done to the whole vector, or to all blocks
        k = len(self.vec) - 1
        return k >= 3 and self.vec[k].startswith("[") and (p == self.vec[:k] or p == self.vec[:k] + ("[]",))

    def want(self, callee, call, fr):
        if not isinstance(callee, Fn):
            return True
        if callee.n in (UP, DOWN, HAS):
            return False
        # only callees the vector is handed to
        return any(x is not None and self.mine(self.pl(x, fr)) for x in args_of(call)) and len(self.stack) < 5

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or n.a.get("n") or "")
        if s in (UP, DOWN, "compress") and n.a.get("m") and n.c:
            if self.mine(self.pl(obj_of(n), fr)):
                if s == UP:
                    return frozenset("1")
                if s == DOWN:
                    self.downs[n.loc] = self.downs.get(n.loc, frozenset()) | st
                    return frozenset("0")
        if s in READS and any(x is not None and self.mine(self.pl(x, fr)) for x in n.c):
            self.reads[n.loc] = self.reads.get(n.loc, frozenset()) | st
        return NotImplemented

    def loop(self, n, cond, body, inc, fr, st, post=False):
        # a loop over the blocks of the vector visits them all
        if n.k in ("for", "rfor") and any(short(c.a.get("q") or c.a.get("n") or "") in (UP, DOWN) and c.c and self.mine(self.pl(obj_of(c), fr)) for c in body.find("call")):
            post = True
        return Flow.loop(self, n, cond, body, inc, fr, st, post)

    def on_cond(self, n, truth, fr, st):
        v = self.known(n, fr, st)
        if v is None:
            return st
        if isinstance(v, bool):
            return st if v == truth else None
        # the state itself decides
        keep = frozenset(x for x in st if (x == "1") == (v[1] == truth))
        return keep or None

    def known(self, n, fr, st, depth=0):
        y = unwrap(n)
        if y is None or depth > 6:
            return None
        if y.k == "un" and y.a.get("op") == "!":
            v = self.known(y.c[0], fr, st, depth + 1)
            return (not v) if isinstance(v, bool) else (v[0], not v[1]) if v else None
        if y.k == "bin" and y.a.get("op") in ("==", "!="):
            for a, b in ((y.c[0], y.c[1]), (y.c[1], y.c[0])):
                b = unwrap(b)
                if b is not None and b.k == "lit" and b.a.get("lt") == "bool":
                    v = self.known(a, fr, st, depth + 1)
                    same = (b.a["v"] == "true") == (y.a["op"] == "==")
                    if v is None:
                        return None
                    if isinstance(v, bool):
                        return v == same
                    return (v[0], v[1] == same)
            return None
        if y.k == "call" and short(y.a.get("q") or y.a.get("n") or "") == HAS and y.c and self.mine(self.pl(obj_of(y), fr)):
            return ("now", True)
        if y.k == "ref" and y.a.get("dk") in ("var", "parm", "binding"):
            o, of = self.E.origin(y, fr)
            if o is not None and o is not y:
                v = self.known(o, of, st, depth + 1)
                # asked before anything changed: the state at entry
                if isinstance(v, tuple) and o.k in ("call", "un", "bin"):
                    return self.entry == v[1] if self.first(o) else None
                return v
        return None

    def first(self, o):
        """the question was asked before the vector's ghost values changed"""
        f = o.fn
        for n in f.walk():
            if n is o:
                return True
            if n.k == "call" and short(n.a.get("q") or n.a.get("n") or "") in (UP, DOWN) and n.loc != o.loc and self.same_name(n):
                if n.l < o.l:
                    return False
        return True

    def same_name(self, n):
        y = unwrap(obj_of(n)) if n.c else None
        return y is not None and y.k == "ref" and y.a.get("id") == self.vec[1]


class LocalGhost(Ghost):
    """a vector the function made itself: without ghost values after it was
    set up or filled, '?' after anything whose effect is not known"""

    def on_decl(self, v, fr, st):
        return frozenset("0") if v.a.get("id") == self.vec[1] and not v.c else frozenset("?") if v.a.get("id") == self.vec[1] else st

    def on_assign(self, n, lhs, rhs, fr, st):
        return frozenset("?") if self.mine(self.pl(lhs, fr)) else st

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or n.a.get("n") or "")
        if n.a.get("m") and n.c and s in ("reinit", "copy_locally_owned_data_from", "import_elements") and self.mine(self.pl(obj_of(n), fr)):
            a = args_of(n)
            like = a and vector_param("&" + (a[0].a.get("ty") or "")) and s == "reinit"
            return frozenset("?" if like else "0")
        r = Ghost.on_call(self, n, fr, st)
        if r is NotImplemented and s not in READS and s not in (UP, DOWN, HAS):
            pm = n.a.get("pm") or ""
            for j, x in enumerate(args_of(n)):
                if x is not None and j < len(pm) and pm[j] in "rp" and self.mine(self.pl(x, fr)):
                    return frozenset("?")
            if n.a.get("m") and n.c and s in ("swap", "operator=") and self.mine(self.pl(obj_of(n), fr)):
                return frozenset("?")
        return r


def run_local(P, E, C):
    seen = set()
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        ups = [n for n in f.find("call") if short(n.a.get("q") or n.a.get("n") or "") == UP and n.c and enclosing(n, "lambda") is None]
        if not ups:
            continue
        fr = E.root(f)
        for v in f.find("var"):
            if not vector_param(v.a.get("ty")) or v.a.get("ref") or is_ref_type(v.a.get("ty")) or is_ptr_type(v.a.get("ty")):
                continue
            vec = ("var", v.a.get("id"), fr.uid)
            if not any(E.place(obj_of(n), fr) in (vec, vec + ("[]",)) for n in ups) or (v.loc, f.loc) in seen:
                continue
            seen.add((v.loc, f.loc))
            w = LocalGhost(E, vec, False)
            w.run(f, frozenset("?"), fr)
            for loc, s in w.reads.items():
                C.judge("0" not in s, "ghost-read", f"{f.q}/{v.a.get('n')}/local", loc, f"{f.q}: {v.a.get('n')} is read at {loc} " + ("with up-to-date ghost values" if "0" not in s else "without its ghost values"))


def vector_param(t):
    t = clean_ty((t or "").removeprefix("dep:"))
    return t.startswith(("dealii::LinearAlgebra::distributed::", "dealii::LinearAlgebra::ReadWriteVector", "std::vector<std::shared_ptr<dealii::LinearAlgebra::distributed"))


def run(P, E, C):
    seen = {}
    for f in P.fns:
        if f.dep or f.body is None or f.n in (UP, DOWN):
            continue
        calls = [n for n in f.find("call") if short(n.a.get("q") or n.a.get("n") or "") in (UP, DOWN) and n.c]
        if not calls:
            continue
        fr = E.root(f)
        vecs = [(p, ("var", p[1], fr.uid)) for p in f.params if vector_param(p[2]) and "&" in p[2]]
        for p, vec in list(vecs):
            # single blocks are asked and restored on their own
            for n in f.find("call"):
                if short(n.a.get("q") or n.a.get("n") or "") == HAS and n.c:
                    q = E.place(obj_of(n), fr)
                    if q is not None and q[:3] == vec and len(q) == 4 and re.fullmatch(r"\[\d+\]", str(q[3])) and (p, q) not in vecs:
                        vecs.append((p, q))
        for p, vec in vecs:
            w0 = Ghost(E, vec, False)
            if not any(w0.mine(E.place(obj_of(n), fr)) for n in calls if enclosing(n, "lambda") is None) and not touched(E, f, calls, p):
                continue
            const = p[2].strip().startswith("const ")
            asks = any(short(n.a.get("q") or n.a.get("n") or "") == HAS and root_is(E, obj_of(n), fr, vec) for n in f.find("call") if n.c)
            key = (f.loc, p[0], vec[3:])
            if key in seen:
                continue
            if not const and not asks:
                continue
            seen[key] = True
            for entry in ((False, True) if asks else (False,)):
                w = Ghost(E, vec, entry)
                out, exc = w.run(f, frozenset("1" if entry else "0"), fr)
                if out is None:
                    continue
                good = out == frozenset("1" if entry else "0")
                rule = "ghost-restore" if asks else "ghost-leak"
                txt = ("with" if entry else "without") + " ghost values at entry: "
                txt += "left as found" if good else ("ghost values may be gone at exit" if entry else "ghost values may remain at exit")
                C.judge(good, rule, f"{f.q}/{p[0]}/{int(entry)}", f.loc, f"{f.q}: {p[0]} {txt}")
                for loc, s in w.reads.items():
                    C.judge("0" not in s, "ghost-read", f"{f.q}/{p[0]}", loc, f"{f.q}: {p[0]} is read at {loc} " + ("with up-to-date ghost values" if "0" not in s else "without its ghost values"))
                for loc, s in w.downs.items():
                    C.judge("1" in s, "ghost-paired", f"{f.q}/{p[0]}", loc, f"{f.q}: ghost values of {p[0]} dropped at {loc} " + ("were set before" if "1" in s else "were never set"))
    run_local(P, E, C)
    C.need("ghost-restore", 3)


def touched(E, f, calls, p):
    return any(any(y.k == "ref" and y.a.get("id") == p[1] for y in obj_of(n).walk()) for n in calls if obj_of(n) is not None)


def root_is(E, o, fr, vec):
    p = E.place(o, fr)
    return p is not None and p[:len(vec)] == vec


# ---- entries of neighbouring processes' cells are current when read -----------
VEC_TY = re.compile(r"^(const )?dealii::LinearAlgebra::distributed::Vector<")
INDEX = ("global_active_cell_index", "active_cell_index")


def vec_type(t):
    return bool(VEC_TY.match(clean_ty((t or "").removeprefix("dep:"))))


class Fresh(Flow):
    """state: (vector place -> subset of EDU, cells known to be owned, cells
    known to be ghosts); E as at entry, D changed since the last update,
    U updated"""

    def __init__(self, E, S, f):
        super().__init__(E)
        self.S, self.f = S, f
        self.bad, self.good = {}, {}
        self.needs, self.wrote = {}, set()
        self.pidx = {p[1]: i for i, p in enumerate(f.params)}

    def join(self, a, b):
        if a == b:
            return a
        d = {k: a[0].get(k, frozenset("E")) | b[0].get(k, frozenset("E")) for k in set(a[0]) | set(b[0])}
        return (d, a[1] & b[1], a[2] & b[2])

    def want(self, callee, call, fr):
        return not isinstance(callee, Fn)

    # ---- vectors
    def vec(self, e, fr):
        x = unwrap(e)
        while x is not None and x.k in ("un", "cast") and x.c and x.a.get("op") in (None, "*", "&"):
            x = unwrap(x.c[0])
        if x is None or not vec_type(x.a.get("ty")):
            return None
        p = self.E.place(x, fr)
        return p if p is not None and p[0] in ("var", "this") else None

    def put(self, p, s, st):
        if p[0] == "var" and p[1] in self.pidx and s == "D":
            self.wrote.add(self.pidx[p[1]])
        if st[0].get(p) == frozenset(s):
            return st
        d = dict(st[0])
        d[p] = frozenset(s)
        return (d, st[1], st[2])

    def need(self, p, n, st, why):
        if p[0] == "var" and p[1] not in self.pidx and p not in st[0]:
            s = frozenset("D")
        else:
            s = st[0].get(p, frozenset("E"))
        if "D" in s:
            self.bad.setdefault((n.loc, p), why)
        else:
            self.good.setdefault((n.loc, p), why)
        if "E" in s and p[0] == "var" and p[1] in self.pidx and not self.S.asks(self.f, p[1]):
            self.needs.setdefault(self.pidx[p[1]], n.loc)

    # ---- cells
    def cell(self, e, fr, d=0):
        x = unwrap(e)
        while x is not None and x.c and (x.k in ("un", "cast") or (x.k == "call" and x.a.get("op") in ("*", "->") and len(x.c) == 1)):
            x = unwrap(x.c[0])
        if x is None:
            return None, None, None
        o, of = self.E.origin(x, fr)
        o = unwrap(o) if o is not None else None
        while o is not None and o.c and (o.k in ("un", "cast") or (o.k == "call" and o.a.get("op") in ("*", "->") and len(o.c) == 1) or
                                        (o.k == "ctor" and len(o.c) == 1)):
            o, of = self.E.origin(o.c[0], of)
            o = unwrap(o) if o is not None else None
        if o is None:
            return None, None, None
        return canon(self.E, o, of), o, of

    def neighbour(self, o, fr, st, d=0):
        """the cell lies behind a face of another cell"""
        if o is None or d > 4:
            return False
        if o.k == "call" and short(o.a.get("q") or "") in ("neighbor", "neighbor_or_periodic_neighbor", "periodic_neighbor", "neighbor_child_on_subface"):
            return True
        if o.k == "ref":
            own = self.E.owner(fr, o.a.get("id"))
            l = self.E.info(own.body if own.body is not None else own.fn).rfor
            src = l[o.a["id"]].c[1] if o.a.get("id") in l else None
            if src is not None:
                y = unwrap(src)
                if y is not None and y.k == "call" and short(y.a.get("q") or "") == "child_iterators" and y.c:
                    c, o2, f2 = self.cell(y.c[0], own)
                    return self.neighbour(o2, f2, st, d + 1)
        return False

    def on_cond(self, n, truth, fr, st):
        if n.k == "bin" and n.a.get("op") in ("==", "!=") and len(n.c) == 2:
            for a, b in (n.c, n.c[::-1]):
                v = literal(b)
                if v in ("true", "false"):
                    x = unwrap(a)
                    if x is not None:
                        return self.on_cond(x, ((n.a["op"] == "==") == (v == "true")) == truth, fr, st)
        if n.k == "ref":
            o, of = self.E.origin(n, fr)
            if o is not None and o is not n and unwrap(o) is not None and unwrap(o).k in ("call", "un", "bin"):
                y = unwrap(o)
                if y.k == "un" and y.a.get("op") == "!":
                    return self.on_cond(unwrap(y.c[0]), not truth, of, st)
                return self.on_cond(y, truth, of, st)
        if n.k == "call" and n.c:
            s = short(n.a.get("q") or n.a.get("n") or "")
            if s in ("is_locally_owned", "is_ghost"):
                c, _, _ = self.cell(n.c[0], fr)
                if c is not None:
                    if (s == "is_locally_owned") == truth:
                        if s == "is_locally_owned":
                            return (st[0], st[1] | {c}, st[2])
                    if s == "is_ghost" and truth:
                        return (st[0], st[1], st[2] | {c})
        return st

    def read(self, v, idx, n, fr, st):
        p = self.vec(v, fr)
        if p is None:
            return
        i, jf = self.E.origin(idx, fr)
        i = unwrap(i) if i is not None else None
        if i is None or i.k != "call" or short(i.a.get("q") or "") not in INDEX or not i.c:
            return
        c, o, of = self.cell(i.c[0], jf)
        if c is None or c in st[1]:
            return
        if c in st[2] or self.neighbour(o, of, st):
            self.need(p, n, st, "the value of a cell that may belong to another process is read")

    def on_assign(self, n, lhs, rhs, fr, st):
        return self.write(lhs, fr, st)

    def on_incdec(self, n, fr, st):
        return self.write(n.c[0], fr, st)

    def write(self, lhs, fr, st):
        x = unwrap(lhs)
        while x is not None and x.c and (x.k == "sub" or (x.k == "call" and x.a.get("op") in ("[]", "()"))):
            x = unwrap(x.c[0])
        p = self.vec(x, fr)
        if p is None and x is not None and x.k == "ref":
            own = self.E.owner(fr, x.a.get("id"))
            l = self.E.info(own.body if own.body is not None else own.fn).rfor
            src = l[x.a["id"]].c[1] if x.a.get("id") in l else None
            if src is not None:
                p = self.vec(src, own)
        return self.put(p, "D", st) if p is not None else st

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or n.a.get("n") or "")
        if n.a.get("m") and n.c and s in (UP, DOWN, "compress", "update_ghost_values_finish", "reinit"):
            p = self.vec(obj_of(n), fr)
            if p is not None:
                return self.put(p, "U" if s.startswith(UP) else "D", st)
        if n.a.get("op") in ("[]", "()") and len(n.c) == 2:
            if not written(n):
                self.read(n.c[0], n.c[1], n, fr, st)
            return NotImplemented
        ts = self.E.P.targets(n)
        if ts:
            a = args_of(n)
            for t in ts:
                sm = self.S.get(t)
                for i, why in sm[0].items():
                    if i < len(a):
                        p = self.vec(a[i], fr)
                        if p is not None:
                            self.need(p, n, st, f"{t.q} reads values of cells of other processes (at {why})")
                for i in sm[1]:
                    if i < len(a):
                        p = self.vec(a[i], fr)
                        if p is not None:
                            st = self.put(p, sm[2].get(i, "D"), st)
            return st
        return NotImplemented


def written(n):
    up = n.parent
    while up is not None and up.k == "cast":
        n, up = up, up.parent
    return up is not None and up.c and up.c[0] is n and (up.k == "bin" and up.a.get("op") == "=" or up.k == "call" and up.a.get("op") == "=")


class Freshness:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.s, self._asks = {}, {}
        self.flows = {}
        fs = [f for f in P.fns if not f.dep and f.body is not None and f.n not in (UP, DOWN) and any(vec_type(x.a.get("ty")) for x in f.find("ref", "mem"))]
        for _ in range(5):
            ch = False
            for f in fs:
                fl = Fresh(E, self, f)
                fr = E.root(f)
                out, _exc = fl.run(f, ({}, frozenset(), frozenset()), fr)
                fin = {}
                for i, p in enumerate(f.params):
                    s = (out[0] if out is not None else {}).get(("var", p[1], fr.uid))
                    if s is not None and i in fl.wrote or s == frozenset("U"):
                        fin[i] = "U" if s == frozenset("U") else "D"
                new = (dict(fl.needs), frozenset(fl.wrote) | frozenset(fin), fin)
                if new != self.s.get(f.id):
                    self.s[f.id] = new
                    ch = True
                self.flows[f.id] = (f, fl)
            if not ch:
                break

    def get(self, t):
        return self.s.get(t.id, ({}, frozenset(), {}))

    def asks(self, f, pid):
        k = (f.id, pid)
        if k not in self._asks:
            self._asks[k] = any(short(n.a.get("q") or n.a.get("n") or "") == HAS and n.c and any(y.k == "ref" and y.a.get("id") == pid for y in n.c[0].walk()) for n in f.find("call"))
        return self._asks[k]


def run_fresh(P, E, C):
    S = Freshness(P, E)
    for f, fl in S.flows.values():
        for (loc, p), why in {**fl.good, **fl.bad}.items():
            ok = (loc, p) not in fl.bad
            nm = next((q[0] for q in f.params if q[1] == p[1]), None) or (place_str(p) if p[0] == "this" else "a local vector")
            C.judge(ok, "ghost-fresh", f"{f.q}/{nm}", loc, f"{f.q}: {why}" + (f" although {nm} changed since its ghost values were updated" if not ok else f"; ghost values of {nm} are current"))
    C.need("ghost-fresh", 3)
