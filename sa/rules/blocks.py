"""Block vectors behave like the concatenation of their blocks: decided by
abstract interpretation of all members in a domain where a block is
represented by one generic entry, a size and a ghost flag."""
from absint import *


class Model(Obj):
    model = True

    def __init__(self, cls):
        super().__init__(cls)

    def op(self, o):
        return {"=": self.m_assign, "+=": self.m_iadd, "-=": self.m_isub, "*=": self.m_imul, "/=": self.m_idiv, "*": self.m_mul,
                "()": self.m_entry, "[]": self.m_entry}.get(o)

    m_assign = m_iadd = m_isub = m_imul = m_idiv = m_mul = m_entry = None


def sym(name, *a):
    return app(name, [rat(x) for x in a])


class Vec(Model):
    """one block"""
    count = 0

    def __init__(self, I=None, args=()):
        super().__init__("Vector")
        self.val, self.ghost, self.n, self.own, self.log, self.ent = Rat(0), False, 0, (), [], {}
        self.part = NULL
        if args and isinstance(args[0], int):
            self.n = args[0]

    def new(nm, n, ghost=False):
        v = Vec()
        v.val, v.n, v.ghost = atom(nm), n, ghost
        v.own = tuple(range(n % 3, n))
        v.part = Ref(Obj("partitioner " + nm))
        v.ent = {i: atom(f"{nm}[{i}]") for i in range(n)}
        return v

    def _v(self, x):
        x = unbox(x)
        if not isinstance(x, Vec):
            raise Undecided("block argument")
        if x.n != self.n:
            raise Undecided("layouts of blocks differ")
        return x.val

    def _s(self, x):
        return rat(unbox(x))

    def m_assign(self, I, x):
        x = unbox(x)
        if isinstance(x, Vec):
            self.val = x.val
            self.ghost = self.ghost or x.ghost
            self.n, self.own, self.part, self.ent = x.n, x.own, x.part, dict(x.ent)
        else:
            self.val = rat(x)
        return self

    def m_reinit(self, I, x=0, omit=False, *r):
        x, omit = unbox(x), unbox(omit)
        if isinstance(x, Vec):
            if x is not self or not omit:
                Vec.count += 1
                self.val = atom(f"old entries #{Vec.count}") if omit else Rat(0)
            self.n, self.own, self.part, self.ent = x.n, x.own, x.part, dict(x.ent)
        else:
            self.n, self.own = x, tuple(range(x))
            self.val = Rat(0)
        self.ghost = False

    def m_add(self, I, a, V=None, w=None, W=None):
        if V is None:
            if isinstance(unbox(a), Vec):
                raise Undecided("add")
            self.val = self.val + self._s(a)
            return
        r = self.val + self._s(a) * self._v(V)
        if W is not None:
            r = r + self._s(w) * self._v(W)
        self.val = r

    def m_sadd(self, I, s, a, V=None):
        if V is None:
            self.val = self._s(s) * self.val + self._v(a)
        else:
            self.val = self._s(s) * self.val + self._s(a) * self._v(V)

    def m_scale(self, I, V):
        self.val = self.val * self._v(V)

    def m_equ(self, I, a, V):
        self.val = self._s(a) * self._v(V)

    def m_imul(self, I, a):
        self.val = self.val * self._s(a)
        return self

    def m_idiv(self, I, a):
        self.val = self.val / self._s(a)
        return self

    def m_iadd(self, I, V):
        self.val = self.val + self._v(V)
        return self

    def m_isub(self, I, V):
        self.val = self.val - self._v(V)
        return self

    def m_mul(self, I, V):
        x = [self.val, self._v(V)]
        x.sort(key=repr_key)
        return sym(f"dot{self.n}", *x)

    def m_add_and_dot(self, I, a, V, W):
        w = unbox(W)
        self.m_add(I, a, V)
        return self.m_mul(I, w)

    def m_l2_norm(self, I):
        return rsqrt(self.m_norm_sqr(I))

    def m_norm_sqr(self, I):
        return sym(f"dot{self.n}", self.val, self.val)

    def m_l1_norm(self, I):
        return sym(f"l1norm{self.n}", self.val)

    def m_linfty_norm(self, I):
        return sym(f"maxnorm{self.n}", self.val)

    def m_mean_value(self, I):
        return sym(f"mean{self.n}", self.val)

    def m_all_zero(self, I):
        raise Undecided("all_zero")

    def m_size(self, I):
        return self.n

    def m_locally_owned_elements(self, I):
        s = IndexSet()
        s.s, s.n = set(self.own), self.n
        return s

    def m_get_partitioner(self, I):
        return self.part

    def m_get_mpi_communicator(self, I):
        return "comm"

    def m_update_ghost_values(self, I):
        self.ghost = True
        self.log.append("update_ghost_values")

    def m_zero_out_ghost_values(self, I):
        self.ghost = False
        self.log.append("zero_out_ghost_values")

    def m_compress(self, I, o):
        self.log.append(("compress", str(unbox(o))))

    def m_copy_locally_owned_data_from(self, I, V):
        self.val = self._v(V)

    def m_has_ghost_elements(self, I):
        return self.ghost

    def m_swap(self, I, V):
        V = unbox(V)
        for k in ("val", "ghost", "n", "own", "part", "ent"):
            a, b = getattr(self, k), getattr(V, k)
            setattr(self, k, b)
            setattr(V, k, a)

    def m_entry(self, I, i):
        i = unbox(i)
        if i not in self.ent:
            raise OutOfRange(f"entry {i} of a block of size {self.n}")
        return Slot(self.ent, i)

    m_local_element = None

    def m_memory_consumption(self, I):
        return 1


def repr_key(r):
    return str(sorted((str(k), str(v)) for k, v in r.n.items()))


class IndexSet(Model):
    def __init__(self, I=None, args=()):
        super().__init__("IndexSet")
        self.s, self.n = set(), args[0] if args else 0

    def m_add_indices(self, I, x, off=0):
        x, off = unbox(x), unbox(off)
        if isinstance(x, IndexSet):
            self.s |= {i + off for i in x.s}
        else:
            raise Undecided("indices")

    def m_add_index(self, I, i):
        self.s.add(unbox(i))

    def m_add_range(self, I, a, b):
        self.s |= set(range(unbox(a), unbox(b)))

    def m_compress(self, I):
        pass

    def m_size(self, I):
        return self.n

    def m_assign(self, I, x):
        x = unbox(x)
        self.s, self.n = set(x.s), x.n
        return self

    def m_set_size(self, I, k):
        self.n = unbox(k)


class BlockIndices(Model):
    def __init__(self, I=None, args=()):
        super().__init__("BlockIndices")
        self.f["s"] = []
        if args and isinstance(args[0], list):
            self.f["s"] = list(args[0])
        elif len(args) == 2:
            self.f["s"] = [args[1]] * args[0]

    def m_reinit(self, I, a, b=None):
        a = unbox(a)
        self.f["s"] = list(a) if isinstance(a, list) else [unbox(b)] * a

    def m_push_back(self, I, a):
        self.f["s"].append(unbox(a))

    def m_total_size(self, I):
        return sum(self.f["s"])

    def m_size(self, I):
        return len(self.f["s"])

    def m_block_size(self, I, i):
        return self.f["s"][unbox(i)]

    def m_block_start(self, I, i):
        return sum(self.f["s"][:unbox(i)])

    def m_global_to_local(self, I, i):
        i = unbox(i)
        for b, k in enumerate(self.f["s"]):
            if i < k:
                return Obj("std::pair", {"first": b, "second": i})
            i -= k
        raise OutOfRange("global index")

    def m_local_to_global(self, I, b, i):
        return sum(self.f["s"][:unbox(b)]) + unbox(i)

    def m_assign(self, I, x):
        self.f["s"] = list(unbox(x).f["s"])
        return self

    def m_swap(self, I, x):
        x = unbox(x)
        self.f["s"], x.f["s"] = x.f["s"], self.f["s"]


def model_copy(v):
    if isinstance(v, Vec):
        w = Vec()
        w.m_assign(None, v)
        w.ghost = v.ghost
        return w
    if isinstance(v, IndexSet):
        w = IndexSet()
        w.s, w.n = set(v.s), v.n
        return w
    if isinstance(v, BlockIndices):
        w = BlockIndices()
        w.f["s"] = list(v.f["s"])
        return w
    return None


def hook(q, n, I, fr):
    s = short(q)
    if s in ("max", "fmax") and len(n.c) >= 2 and q.startswith("std::"):
        a, b = I.rv(n.c[0], fr), I.rv(n.c[1], fr)
        if isinstance(a, Rat) or isinstance(b, Rat):
            return vmax(rat(a), rat(b))
    if s == "copy_locally_owned_data_from":
        return NotImplemented
    return NotImplemented


def vmax(a, b):
    """maximum of norms, which are not negative"""
    xs = []
    for v in (a, b):
        if v.zero():
            continue
        t = None
        at = list(v.atoms())
        if len(v.n) == 1 and len(at) == 1:
            k = ATOMS[at[0]]
            if k[0] == "app" and k[1][0] == "max" and v == Rat({((at[0], 1),): Fr(1)}):
                t = k[1][1]
        xs += t if t is not None else [v]
    u = []
    for x in sorted(xs, key=repr_key):
        if not u or not u[-1] == x:
            u.append(x)
    if not u:
        return Rat(0)
    return u[0] if len(u) == 1 else app("max", u)


SIZES = (5, 3, 4, 7, 2)
DBV = "DynamicBlockVector"


class B:
    def __init__(self, P, E, C):
        import formula
        self.P, self.C = P, C
        self.I = Abs(P, E, {"Vector": Vec, "IndexSet": IndexSet, "BlockIndices": BlockIndices}, hook)
        self.fn = [f for f in P.fns if f.cls and f.cls.split("::")[-1] == DBV and not f.dep]

    def vec(self, nm, n, ghost=False, off=0):
        bl = [Vec.new(f"{nm}{i}", SIZES[(i + off) % 5], ghost) for i in range(n)]
        f = self.fn[0]
        o = Obj((f.clsid, f.cargs), {"blocks": [Ref(b) for b in bl], "block_indices": BlockIndices(None, [[b.n for b in bl]])})
        return o

    def empty(self):
        f = self.fn[0]
        return Obj((f.clsid, f.cargs), {"blocks": [], "block_indices": BlockIndices()})

    def call(self, f, args, o):
        return unbox(self.I.call_fn(f, args, o))


def blocks_of(o):
    """the list of blocks, whatever the member is called"""
    for v in o.f.values():
        if isinstance(v, list) and all(isinstance(x, Ref) or isnull(x) for x in v):
            return v
    raise Undecided("blocks")


def consistent(o):
    b = [x.o for x in blocks_of(o)]
    for v in o.f.values():
        if isinstance(v, BlockIndices):
            return v.f["s"] == [x.n for x in b]
    return True


def scalar(ty):
    return SCALAR.match(clean_ty(ty)) is not None


def isdbv(ty):
    return DBV in clean_ty(ty).split("<")[0]


def run(P, E, C):
    import formula
    old = formula.copyv
    c = formula.copyv

    def cp(v):
        m = model_copy(v) if isinstance(v, Model) else None
        if m is not None:
            return m
        if isinstance(v, list):
            return [cp(x) for x in v]
        if isinstance(v, Obj):
            return Obj(v.cls, {k: cp(x) for k, x in v.f.items()})
        return v
    import absint
    formula.copyv = absint.copyv = cp
    try:
        _run(P, E, C)
    finally:
        formula.copyv = absint.copyv = old


def _run(P, E, C):
    b = B(P, E, C)
    if not b.fn:
        C.note("no block vector class")
        return
    for f in b.fn:
        try:
            one(b, f, C)
        except OutOfRange as u:
            C.bad("in-range", f"{f.n}({len(f.params)})", f.loc, f"{f.n} accesses blocks or entries which do not exist: {u}")
        except Undecided as u:
            C.note(f"{f.n} {f.loc}: {u}")
    C.need("entrywise", 10)
    C.need("layout", 5)


def one(b, f, C):
    ps = [p[2] for p in f.params]
    nm = f.n
    key = f"{nm}({','.join('V' if isdbv(p) else 's' for p in ps)})"

    def ok(good, rule, text, bad):
        C.judge(good, rule, key, f.loc, text if good else bad)

    def sizes(o, what):
        ok(consistent(o), "layout", f"{nm}: sizes known to the block vector are those of its blocks ({what})",
           f"{nm} leaves the block sizes out of date ({what})")

    if f.isctor:
        return ctor(b, f, C, ok, sizes)
    if nm in ("operator=",) and len(ps) == 1 and isdbv(ps[0]):
        return assign(b, f, C, ok, sizes)
    meth = getattr(Vec, "m_" + nm, None) if not nm.startswith("operator") else Vec().op(nm[8:])
    structural = {"reinit": reinit, "move_block": move, "insert_block": insert, "remove_block": remove, "create_view": view, "swap": swap,
                  "operator()": entry, "operator[]": entry, "collect_sizes": collect, "block": getb, "block_ptr": getb}
    if nm in structural:
        return structural[nm](b, f, C, ok, sizes)
    for n in (1, 2, 3):
        if nm in ("l2_norm", "l1_norm", "linfty_norm", "mean_value", "size", "n_blocks", "has_ghost_elements", "all_zero", "locally_owned_elements",
                  "is_globally_compatible", "get_mpi_communicator", "norm_sqr"):
            o = b.vec("a", n, ghost=(n == 2))
            bl = [x.o for x in blocks_of(o)]
            S = lambda g: sum((rat(g(x)) for x in bl), Rat(0))
            if nm == "is_globally_compatible":
                for k in range(n + 1):
                    p = Ref(Obj("common"))
                    for i, x in enumerate(bl):
                        x.part = p if i != k else Ref(Obj("other"))
                    r = b.call(f, [p], o)
                    ok(r == (k == n), "combined", f"{nm}: all blocks are compared ({n} blocks)", f"{nm} does not depend on block {k}")
                continue
            r = b.call(f, [], o)
            want = {"l2_norm": lambda: rsqrt(S(lambda x: x.m_norm_sqr(None))), "norm_sqr": lambda: S(lambda x: x.m_norm_sqr(None)),
                    "l1_norm": lambda: S(lambda x: x.m_l1_norm(None)),
                    "linfty_norm": lambda: fold([x.m_linfty_norm(None) for x in bl]),
                    "mean_value": lambda: S(lambda x: x.m_mean_value(None) * Rat(x.n)) * Rat(Fr(1, sum(x.n for x in bl))),
                    "size": lambda: sum(x.n for x in bl), "n_blocks": lambda: n, "has_ghost_elements": lambda: n == 2,
                    "get_mpi_communicator": lambda: "comm",
                    "locally_owned_elements": lambda: None, "all_zero": lambda: None}[nm]()
            if nm == "all_zero":
                continue
            if nm == "locally_owned_elements":
                w, off = set(), 0
                for x in bl:
                    w |= {i + off for i in x.own}
                    off += x.n
                good = isinstance(r, IndexSet) and r.s == w and r.n == off
            elif isinstance(want, Rat):
                good = isinstance(r, (Rat, int)) and same(rat(r), want)
            else:
                good = r == want
            ok(good, "combined", f"{nm} combines all {n} blocks", f"{nm} of {n} blocks is not the value of the concatenated vector")
            continue
        if meth is None or not all(isdbv(p) or scalar(p) or (nm == "compress") for p in ps):
            if n == 1:
                C.note(f"{nm}: no entrywise meaning known")
            return
        vs = [i for i, p in enumerate(ps) if isdbv(p)]
        for alias in [None] + vs:
            o = b.vec("a", n)
            args, models = [], []
            for i, p in enumerate(ps):
                if isdbv(p):
                    args.append(o if i == alias else b.vec(f"v{i}_", n))
                elif nm == "compress":
                    args.append("add")
                else:
                    args.append(atom(f"s{i}"))
            bl = [x.o for x in blocks_of(o)]
            ref = [model_copy(x) for x in bl]
            oth = [[model_copy(y.o) for y in blocks_of(a)] if isinstance(a, Obj) and a is not o else None for a in args]
            rets = []
            for k in range(n):
                aa = [ref[k] if a is o else oth[i][k] if isinstance(a, Obj) else a for i, a in enumerate(args)]
                g = getattr(ref[k], "m_" + nm, None) if not nm.startswith("operator") else ref[k].op(nm[8:])
                rets.append(g(b.I, *aa))
            r = b.call(f, [Box(a) for a in args], o)
            now = [x.o for x in blocks_of(o)]
            good = len(now) == n and all(x is y for x, y in zip(now, bl)) and \
                all(x.val == y.val and x.ghost == y.ghost and x.log == y.log for x, y in zip(now, ref))
            what = f"{n} blocks{', argument is the vector itself' if alias is not None else ''}"
            ok(good, "entrywise", f"{nm} acts on every block like on a plain vector ({what})",
               f"{nm} does not act on every block like on a plain vector ({what})")
            for i, a in enumerate(args):
                if oth[i] is not None:
                    good = all(x.o.val == y.val for x, y in zip(blocks_of(a), oth[i]))
                    ok(good, "entrywise", f"{nm} leaves its argument unchanged", f"{nm} changes its argument {i + 1}")
            if clean_ty(f.rty) in ("double", "float") and all(isinstance(x, Rat) for x in rets):
                good = isinstance(r, (Rat, int)) and same(rat(r), sum(rets, Rat(0)))
                ok(good, "combined", f"{nm} sums over all blocks ({what})", f"{nm} is not the sum over all blocks ({what})")
            sizes(o, what)


def fold(xs):
    r = Rat(0)
    for x in xs:
        r = vmax(r, x)
    return r


def snap(o):
    return [(x.o, x.o.val) for x in blocks_of(o)]


def ctor(b, f, C, ok, sizes):
    ps = [p[2] for p in f.params]
    if len(ps) == 1 and INTTY.match(clean_ty(ps[0])):
        for n in (0, 1, 3):
            o = b.empty()
            b.call(f, [n], o)
            bl = blocks_of(o)
            ok(len(bl) == n and all(isinstance(x, Ref) for x in bl) and distinct(bl), "layout", f"{n} own blocks are created", f"a block vector of {n} blocks does not get {n} own blocks")
            sizes(o, f"{n} blocks")
    elif len(ps) == 1 and isdbv(ps[0]):
        for n in (0, 1, 3):
            v = b.vec("v", n, ghost=n == 3)
            w = snap(v)
            o = b.empty()
            b.call(f, [Box(v)], o)
            if "&&" in ps[0]:
                ok([x for x, _ in snap(o)] == [x for x, _ in w], "layout", "moving hands over the blocks", "a moved block vector does not take over the blocks")
            else:
                copied(o, w, ok)
            sizes(o, f"{n} blocks")
    elif len(ps) == 2:
        L = [Ref(Vec.new(f"q{i}", SIZES[i])) for i in range(3)]
        o = b.empty()
        b.call(f, [Ptr(L, 0), Ptr(L, 3)], o)
        ok(len(blocks_of(o)) == 3 and all(x == y for x, y in zip(blocks_of(o), L)), "layout", "the given blocks are used in order",
           "a block vector of given blocks does not contain these blocks in order")
        sizes(o, "given blocks")


def distinct(bl):
    return len({id(x.o) for x in bl}) == len(bl)


def copied(o, w, ok, shared=()):
    bl = blocks_of(o)
    good = len(bl) == len(w) and distinct(bl) and all(x.o.val == v and x.o.n == y.n for x, (y, v) in zip(bl, w))
    ok(good, "copy", "all blocks are copied", "a copy does not have the entries or layout of all blocks")
    good = all(x.o is not y for x, (y, v) in zip(bl, w))
    ok(good, "copy", "a copy has storage of its own", "a copy shares the storage of a block with the original")
    good = all(x.o.ghost or not y.ghost for x, (y, v) in zip(bl, w))
    ok(good, "copy", "ghost entries are usable in the copy when they are in the original", "a copy of a ghosted block vector has no valid ghost entries")


def assign(b, f, C, ok, sizes):
    for m in (0, 1, 3):
        for n in (0, 1, 3):
            v = b.vec("v", n, ghost=n == 3, off=1)
            o = b.vec("o", m)
            w = snap(v)
            b.call(f, [Box(v)], o)
            if "&&" in f.params[0][2]:
                ok([x for x, _ in snap(o)] == [x for x, _ in w], "layout", "moving hands over the blocks", "a moved block vector does not take over the blocks")
            else:
                copied(o, w, ok)
                ok(all(x is y and x.val == z for (x, _), (y, z) in zip(snap(v), w)), "copy", "the original stays unchanged", "assignment changes the original")
            sizes(o, f"{m} to {n} blocks")
    if "&&" not in f.params[0][2]:
        o = b.vec("o", 3)
        w = snap(o)
        b.call(f, [Box(o)], o)
        ok(len(blocks_of(o)) == 3 and all(x.val == z for (x, _), (_, z) in zip(snap(o), w)), "copy", "assignment to itself keeps the entries",
           "assignment of a block vector to itself loses entries")


def reinit(b, f, C, ok, sizes):
    ps = [p[2] for p in f.params]
    if isdbv(ps[0]):
        for m in (0, 1, 3):
            for n in (0, 1, 3):
                for omit, off in ((False, 1), (True, 1), (False, 0), (True, 0)):
                    v = b.vec("v", n, off=off)
                    o = b.vec("o", m)
                    w = snap(v)
                    b.call(f, [Box(v)] + [omit] * (len(ps) - 1), o)
                    bl = blocks_of(o)
                    good = len(bl) == n and distinct(bl) and all(x.o is not y and x.o.n == y.n and (omit or x.o.val.zero()) for x, (y, _) in zip(bl, w))
                    ok(good, "layout", f"reinit takes over the layout of {n} blocks, entries are zero unless omitted",
                       f"reinit with {n} blocks does not take over the layout of all blocks or does not zero them")
                    sizes(o, f"{m} to {n} blocks")
        return
    for m in (0, 1, 2, 3):
        for n in (0, 1, 2, 4):
            for omit in (False, True):
                o = b.vec("o", m)
                w = snap(o)
                b.call(f, [n] + [omit] * (len(ps) - 1), o)
                bl = blocks_of(o)
                k = min(m, n)
                good = len(bl) == n and all(isinstance(x, Ref) for x in bl) and distinct(bl) and all(bl[i].o is w[i][0] and bl[i].o.val == w[i][1] for i in range(k))
                ok(good, "layout", f"changing {m} to {n} blocks keeps the common blocks", f"changing from {m} to {n} blocks does not keep the first blocks")
                if good and m:
                    good = all(bl[i].o.n == w[0][0].n and (omit or bl[i].o.val.zero()) for i in range(k, n))
                    ok(good, "layout", "new blocks have the layout of the first one and are zero unless omitted",
                       f"blocks added by changing from {m} to {n} blocks do not have the layout of the first block or are not zero")
                sizes(o, f"{m} to {n} blocks")


def order(o, want, ok, what):
    bl = blocks_of(o)
    good = len(bl) == len(want) and all(isinstance(x, Ref) and x.o is y for x, y in zip(bl, want))
    ok(good, "order", what + ": the other blocks keep their order", what + " does not give the expected order of the blocks")


def move(b, f, C, ok, sizes):
    for n in (1, 2, 3, 4):
        for i in range(n):
            for j in range(n):
                o = b.vec("o", n)
                w = [x.o for x in blocks_of(o)]
                b.call(f, [i, j], o)
                x = w.pop(i)
                w.insert(j, x)
                order(o, w, ok, f"moving block {i} to {j} of {n}")
                sizes(o, f"{i} to {j}")


def insert(b, f, C, ok, sizes):
    for n in (0, 1, 2, 3):
        for j in range(n + 1):
            o = b.vec("o", n)
            w = [x.o for x in blocks_of(o)]
            v = Vec.new("new", 6)
            b.call(f, [Ref(v), j], o)
            w.insert(j, v)
            order(o, w, ok, f"inserting a block at {j} of {n}")
            sizes(o, f"at {j} of {n}")


def remove(b, f, C, ok, sizes):
    for n in (1, 2, 3):
        for j in range(n):
            o = b.vec("o", n)
            w = [x.o for x in blocks_of(o)]
            r = b.call(f, [j], o)
            x = w.pop(j)
            order(o, w, ok, f"removing block {j} of {n}")
            if clean_ty(f.rty) != "void":
                ok(isinstance(r, Ref) and r.o is x, "order", "the removed block is returned", f"removing block {j} of {n} returns another block")
            sizes(o, f"{j} of {n}")


def view(b, f, C, ok, sizes):
    for n in (1, 3, 4):
        for i in range(n + 1):
            for j in range(i, n + 1):
                o = b.vec("o", n)
                w = [x.o for x in blocks_of(o)]
                r = b.call(f, [i, j], o)
                v = r.o if isinstance(r, Ref) else r
                order(v, w[i:j], ok, f"a view of blocks {i} to {j} of {n}")
                order(o, w, ok, "creating a view")
                sizes(v, f"view {i} to {j} of {n}")


def swap(b, f, C, ok, sizes):
    for m, n in ((1, 3), (2, 2), (0, 2)):
        o, v = b.vec("o", m), b.vec("v", n, off=1)
        x, y = [z.o for z in blocks_of(o)], [z.o for z in blocks_of(v)]
        b.call(f, [Box(v)], o)
        order(o, y, ok, "swapping")
        order(v, x, ok, "swapping")
        sizes(o, "after a swap")
        sizes(v, "after a swap")


def entry(b, f, C, ok, sizes):
    o = b.vec("o", 3)
    k = 0
    for x in blocks_of(o):
        for i in range(x.o.n):
            r = b.call(f, [k], o)
            ok(isinstance(r, Rat) and r == x.o.ent[i], "order", f"entry {k} lies in its block", f"global entry {k} is not the one of the concatenated blocks")
            k += 1


def collect(b, f, C, ok, sizes):
    o = b.vec("o", 3)
    blocks_of(o)[1].o.n = 11
    b.call(f, [], o)
    sizes(o, "after a block was resized")


def getb(b, f, C, ok, sizes):
    o = b.vec("o", 3)
    for i in range(3):
        r = b.call(f, [i], o)
        r = r.o if isinstance(r, Ref) else r
        ok(r is blocks_of(o)[i].o, "order", f"block {i} is returned", f"access to block {i} returns another block")
