"""Abstract interpretation of arithmetic code in the domain of rational normal
forms.

Every scalar is a quotient of polynomials with rational coefficients over
atoms (inputs, square roots, exponentials, opaque function values), brought to
a unique normal form, so that two pieces of code are compared by what they
compute and not by how they are written.  Loops have bounds fixed by the
analysed configuration.  Clamps and tolerance masks are evaluated in the
regular region: inputs strictly between the tolerance and one.
Anything else raises Undecided."""
from fractions import Fraction as Fr
from util import *
import math, random, re


class Undecided(Exception):
    pass


class OutOfRange(Undecided):
    """a container of known length is accessed beyond it"""


class ZeroDivision(Undecided):
    """a divisor is zero whatever the unknowns are"""


# ---- polynomials ------------------------------------------------------------
ATOMS = {}                # atom id -> (kind, payload)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def pmul(a, b):
    if len(a) * len(b) > 400000:
        raise Undecided("expression too large")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return reduce_roots(r)


def reduce_roots(p):
    """s^2 -> argument for square root atoms"""
    while True:
        for m in p:
            hit = next(((x, e) for x, e in m if e >= 2 and ATOMS[x][0] == "sqrt"), None)
            if hit:
                break
        else:
            return p
        x, e = hit
        rest = tuple((y, f) for y, f in m if y != x) + (((x, 1),) if e % 2 else ())
        c = p.pop(m)
        q = {tuple(sorted(rest)): c}
        arg = ATOMS[x][1]
        for _ in range(e // 2):
            q = pmul(q, arg)
        p = padd(p, q)


ONE = {(): Fr(1)}


def pdiff(p, x):
    """derivative of a polynomial with respect to atom x (chain rule through
    square roots and exponentials) -> Rat"""
    out = Rat(0)
    for m, c in p.items():
        for i, (a, e) in enumerate(m):
            da = adiff(a, x)
            if da is None:
                continue
            rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1:]
            out = out + Rat({tuple(sorted(rest)): c * e}) * da
    return out


def adiff(a, x):
    if a == x:
        return Rat(1)
    k, arg = ATOMS[a]
    if k == "sqrt":
        d = pdiff(arg, x)
        return None if d.zero() else d / (Rat(2) * Rat({((a, 1),): Fr(1)}))
    if k == "inv":
        d = pdiff(arg, x)
        return None if d.zero() else d * Rat({((a, 2),): Fr(-1)})
    if k == "exp":
        d = arg.diff(x)
        return None if d.zero() else d * Rat({((a, 1),): Fr(1)})
    if k == "app":
        for y in arg[1]:
            if isinstance(y, Rat) and not y.diff(x).zero():
                raise Undecided("derivative of " + str(arg[0]))
    return None


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        if isinstance(n, (int, Fr)):
            n = {(): Fr(n)} if n else {}
        elif isinstance(n, float):
            f = Fr(repr(n))
            n = {(): f} if f else {}
        self.n = n
        self.d = d if d is not None else ONE

    def const(self):
        if self.d == ONE:
            if not self.n:
                return Fr(0)
            if len(self.n) == 1 and () in self.n:
                return self.n[()]
        return None

    def zero(self):
        return not self.n

    def __add__(self, o):
        o = rat(o)
        if self.d == o.d:
            return mk(padd(self.n, o.n), self.d)
        return mk(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return self + rat(o) * Rat(-1)

    def __mul__(self, o):
        o = rat(o)
        return mk(pmul(self.n, o.n), self.d if o.d == ONE else o.d if self.d == ONE else pmul(self.d, o.d))

    def __truediv__(self, o):
        o = rat(o)
        return self * rinv(o)

    def __neg__(self):
        return self * Rat(-1)

    def diff(self, x):
        dn = pdiff(self.n, x)
        if self.d == ONE:
            return dn
        dd = pdiff(self.d, x)
        den = Rat(self.d)
        return (dn * den - Rat(self.n) * dd) / (den * den)

    def __eq__(self, o):
        if not isinstance(o, Rat):
            return NotImplemented
        return not padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)

    __hash__ = None

    def subst(self, env):
        """replace atoms by Rats (only plain atoms)"""
        def sp(p):
            out = Rat(0)
            for m, c in p.items():
                t = Rat(c)
                for a, e in m:
                    v = env.get(a)
                    if v is None:
                        v = asub(a, env)
                    t = t * rpow(v, Fr(e))
                out = out + t
            return out
        return sp(self.n) / sp(self.d)

    def atoms(self):
        out = set()
        for p in (self.n, self.d):
            for m in p:
                for a, _ in m:
                    out.add(a)
        return out

    def val(self, env):
        def pv(p):
            s = 0.0
            for m, c in p.items():
                t = float(c)
                for a, e in m:
                    t *= aval(a, env) ** e
                s += t
            return s
        return pv(self.n) / pv(self.d)

    def __repr__(self):
        def ps(p):
            return " + ".join(f"{c}*" + "*".join(f"{a}^{e}" if e > 1 else str(a) for a, e in m) if m else str(c)
                              for m, c in sorted(p.items(), key=str)[:8]) or "0"
        return ps(self.n) if self.d == ONE else f"({ps(self.n)})/({ps(self.d)})"


def asub(a, env):
    k, arg = ATOMS[a]
    if k == "sqrt":
        return rsqrt(Rat(arg).subst(env))
    if k == "inv":
        return rinv(Rat(arg).subst(env))
    if k == "exp":
        return rexp(arg.subst(env))
    if k == "app":
        return app(arg[0], [y.subst(env) if isinstance(y, Rat) else y for y in arg[1]])
    return atom(a)


def aval(a, env):
    if a in env:
        return env[a]
    k, arg = ATOMS[a]
    if k == "sqrt":
        return math.sqrt(abs(Rat(arg).val(env)))
    if k == "inv":
        return 1.0 / Rat(arg).val(env)
    if k == "exp":
        return math.exp(arg.val(env))
    r = random.Random(str(a))
    env[a] = r.uniform(0.1, 0.9)
    return env[a]


def mk(n, d):
    if not n:
        return Rat({}, ONE)
    if d is not ONE and d != ONE:
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                return Rat({k: v / c for k, v in n.items()}, ONE)
            # common monomial factor
            com = dict(m)
            for k in n:
                kd = dict(k)
                com = {x: min(e, kd[x]) for x, e in com.items() if x in kd}
                if not com:
                    break
            if com:
                div = lambda mm: tuple((x, e - com.get(x, 0)) for x, e in mm if e - com.get(x, 0))
                n = {div(k): v for k, v in n.items()}
                d = {div(m): c}
            if len(d) == 1 and () in d:
                c = d[()]
                return Rat({k: v / c for k, v in n.items()}, ONE)
            n = {k: v / c for k, v in n.items()}
            d = {next(iter(d)): Fr(1)}
        elif n == d:
            return Rat(1)
        elif len(n) == len(d):
            k0 = next(iter(n))
            if k0 in d:
                f = n[k0] / d[k0]
                if all(k in d and v == f * d[k] for k, v in n.items()):
                    return Rat({(): f})
    return Rat(n, d)


def rat(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, bool):
        raise Undecided("bool in arithmetic")
    if isinstance(x, (int, float, Fr)):
        return Rat(x)
    raise Undecided(f"not a scalar: {type(x).__name__}")


def atom(name):
    ATOMS.setdefault(name, ("in", None))
    return Rat({((name, 1),): Fr(1)})


def rinv(x):
    if x.zero():
        raise ZeroDivision("division by zero")
    if len(x.n) == 1:
        (m, c), = x.n.items()
        return Rat(reduce_roots({tuple((a, -e) for a, e in m): 1 / c}))
    k = min(x.n, key=str)
    c = x.n[k]
    r = root_atom("inv", Rat({m: v / c for m, v in x.n.items()}), {m: v / c for m, v in x.n.items()})
    return Rat({m: v / c for m, v in r.n.items()})


def rsqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        r = Fr(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if r * r == c:
            return Rat(r)
    if x.d != ONE:
        return rsqrt(Rat(x.n)) / rsqrt(Rat(x.d))
    return root_atom("sqrt", x, x.n)


def root_atom(kind, x, payload):
    for a, (k, p) in ATOMS.items():
        if k == kind and ((p if kind == "exp" else Rat(p)) == x):
            return Rat({((a, 1),): Fr(1)})
    a = f"{kind}#{len(ATOMS)}"
    ATOMS[a] = (kind, payload)
    return Rat({((a, 1),): Fr(1)})


def rexp(x):
    if x.zero():
        return Rat(1)
    return root_atom("exp", x, x)


def app(name, args):
    for a, (k, p) in ATOMS.items():
        if k == "app" and p[0] == name and len(p[1]) == len(args) and all(
                (isinstance(u, Rat) and isinstance(v, Rat) and u == v) or (not isinstance(u, Rat) and u == v) for u, v in zip(p[1], args)):
            return Rat({((a, 1),): Fr(1)})
    a = f"{name}#{len(ATOMS)}"
    ATOMS[a] = ("app", (name, list(args)))
    return Rat({((a, 1),): Fr(1)})


def rpow(b, e):
    c = e.const() if isinstance(e, Rat) else Fr(e)
    if c is None:
        return app("pow", [rat(b), rat(e)])
    if c.denominator == 1:
        r, b = Rat(1), rat(b)
        for _ in range(abs(int(c))):
            r = r * b
        return r if c >= 0 else rinv(r)
    if c.denominator == 2:
        r = rsqrt(rat(b))
        return rpow(r, Rat(c.numerator))
    return app("pow", [rat(b), Rat(c)])


def same(a, b, tries=4):
    """equality of values; a syntactic difference must show numerically"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    a, b = rat(a), rat(b)
    if a == b:
        return True
    rnd = random.Random(7)
    names = sorted(a.atoms() | b.atoms() | set(k for k, v in ATOMS.items() if v[0] == "in"), key=str)
    for _ in range(tries):
        env = {n: rnd.uniform(0.1, 0.9) for n in names if ATOMS[n][0] == "in"}
        try:
            x, y = a.val(env), b.val(dict(env))
        except (ZeroDivisionError, OverflowError):
            continue
        if abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
            return False
    return True


# ---- values -----------------------------------------------------------------
class Ptr:
    def __init__(self, v, o=0):
        self.v, self.o = v, o

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.v is o.v and self.o == o.o

    __hash__ = None


class Obj:
    def __init__(self, cls=None, f=None):
        self.cls, self.f = cls, f if f is not None else {}


class Closure:
    def __init__(self, lam, env, this):
        self.lam, self.env, self.this = lam, env, this


class Box:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Slot:
    """lvalue: container and key"""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    @property
    def v(self):
        if isinstance(self.c, list):
            if not 0 <= self.k < len(self.c):
                raise OutOfRange(f"index {self.k} outside of {len(self.c)} entries")
        elif self.k not in self.c:
            raise Undecided("unset member " + str(self.k))
        return self.c[self.k]

    @v.setter
    def v(self, x):
        if isinstance(self.c, list) and not 0 <= self.k < len(self.c):
            raise OutOfRange(f"index {self.k} outside of {len(self.c)} entries")
        self.c[self.k] = x


def copyv(v):
    if isinstance(v, list):
        return [copyv(x) for x in v]
    if isinstance(v, Obj):
        return Obj(v.cls, {k: copyv(x) for k, x in v.f.items()})
    return v


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targ(ty, head):
    t = clean_ty(ty)
    if t.startswith(head + "<") and t.endswith(">"):
        return split_args(t[len(head) + 1:-1])
    return None


SCALAR = re.compile(r"^(dealii::VectorizedArray<.*>|double|float|long double)$")
INTTY = re.compile(r"^(unsigned |signed |)(int|long|short|char|unsigned|long long|long unsigned int)$|^(std::)?size_t$|^unsigned$|^std::size_t$|^types::|^bool$")


def zero_of(ty):
    t = clean_ty(ty)
    if SCALAR.match(t):
        return Rat(0)
    if INTTY.match(t):
        return 0
    a = targ(t, "dealii::Tensor") or targ(t, "dealii::SymmetricTensor")
    if a:
        r, d = int(a[0]), int(a[1])
        if r == 0:
            return Rat(0)
        return [zero_of(f"dealii::Tensor<{r-1}, {d}, {a[2] if len(a) > 2 else 'double'}>") if r > 1 else Rat(0) for _ in range(d)]
    a = targ(t, "dealii::Point")
    if a:
        return [Rat(0) for _ in range(int(a[0]))]
    a = targ(t, "std::array")
    if a:
        return [zero_of(a[0]) for _ in range(int(a[1]))]
    if targ(t, "std::vector"):
        return []
    a = targ(t, "std::pair")
    if a:
        return Obj("std::pair", {"first": zero_of(a[0]), "second": zero_of(a[1])})
    return None


def uninit_of(ty, name="?"):
    """value of a local without initialiser: an unknown of its own"""
    t = clean_ty(ty)
    if SCALAR.match(t):
        uninit_of.n += 1
        return atom(f"uninitialised {name}#{uninit_of.n}")
    a = targ(t, "std::array")
    if a and SCALAR.match(clean_ty(a[0])):
        return [uninit_of(a[0], name) for _ in range(int(a[1]))]
    return None


uninit_of.n = 0


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Interp:
    """hook(name, node, interp, env) may supply values of external calls"""
    MAXSTEP = 60000

    def __init__(self, P, E, hook=None, member=None):
        self.P, self.E, self.hook, self.member = P, E, hook, member
        self.steps = 0
        self.depth = 0

    # -- functions
    def pick(self, call, obj=None, args=None):
        ts = self.P.targets(call)
        if not ts:
            return None
        ts = [t for t in ts if not t.dep] or ts
        if len(ts) == 1:
            return ts[0]
        ta = call.a.get("targs")
        c = [t for t in ts if t.targs == ta] if ta is not None else []
        c = c or ts
        if len(c) > 1 and isinstance(obj, Obj) and obj.cls is not None:
            d = [t for t in c if obj.cls == (t.clsid, t.cargs)] or [t for t in c if t.clsid == obj.cls[0]]
            c = d or c
        if len(c) > 1:
            return self.best(c, call)
        return c[0]

    def best(self, c, call):
        # same source, different instantiations: any of them computes the
        # same formula when the constants agree; prefer the matching result
        ty = clean_ty(call.a.get("ty") or "")
        d = [t for t in c if clean_ty(t.rty) == ty]
        return (d or c)[0]

    def call_fn(self, f, args, this=None):
        if self.depth:
            return self._call_fn(f, args, this)
        self.steps = 0
        try:
            return self._call_fn(f, args, this)
        except (TypeError, AttributeError, IndexError, KeyError, ValueError, ZeroDivisionError, RecursionError) as x:
            raise Undecided(f"{f.q}: outside of the domain ({type(x).__name__}: {x})")
        except (Brk, Cnt):
            raise Undecided(f.q)
        finally:
            self.depth = 0

    def _call_fn(self, f, args, this=None):
        self.depth += 1
        if self.depth > 40:
            raise Undecided("recursion")
        env = {}
        for (nm, pid, ty), a in zip(f.params, args):
            if is_ref_type(ty) and isinstance(a, (Box, Slot)):
                env[pid] = a
            else:
                v = a.v if isinstance(a, (Box, Slot)) else a
                env[pid] = Box(v if is_ref_type(ty) or is_ptr_type(ty) else copyv(v))
        try:
            fr = (env, this)
            for i in f.inits:
                if i.get("e") is None:
                    continue
                if not i.get("w") and unwrap(i["e"]) is not None and unwrap(i["e"]).k == "ctor" \
                        and not unwrap(i["e"]).c and SCALAR.match(clean_ty(unwrap(i["e"]).a.get("ty") or "")):
                    continue      # default-initialised: no value yet
                if i.get("n") and isinstance(this, Obj):
                    v = self.rv(i["e"], fr)
                    this.f[i["n"]] = copyv(v)
                elif (i.get("base") or i.get("deleg")) and isinstance(this, Obj):
                    e = unwrap(i["e"])
                    if e is not None and e.k == "ctor":
                        g = self.pick(e)
                        if g is not None:
                            self.call_fn(g, [self.lvrv(x, fr) for x in e.c], this)
            try:
                self.st(f.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call_closure(self, c, args):
        env = dict(c.env)
        for (nm, pid, ty), a in zip(c.lam.a.get("params") or (), args):
            if is_ref_type(ty) and isinstance(a, (Box, Slot)):
                env[pid] = a
            else:
                env[pid] = Box(copyv(a.v if isinstance(a, (Box, Slot)) else a))
        try:
            self.st(c.lam.c[0], (env, c.this))
        except Ret as r:
            return r.v
        return None

    # -- statements
    def st(self, n, fr):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Undecided("too long")
        k = n.k
        if k == "blk":
            for c in n.c:
                self.st(c, fr)
        elif k == "decl":
            for v in n.c:
                self.decl(v, fr)
        elif k == "if":
            if n.c[0] is not None:
                self.st(n.c[0], fr)
            b = self.truth(n.c[1], fr)
            self.st(n.c[2] if b else (n.c[3] if len(n.c) > 3 else None), fr)
        elif k == "for":
            self.st(n.c[0], fr)
            it = 0
            while n.c[1] is None or self.truth(n.c[1], fr):
                it += 1
                if it > 200:
                    raise Undecided("loop bound")
                try:
                    self.st(n.c[3], fr)
                except Brk:
                    break
                except Cnt:
                    pass
                if n.c[2] is not None:
                    self.lvrv(n.c[2], fr)
        elif k in ("while", "do"):
            c, b = (n.c[0], n.c[1]) if k == "while" else (n.c[1], n.c[0])
            it = 0
            while True:
                if (k == "while" or it) and not self.truth(c, fr):
                    break
                it += 1
                if it > 200:
                    raise Undecided("loop bound")
                try:
                    self.st(b, fr)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == "rfor":
            v = n.c[0]
            r = self.rv(n.c[1], fr)
            if not isinstance(r, list):
                raise Undecided("range")
            for i in range(len(r)):
                ref = is_ref_type(v.a.get("ty"))
                fr[0][v.a["id"]] = Slot(r, i) if ref else Box(copyv(r[i]))
                self.bind(v, Slot(r, i), fr)
                try:
                    self.st(n.c[2], fr)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == "ret":
            if not n.c or n.c[0] is None:
                raise Ret(None)
            v = self.lvrv(n.c[0], fr)
            raise Ret(v if isinstance(v, (Box, Slot)) else v)
        elif k == "break":
            raise Brk()
        elif k == "cont":
            raise Cnt()
        elif k in ("null",):
            pass
        elif k == "switch":
            self.switch(n, fr)
        elif k == "throw":
            raise Undecided("throw")
        else:
            self.lvrv(n, fr)

    def switch(self, n, fr):
        v = self.rv(n.c[0], fr)
        items = n.c[1].c if n.c[1] is not None and n.c[1].k == "blk" else [n.c[1]]
        on = False
        default = None
        try:
            for rnd in range(2):
                for it in items:
                    x = it
                    while x is not None and x.k in ("case", "default"):
                        if x.k == "default":
                            if rnd == 1:
                                on = True
                            x = x.c[0]
                        else:
                            if self.rv(x.c[0], fr) == v:
                                on = True
                            x = x.c[1]
                    if on:
                        self.st(x, fr)
                if on:
                    break
        except Brk:
            pass

    def decl(self, v, fr):
        if v.k != "var":
            return
        ty = v.a.get("ty")
        e = v.c[0] if v.c else None
        if not is_ref_type(ty) and (e is None or (e.k == "ctor" and not e.c)) and uninit_of(ty) is not None:
            fr[0][v.a["id"]] = Box(uninit_of(ty, v.a.get("n") or "?"))
        elif e is not None:
            x = self.lvrv(v.c[0], fr)
            if v.a.get("ref") or is_ref_type(ty):
                fr[0][v.a["id"]] = x if isinstance(x, (Box, Slot)) else Box(x)
            else:
                val = x.v if isinstance(x, (Box, Slot)) else x
                fr[0][v.a["id"]] = Box(self.coerce(copyv(val), ty))
            self.bind(v, fr[0][v.a["id"]], fr)
        else:
            fr[0][v.a["id"]] = Box(zero_of(ty))

    def bind(self, v, slot, fr):
        b = v.a.get("bind")
        if not b:
            return
        val = slot.v
        for i, (nm, bid) in enumerate(b):
            if isinstance(val, list):
                fr[0][bid] = Slot(val, i)
            elif isinstance(val, Obj):
                ks = list(val.f)
                fr[0][bid] = Slot(val.f, ks[i])
            else:
                raise Undecided("binding")

    def coerce(self, v, ty):
        t = clean_ty(ty or "")
        if isinstance(v, int) and not isinstance(v, bool) and SCALAR.match(t):
            return Rat(v)
        if isinstance(v, Rat) and INTTY.match(t) and v.const() is not None:
            return int(v.const())
        return v

    def truth(self, n, fr):
        v = self.rv(n, fr)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Rat) and v.const() is not None:
            return v.const() != 0
        if isinstance(v, (Ptr, Obj, Closure)):
            return True
        raise Undecided("condition at " + n.loc)

    # -- expressions
    def rv(self, n, fr):
        v = self.lvrv(n, fr)
        return v.v if isinstance(v, (Box, Slot)) else v

    def lvrv(self, n, fr):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Undecided("too long")
        if n is None:
            return Box(fr[1])
        k = n.k
        if n.a.get("cv") is not None and k in ("ref", "mem", "call"):
            try:
                return int(n.a["cv"])
            except ValueError:
                pass
        if k == "lit":
            lt, v = n.a.get("lt"), n.a.get("v")
            if lt == "int" or lt == "char":
                return int(v)
            if lt == "float":
                return Rat(Fr(v))
            if lt == "bool":
                return v == "true"
            return v
        if k == "zero":
            return zero_of(n.a.get("ty")) if n.a.get("ty") else 0
        if k == "this":
            return fr[1]
        if k == "ref":
            i = n.a.get("id")
            if i in fr[0]:
                return fr[0][i]
            if n.a.get("dk") in ("enumc",):
                return n.a.get("q") or n.a.get("n")
            raise Undecided(f"variable {n.a.get('n')} at {n.loc}")
        if k == "mem":
            b = self.rv(n.c[0], fr) if n.c and n.c[0] is not None else fr[1]
            nm = n.a.get("n")
            if isinstance(b, Ptr):
                b = self.deref(b, n)
            if isinstance(b, Obj):
                if nm not in b.f and self.member is not None:
                    v = self.member(b, nm, n)
                    if v is not None:
                        b.f[nm] = v
                return Slot(b.f, nm)
            raise Undecided(f"member {nm} at {n.loc}")
        if k == "sub":
            return self.index(self.rv(n.c[0], fr), self.rv(n.c[1], fr), n)
        if k == "un":
            return self.unary(n, fr)
        if k == "bin":
            return self.binary(n, fr)
        if k == "cond":
            return self.lvrv(n.c[1] if self.truth(n.c[0], fr) else n.c[2], fr)
        if k in ("cast", "defarg"):
            if not n.c:
                return None
            v = self.lvrv(n.c[0], fr)
            ty = n.a.get("ty") or ""
            if isinstance(v, (Box, Slot)) and (is_ref_type(ty) or not (SCALAR.match(clean_ty(ty)) or INTTY.match(clean_ty(ty)))):
                return v
            w = v.v if isinstance(v, (Box, Slot)) else v
            if isinstance(w, (int, Rat)) and (SCALAR.match(clean_ty(ty)) or INTTY.match(clean_ty(ty))):
                return self.coerce(w, ty)
            return v
        if k == "ctor":
            return self.ctor(n, fr)
        if k == "il":
            if len(n.c) == 1 and not (clean_ty(n.a.get("ty") or "").startswith(("std::vector", "std::array", "std::initializer"))) \
                    and not (n.a.get("ty") or "").endswith("]"):
                return self.lvrv(n.c[0], fr)
            return [copyv(self.rv(x, fr)) for x in n.c]
        if k == "lambda":
            env = dict(fr[0])
            for c in n.a.get("caps") or ():
                if c.get("init") is not None:
                    env[c["id"]] = Box(copyv(self.rv(c["init"], fr)))
            return Closure(n, env if True else fr[0], fr[1])
        if k == "call":
            return self.call(n, fr)
        if k == "sizeof":
            raise Undecided("sizeof")
        if k == "decl":
            self.st(n, fr)
            return None
        raise Undecided(f"{k} at {n.loc}")

    def index(self, b, i, n):
        if isinstance(i, Rat) and i.const() is not None:
            i = int(i.const())
        if isinstance(b, Ptr):
            return Slot(b.v, b.o + i) if isinstance(i, int) else self.bad(n)
        if isinstance(b, list) and isinstance(i, int):
            if i < 0 or i >= len(b):
                raise OutOfRange(f"index {i} outside at {n.loc}")
            return Slot(b, i)
        raise Undecided("index at " + n.loc)

    def deref(self, p, n):
        if isinstance(p.v, list) and not 0 <= p.o < len(p.v):
            raise OutOfRange(f"position {p.o} of {len(p.v)} entries at {n.loc}")
        return p.v[p.o]

    def bad(self, n):
        raise Undecided("at " + n.loc)

    def unary(self, n, fr):
        op = n.a["op"]
        if op == "&":
            v = self.lvrv(n.c[0], fr)
            if isinstance(v, Slot) and isinstance(v.c, list):
                return Ptr(v.c, v.k)
            if isinstance(v, Box) and isinstance(v.v, (Obj, list)):
                return v.v if isinstance(v.v, Obj) else Ptr([v.v], 0)
            return v
        if op == "*":
            v = self.rv(n.c[0], fr)
            if isinstance(v, Ptr):
                return Slot(v.v, v.o)
            return v
        if op in ("++", "--"):
            s = self.lvrv(n.c[0], fr)
            d = 1 if op == "++" else -1
            o = s.v
            s.v = Ptr(o.v, o.o + d) if isinstance(o, Ptr) else (o + d if isinstance(o, int) else rat(o) + Rat(d))
            return o if n.a.get("post") else s
        v = self.rv(n.c[0], fr)
        if op == "-":
            return self.arith("*", Rat(-1), v, n) if not isinstance(v, int) else -v
        if op == "+":
            return v
        if op == "!":
            return not self.b(v, n)
        raise Undecided(op)

    def b(self, v, n):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        raise Undecided("truth at " + n.loc)

    def binary(self, n, fr):
        op = n.a["op"]
        if op in ("&&", "||"):
            l = self.truth(n.c[0], fr)
            if op == "&&":
                return l and self.truth(n.c[1], fr)
            return l or self.truth(n.c[1], fr)
        if op in ASSIGN_OPS:
            return self.assign(op, n, fr)
        if op == ",":
            self.lvrv(n.c[0], fr)
            return self.lvrv(n.c[1], fr)
        a, b = self.rv(n.c[0], fr), self.rv(n.c[1], fr)
        return self.arith(op, a, b, n)

    def assign(self, op, n, fr):
        r = self.rv(n.c[1], fr)
        s = self.lvrv(n.c[0], fr)
        if not isinstance(s, (Box, Slot)):
            if isinstance(s, list) and isinstance(r, list) and op == "=":
                s[:] = copyv(r)
                return s
            if isinstance(s, list) and op in ("*=", "/=", "+=", "-="):
                s[:] = self.arith(op[0], s, r, n)
                return s
            raise Undecided("assignment at " + n.loc)
        if op == "=":
            cur = None
            try:
                cur = s.v
            except Undecided:
                pass
            if isinstance(r, (int, Rat)) and isinstance(cur, Rat):
                r = rat(r)
            elif isinstance(cur, list) and isinstance(r, (int, Rat)):
                z = rat(r)
                fill = lambda v: [fill(x) for x in v] if isinstance(v, list) else z
                r = fill(cur)
            if isinstance(cur, list) and isinstance(r, list):
                cur[:] = copyv(r)
            else:
                s.v = copyv(r)
            return s
        cur = s.v
        v = self.arith(op[:-1], cur, r, n)
        if isinstance(cur, list) and isinstance(v, list):
            cur[:] = v
        else:
            s.v = v
        return s

    def cmp(self, op, a, b, n):
        if isinstance(a, Rat) or isinstance(b, Rat):
            x, y = rat(a).const(), rat(b).const()
            if x is None and y is None:
                if rat(a) == rat(b):
                    return op in ("<=", ">=", "==")
                raise Undecided("comparison at " + n.loc)
            if x is None:          # value against a constant: regular region
                x = Fr(1, 2)
            elif y is None:
                y = Fr(1, 2)
            a, b = x, y
        elif isinstance(a, (str,)) or isinstance(b, str):
            if op in ("==", "!="):
                return (a == b) == (op == "==")
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            a, b = a.o, b.o
        try:
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        except TypeError:
            raise Undecided("comparison at " + n.loc)

    def arith(self, op, a, b, n):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.cmp(op, a, b, n)
        if isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.v, a.o + b if op == "+" else a.o - b)
        if isinstance(b, Ptr) and isinstance(a, int) and op == "+":
            return Ptr(b.v, b.o + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
            return a.o - b.o
        if isinstance(a, list) and isinstance(b, int) and op in "+-" and INT_PTR(n):
            return Ptr(a, b if op == "+" else -b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%"):
                if b == 0:
                    raise ZeroDivision("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "/" else a - q * b
            if op in ("|", "&", "<<", ">>", "^"):
                return {"|": a | b, "&": a & b, "<<": a << b, ">>": a >> b, "^": a ^ b}[op]
        la, lb = isinstance(a, list), isinstance(b, list)
        if not la and not lb:
            x, y = rat(a), rat(b)
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]() if op in "+-*/" else self.bad(n)
        if op in "+-" and la and lb:
            if len(a) != len(b):
                raise Undecided("sizes")
            return [self.arith(op, x, y, n) for x, y in zip(a, b)]
        if op == "*" and la and lb:
            return self.contract(a, b, n)
        if op == "*" and la:
            return [self.arith("*", x, b, n) for x in a]
        if op == "*" and lb:
            return [self.arith("*", a, x, n) for x in b]
        if op == "/" and la:
            return [self.arith("/", x, b, n) for x in a]
        raise Undecided("operation at " + n.loc)

    def contract(self, a, b, n):
        if a and isinstance(a[0], list):
            return [self.contract(r, b, n) for r in a]
        if b and isinstance(b[0], list):
            return [self.contract(a, [r[j] for r in b], n) for j in range(len(b[0]))]
        s = Rat(0)
        if len(a) != len(b):
            raise Undecided("sizes")
        for x, y in zip(a, b):
            s = s + rat(x) * rat(y)
        return s

    def ctor(self, n, fr):
        q = n.a.get("q") or ""
        ty = n.a.get("ty") or ""
        t = clean_ty(ty)
        if n.a.get("copy") and len(n.c) == 1:
            v = self.lvrv(n.c[0], fr)
            return copyv(v.v if isinstance(v, (Box, Slot)) else v)
        g = self.pick(n)
        if g is not None:
            o = Obj((g.clsid, g.cargs))
            for r in self.P.rec_by_id.get(g.clsid, ()):
                if r.cargs == g.cargs:
                    for f in r.fields:
                        if f.get("ie") is not None and SCALAR.match(clean_ty(f["ty"])):
                            o.f[f["n"]] = atom("constant " + f["n"])
                        elif f.get("ie") is not None:
                            try:
                                o.f[f["n"]] = self.coerce(copyv(self.rv(f["ie"], (dict(), o))), f["ty"])
                            except Undecided:
                                pass
            self.call_fn(g, [self.lvrv(x, fr) for x in n.c], o)
            return o
        if SCALAR.match(t):
            return self.coerce(self.rv(n.c[0], fr), ty) if n.c else Rat(0)
        if targ(t, "std::integral_constant"):
            return Obj("const")
        rec = [r for r in self.P.recs if r.q == q] if not n.c else ()
        if rec:                   # aggregate without values
            return Obj((rec[0].id, rec[0].cargs), {f["n"]: uninit_of(f["ty"], f["n"]) for f in rec[0].fields
                                                   if uninit_of(f["ty"]) is not None})
        z = zero_of(ty)
        a = targ(t, "std::vector")
        args = [self.rv(x, fr) for x in n.c if x is not None and x.k != "defarg"]
        if a:
            if args and isinstance(args[0], int):
                fill = args[1] if len(args) > 1 else zero_of(a[0])
                return [copyv(self.coerce(fill, a[0])) for _ in range(args[0])]
            if args and isinstance(args[0], list):
                return [self.coerce(copyv(x), a[0]) for x in args[0]]
            if len(args) == 2 and isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and isinstance(args[0].v, list):
                return [copyv(x) for x in args[0].v[args[0].o:args[1].o]]
            if args:
                raise Undecided("vector constructor at " + n.loc)
            return []
        if targ(t, "std::pair") and len(args) == 2:
            ta = targ(t, "std::pair")
            return Obj("std::pair", {"first": self.coerce(copyv(args[0]), ta[0]), "second": self.coerce(copyv(args[1]), ta[1])})
        if isinstance(z, list):
            if len(args) == 1 and isinstance(args[0], list):
                return copyv(args[0])
            if not args:
                return z
            if len(args) == len(z) and all(isinstance(x, (int, Rat)) for x in args):
                return [rat(x) for x in args]
        if "iterator" in q and not n.c:
            return Ptr([], 0)
        if len(n.c) == 1:
            return self.lvrv(n.c[0], fr)
        if self.hook is not None:
            v = self.hook(q, n, self, fr)
            if v is not NotImplemented:
                return v
        raise Undecided("constructor " + q + " at " + n.loc)

    def call(self, n, fr):
        q = n.a.get("q") or ""
        s = short(q)
        op = n.a.get("op")
        if q.endswith("issue_error_noreturn") or q.endswith("issue_error_nothrow"):
            raise Undecided("assertion")
        if self.hook is not None:
            v = self.hook(q, n, self, fr)
            if v is not NotImplemented:
                return v
        if q in TRANSPARENT_CALLS and n.c:
            return self.lvrv(n.c[0], fr)
        if n.a.get("ind") or op == "()":
            f = self.rv(n.c[0], fr) if n.c else None
            if isinstance(f, Closure):
                return self.call_closure(f, [self.lvrv(x, fr) for x in n.c[1:]])
        if op in ASSIGN_OPS and len(n.c) == 2 and self.pick(n) is None:
            return self.assign(op, n, fr)
        obj = None
        if n.a.get("m") and not n.a.get("static"):
            obj = self.rv(n.c[0], fr) if n.c and n.c[0] is not None else fr[1]
            if isinstance(obj, Ptr):
                obj = self.deref(obj, n)
        g = self.pick(n, obj)
        if g is not None and not (n.a.get("m") and not n.a.get("static") and not isinstance(obj, Obj)):
            a = n.c[1:] if (n.a.get("m")) else n.c
            return self.call_fn(g, [self.lvrv(x, fr) for x in a], obj)
        if op and op not in ("[]", "()", "->") and g is None:
            if len(n.c) == 2:
                return self.arith(op, self.rv(n.c[0], fr), self.rv(n.c[1], fr), n)
            if len(n.c) == 1:
                if op in ("++", "--"):
                    o = self.lvrv(n.c[0], fr)
                    d = 1 if op == "++" else -1
                    v = o.v
                    o.v = Ptr(v.v, v.o + d) if isinstance(v, Ptr) else v + d
                    return o
                v = self.rv(n.c[0], fr)
                if op == "-":
                    return self.arith("*", Rat(-1), v, n)
                if op == "*":
                    return Slot(v.v, v.o) if isinstance(v, Ptr) else v
                if op == "+":
                    return v
        if op in ("[]", "()") and len(n.c) >= 2:
            b = self.lvrv(n.c[0], fr)
            for x in n.c[1:]:
                b = self.index(b.v if isinstance(b, (Box, Slot)) else b, self.rv(x, fr), n)
            return b
        if op == "->":
            return self.lvrv(n.c[0], fr)
        return self.ext(n, q, s, fr)

    def ext(self, n, q, s, fr):
        a = n.c
        val = lambda i: self.rv(a[i], fr)
        if s in ("max", "min") and len(a) == 2 and q.startswith("std::"):
            x, y = val(0), val(1)
            if isinstance(x, int) and isinstance(y, int):
                return max(x, y) if s == "max" else min(x, y)
            if isinstance(x, (int, Rat)) and isinstance(y, (int, Rat)):
                cx, cy = rat(x).const() is not None, rat(y).const() is not None
                if cx != cy:      # clamp of a value, inactive in the regular region
                    return y if cx else x
            big = self.cmp(">", x, y, n)
            return x if big == (s == "max") else y
        if s == "compare_and_apply_mask":
            op = (n.a.get("targs") or "").split(",")[0]
            x, y = val(0), val(1)
            o = "<" if "less_than" in op else ">" if "greater_than" in op else None
            o = o or {"0": "==", "1": "!=", "2": "<", "3": "<=", "4": ">", "5": ">="}.get(op.strip())
            if o is None:
                m = re.search(r"\)(\d+)", op)
                o = {"0": "==", "1": "!=", "2": "<", "3": "<=", "4": ">", "5": ">="}.get(m.group(1)) if m else None
            if o is None:
                raise Undecided("mask " + op)
            p, q2 = val(2), val(3)
            cp, cq = rat(p).const() is not None, rat(q2).const() is not None
            if cp != cq:          # replacement by a constant outside of the regular region
                return q2 if cp else p
            return p if self.cmp(o, x, y, n) else q2
        if s in ("sqrt",):
            return rsqrt(rat(val(0)))
        if s == "exp":
            return rexp(rat(val(0)))
        if s == "pow":
            return rpow(val(0), val(1))
        if s == "fixed_power":
            return rpow(val(0), int((n.a.get("targs") or "").split(",")[0]))
        if s in ("sin", "cos", "tan", "tanh", "log", "abs", "fabs", "atan", "acos", "asin", "cosh", "sinh"):
            return app(s, [rat(val(0))])
        if s == "norm":
            v = val(0)
            return rsqrt(self.sq(v))
        if s == "norm_square":
            return self.sq(val(0))
        if s == "outer_product":
            x, y = val(0), val(1)
            return [[rat(p) * rat(r) for r in y] for p in x]
        if s == "scalar_product":
            return self.full(val(0), val(1))
        if s == "trace":
            x = val(0)
            r = Rat(0)
            for i in range(len(x)):
                r = r + x[i][i]
            return r
        if s == "transpose":
            x = val(0)
            return [[x[j][i] for j in range(len(x))] for i in range(len(x[0]))]
        if s == "symmetrize":
            x = val(0)
            return [[(x[i][j] + x[j][i]) * Rat(Fr(1, 2)) for j in range(len(x))] for i in range(len(x))]
        if s == "determinant":
            return self.det(val(0))
        if s == "cross_product_3d":
            x, y = val(0), val(1)
            return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
        if s == "accumulate":
            b, e, acc = val(0), val(1), val(2)
            f = val(3) if len(a) > 3 else None
            for i in range(b.o, e.o):
                if f is not None:
                    acc = self.call_closure(f, [Box(acc), Slot(b.v, i)])
                    acc = acc.v if isinstance(acc, (Box, Slot)) else acc
                else:
                    acc = self.arith("+", acc, b.v[i], n)
            return acc
        if s in ("begin", "cbegin", "data", "begin_raw") and a:
            v = val(0)
            return v if isinstance(v, Ptr) else Ptr(v, 0) if isinstance(v, list) else self.bad(n)
        if s in ("end", "cend") and a:
            v = val(0)
            return Ptr(v, len(v)) if isinstance(v, list) else self.bad(n)
        if s == "size" and n.a.get("m") and isinstance(val(0), list):
            return len(val(0))
        if s == "at":
            return self.index(val(0), val(1), n)
        if s in ("front", "back"):
            v = val(0)
            return Slot(v, 0 if s == "front" else len(v) - 1)
        if s == "count_if":
            b, e, f = val(0), val(1), val(2)
            c = 0
            for i in range(b.o, e.o):
                r = self.call_closure(f, [Slot(b.v, i)])
                r = r.v if isinstance(r, (Box, Slot)) else r
                c += 1 if self.b(r, n) else 0
            return c
        if s in ("push_back", "emplace_back"):
            v = val(0)
            v.append(copyv(self.rv(a[1], fr)))
            return None
        if s == "get" and n.a.get("m") and len(a) == 1:
            return self.lvrv(a[0], fr)
        if s == "unit_symmetric_tensor":
            d = int((n.a.get("targs") or "0").split(",")[0])
            return [[Rat(1 if i == j else 0) for j in range(d)] for i in range(d)]
        raise Undecided(f"call {q} at {n.loc}")

    def det(self, x):
        if len(x) == 1:
            return x[0][0]
        r = Rat(0)
        for j in range(len(x)):
            m = [row[:j] + row[j + 1:] for row in x[1:]]
            t = rat(x[0][j]) * self.det(m)
            r = r + t if j % 2 == 0 else r - t
        return r

    def sq(self, v):
        return self.full(v, v)

    def full(self, x, y):
        if isinstance(x, list):
            r = Rat(0)
            for p, s in zip(x, y):
                r = r + self.full(p, s)
            return r
        return rat(x) * rat(y)


def INT_PTR(n):
    return "*" in (n.a.get("ty") or "") or n.k == "bin"
