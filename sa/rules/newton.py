"""T01: a nonlinear solve returns only converged iterates.

Must-analysis over equalities: which vector holds the residual of which
iterate (raw / with the right-hand side / negated), which scalar holds the
norm of the residual of which iterate, and which iterate passed the
convergence or decrease test.
"""
from canon import *
from util import *

EVAL = "evaluate_nonlinear_residual"


class New(Flow):
    def __init__(self, E, C, f):
        super().__init__(E)
        self.C, self.f = C, f
        self.obl = {}
        self.tol = {"abs": {}, "rel": {}}
        self.den = {}
        self.rhs_guard = None
        self.par = {}

    def join(self, a, b):
        r = a & b
        for x, y in ((a, b), (b, a)):
            no = {z[1] for z in y if z[0] == "false"}
            if no:
                r = r | {z for z in x if z[0] == "impl" and z[1] in no}
        return r

    def want(self, callee, call, fr):
        if isinstance(callee, Fn):
            return callee.file == self.f.file and callee.n != EVAL
        return True

    def pl(self, e, fr):
        e, fr = self.actual(e, fr)
        p = self.E.place(e, fr) if e is not None else None
        return p if p is not None and p[0] in ("var", "this") else None

    def actual(self, e, fr):
        """argument behind a parameter passed by value"""
        for _ in range(12):
            y = unwrap(e)
            if y is None or y.k != "ref" or y.a.get("dk") != "parm":
                break
            own = self.E.owner(fr, y.a["id"])
            if y.a["id"] not in own.args or y.a["id"] in self.E.info(own.body if own.body is not None else own.fn).writes:
                break
            e, fr, _ = own.args[y.a["id"]]
        return e, fr

    def kill(self, st, p):
        if p is None:
            return st
        hit = lambda x: any(isinstance(y, tuple) and (y[:len(p)] == p or x[0] == "impl" and y and isinstance(y[0], str) and len(y) > 1 and hit(y)) for y in x[1:])
        return frozenset(x for x in st if not hit(x))

    def check(self, rule, key, node, ok, good, bad):
        o = self.obl.setdefault((rule, key, node.loc), [True, good, bad])
        o[0] = o[0] and ok

    # ---- statements
    def on_decl(self, v, fr, st):
        p = ("var", v.a["id"], fr.uid)
        st = self.kill(st, p)
        e = v.c[0] if v.c else None
        if e is not None:
            st = self.value(p, e, fr, st)
        return st

    def value(self, p, e, fr, st):
        """facts about p after p = e"""
        y = unwrap(e)
        while y is not None and y.k in ("cast", "ctor", "il") and len(y.c) == 1:
            y = unwrap(y.c[0])
        if y is None:
            return st
        if y.k == "lit" and y.a.get("lt") == "bool":
            return st | {("false", p)} if y.a.get("v") == "false" else st
        if clean_ty(y.a.get("ty")).removeprefix("const ") == "bool" and (y.k == "bin" and y.a.get("op") in ("<", "<=", ">", ">=", "&&") or y.k == "call"):
            t, f = self.cond(y, fr, st)
            if t is not None:
                # what holds now and if the flag is set
                st = st | {("impl", p, x) for x in t if x[0] not in ("impl", "false")}
        if y.k == "call" and short(y.a.get("q") or "") in ("l2_norm",) and y.a.get("m"):
            o = self.pl(obj_of(y), fr)
            return st | {("norm", p, x[2]) for x in st if x[0] in ("full", "neg") and x[1] == o}
        q = ("ret",) if y.k == "call" and p != ("ret",) else self.pl(y, fr)
        if q is not None and q != p:
            new = set()
            for x in st:
                if q in x[1:]:
                    new.add(tuple(p if z == q else z for z in x))
                    if x[1:].count(q) > 1:
                        new |= {x[:1] + tuple(p if i == j else z for j, z in enumerate(x[1:])) for i in range(len(x) - 1) if x[1 + i] == q}
            return st | new
        if y.k == "lit" and y.a.get("v") in ("0", "0.0", "0.", "0.0e+00", "0.00000"):
            return st | {("zero", p)}
        try:
            if y.k == "lit" and float(y.a.get("v")) == 0:
                return st | {("zero", p)}
        except (TypeError, ValueError):
            pass
        return st

    def is_rhs_sub(self, val, fr):
        q = self.pl(val, fr)
        return q is not None and q in self.par.values()

    def on_assign(self, n, lhs, rhs, fr, st):
        p = self.pl(lhs, fr)
        if p is None:
            return st
        op = n.a.get("op")
        if op == "=":
            q = self.pl(rhs, fr)
            if q is not None and p == self.sol and q != p:
                self.check("step-accepted", f"{self.f.q}/accept", n, ("less", q) in st or ("start",) not in st,
                           "the new iterate lowered the residual norm before it is taken over", "an iterate is taken over that did not pass the decrease test")
            return self.value(p, rhs, fr, self.kill(st, p))
        if op == "-=":
            facts = [x for x in st if x[0] == "raw" and x[1] == p]
            st2 = self.kill(st, p)
            q = self.pl(rhs, fr)
            if facts and q == self.rhs:
                return st2 | {("full", p, x[2]) for x in facts}
            return st2
        if op == "*=":
            facts = [x for x in st if x[0] == "full" and x[1] == p]
            st2 = self.kill(st, p)
            if self.minus_one(rhs):
                return st2 | {("neg", p, x[2]) for x in facts}
            return st2
        return self.kill(st, p)

    @staticmethod
    def minus_one(e):
        y = unwrap(e)
        try:
            v = float(y.a.get("v")) if y.k == "lit" else -float(unwrap(y.c[0]).a.get("v")) if y.k == "un" and y.a.get("op") == "-" else None
        except (TypeError, ValueError, AttributeError):
            v = None
        return v == -1

    def on_incdec(self, n, fr, st):
        return self.kill(st, self.pl(n.c[0], fr))

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or n.a.get("n") or "")
        a = args_of(n)
        if s == EVAL and len(a) >= 2:
            r, x = self.pl(a[0], fr), self.pl(a[1], fr)
            st = self.kill(st, ("ret",))
            if r is None or x is None:
                return self.kill(st, r)
            st = self.kill(st, r) | {("raw", r, x)}
            if self.rhs is None:
                st = st | {("full", r, x)}
            elif ("norhs",) in st:
                st = st | {("full", r, x)}
            return st
        if s == "add" and len(a) == 2 and n.a.get("m") and self.minus_one(a[0]):
            p = self.pl(obj_of(n), fr)
            facts = [x for x in st if x[0] == "raw" and x[1] == p]
            if facts and self.pl(a[1], fr) == self.rhs:
                return self.kill(st, p) | {("full", p, x[2]) for x in facts}
        if s == "set_solution_linearization" and a:
            x = self.pl(a[0], fr)
            return frozenset(y for y in self.kill(st, ("ret",)) if y[0] != "lin") | {("lin", x)}
        if s == "solve" and len(a) >= 2 and n.a.get("m") and not self.inlined(n):
            inc, r = self.pl(a[0], fr), self.pl(a[1], fr)
            ok = any(x[0] == "neg" and x[1] == r and x[2] == self.sol for x in st)
            self.check("newton-step", f"{self.f.q}/residual", n, ok,
                       "the right-hand side of the linear problem is minus the residual of the current iterate",
                       "the right-hand side of the linear problem is not minus the residual (right-hand side included) of the current iterate")
            self.check("newton-step", f"{self.f.q}/linearization", n, ("lin", self.sol) in st,
                       "the Jacobian is linearised at the current iterate", "the Jacobian is not linearised at the current iterate")
            self.check("newton-step", f"{self.f.q}/guess", n, ("zero", inc) in st,
                       "the increment starts from zero", "the increment is not reset before the linear solve")
            self.check("newton-step", f"{self.f.q}/count", n, counted(n), "linear iterations accumulate", "the iterations of the linear solve are not accumulated")
            return self.kill(self.kill(st, inc), ("ret",))
        for tgt, kind, val in write_targets(n):
            if tgt is not None:
                st = self.kill(st, self.pl(tgt, fr))
        return self.enter(n, fr, self.kill(st, ("ret",)))

    def inlined(self, n):
        return any(self.want(t, n, None) for t in self.P.targets(n))

    # ---- conditions
    def on_cond(self, n, truth, fr, st):
        y = unwrap(n)
        if y is not None and y.k == "ref" and truth:
            p = self.pl(y, fr)
            if ("false", p) in st:
                return None
            st = st | {x[2] for x in st if x[0] == "impl" and x[1] == p}
        if y is not None and y.k in ("ref", "call"):
            o, of = self.E.origin(y, fr)
            if o is not y and o is not None:
                if self.nonempty(o, of):
                    return st if truth else self.norhs(st)
                t, f = self.cond(o, of, st)
                return t if truth else f
        if y is not None and self.nonempty(y, fr):
            return st if truth else self.norhs(st)
        if y is None or y.k != "bin" or y.a.get("op") not in ("<", "<=", ">", ">="):
            return st
        op = y.a["op"]
        l, r = y.c
        bounded, bound = None, None
        if (op in ("<", "<=")) == truth:
            bounded, bound = l, r
        else:
            bounded, bound = r, l
        # bounded <(=) bound holds
        for e, b in ((bounded, bound),):
            kind, num, den = self.ratio(e, fr, st)
            if num is None:
                continue
            its = {x[2] for x in st if x[0] == "norm" and x[1] == num}
            if not its:
                continue
            others = {x[1] for z in b.walk() for x in st if x[0] == "norm" and x[1] == self.pl(z, fr) and x[1] != num} if b is not None else set()
            if others:
                if any(x[0] == "norm" and x[1] in others and x[2] == self.sol for x in st):
                    st = st | {("less", i) for i in its}
                continue
            bp = self.pl(b, fr)
            if bp is not None:
                self.tol[kind].setdefault(bp[-1], []).append(y)
                if den is not None:
                    self.den.setdefault(den, y)
                st = st | {("test", i) for i in its}
        return st

    def norhs(self, st):
        return st | {("norhs",)} | {("full",) + x[1:] for x in st if x[0] == "raw"}

    def nonempty(self, y, fr):
        y = unwrap(y)
        if y is not None and y.k == "bin" and y.a.get("op") in (">", "!="):
            c = unwrap(y.c[0])
            return c is not None and c.k == "call" and short(c.a.get("q") or "") == "size" and self.pl(obj_of(c), fr) == self.rhs
        return False

    def ratio(self, e, fr, st):
        y = unwrap(e)
        if y is None:
            return None, None, None
        if y.k == "bin" and y.a.get("op") == "/":
            return "rel", self.pl(y.c[0], fr), self.pl(y.c[1], fr)
        p = self.pl(y, fr)
        return "abs", p, None

    def on_return(self, n, fr, st):
        if fr.depth == 0:
            self.exit(n, st)
        else:
            st = self.kill(st, ("ret",))
            if n.c and n.c[0] is not None:
                st = self.value(("ret",), n.c[0], fr, st)
        return st

    def exit(self, n, st):
        self.check("converged", f"{self.f.q}/return", n, ("test", self.sol) in st,
                   "the iterate returned passed the convergence test", "an iterate may be returned whose residual did not meet a tolerance")


def counted(n):
    p, x = n.p, n
    while p is not None and p.k in ("cast",):
        x, p = p, p.p
    if p is not None and p.k in ("bin", "call") and p.a.get("op") == "+=" and len(p.c) == 2 and p.c[1] is x:
        return True
    if p is not None and p.k == "var":
        vid = p.a["id"]
        blk = enclosing(p, "blk")
        return any(m.k in ("bin", "call") and m.a.get("op") == "+=" and len(m.c) == 2 and any(z.k == "ref" and z.a.get("id") == vid for z in m.c[1].walk()) for m in blk.walk())
    return False


def run(P, E, C):
    done = set()
    for f in P.fns:
        if f.dep or not f.clsid or f.loc in done or f.body is None:
            continue
        evals = [n for g in [f] + [t for n in f.find("call") for t in P.targets(n) if t.file == f.file] for n in g.find("call") if short(n.a.get("q") or n.a.get("n") or "") == EVAL]
        if not evals or not any(n.k in ("while", "for", "do") for n in f.walk()):
            continue
        if not any(short(n.a.get("q") or "") == "solve" for n in f.find("call")):
            continue
        if not any(short(n.a.get("q") or "").endswith("_norm") for g in [f] + [t for n in f.find("call") for t in P.targets(n) if t.file == f.file] for n in g.find("call")):
            continue
        vecs = [p for p in f.params if p[2].strip().endswith("&")]
        outs = [p for p in vecs if not p[2].strip().startswith("const ")]
        if not outs:
            continue
        done.add(f.loc)
        w = New(E, C, f)
        fr = E.root(f)
        w.sol = ("var", outs[0][1], fr.uid)
        ins = [p for p in vecs if p[2].strip().startswith("const ") and bare(p[2]) == bare(outs[0][2])]
        w.rhs = ("var", ins[0][1], fr.uid) if ins else None
        out, exc = w.run(f, frozenset({("start",)}), fr)
        for (rule, key, loc), (ok, good, bad) in w.obl.items():
            C.judge(ok, rule, key, loc, f"{f.q}: {good if ok else bad}")
        if not any(k[0] == "newton-step" for k in w.obl):
            C.note(f"{f.q}: no linear solve found")
        a, r = set(w.tol["abs"]), set(w.tol["rel"])
        for m in a & r:
            C.bad("tolerances", f"{f.q}/{m}", w.tol["abs"][m][0].loc, f"{f.q}: {m} bounds both the residual norm and its reduction")
        if not a & r:
            C.ok("tolerances", f.loc, f"{f.q}: absolute {sorted(a)}, relative {sorted(r)}")
        loops = [n for n in f.walk() if n.k in ("while", "for", "do")]
        for d, node in w.den.items():
            bad = [n for l in loops for n in l.walk() for t, k, v in write_targets(n) if t is not None and E.place(t, fr) == d]
            C.judge(not bad, "tolerances", f"{f.q}/reference", (bad or [node])[0].loc, f"{f.q}: the reference of the relative tolerance " + ("changes during the iteration" if bad else "is the norm at the start"))
        for l in loops:
            bounded(E, C, f, l, fr)
    C.need("converged", 1)


def bare(t):
    return clean_ty((t or "").removeprefix("dep:"))


def bounded(E, C, f, l, fr):
    if l.k == "for":
        return
    cond, body = (l.c[0], l.c[1]) if l.k == "while" else (l.c[1], l.c[0])
    atoms = flatten_cond(cond, True)
    ok, seen = False, False
    for a, pol in atoms:
        if a.k == "bin" and a.a.get("op") in ("<", "<=", "!=", ">", ">="):
            for side in a.c:
                p = E.place(unwrap(side), fr)
                if p is None:
                    continue
                for s in (body.c if body.k == "blk" else [body]):
                    if s is not None and s.k in ("un", "bin", "call") and s.a.get("op") in ("++", "--", "+=") and s.c and E.place(s.c[0], fr) == p:
                        ok = True
    if any(n.k == "cont" for n in body.walk()):
        ok = False
        C.note(f"{f.q}: loop at {l.loc} continues early")
        return
    C.judge(ok, "bounded", f"{f.q}/{l.k}", l.loc, f"{f.q}: the loop at {l.loc} " + ("is bounded by a counter that advances in every pass" if ok else "has no counter that bounds it and advances in every pass"))
