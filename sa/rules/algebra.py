"""Consistency of the model formulas: every derivative formula offered by a
class is the derivative of the formula it is named after, all ways of
evaluating a formula agree, and time schemes meet their order conditions.
Formulas are compared in the normal-form domain of formula.py."""
import re
from fractions import Fraction as Fr
from formula import *
from absint import Abs
from engine import *
from model import Prog

TOK = re.compile(r"d?(phase[ij]|eta[ij]|mu|phi|c)(\d?)")
CLASSES = {  # energy -> layout of its state
    "FreeEnergy": ("c", "mu", "eta"),
    "GrainGrowthFreeEnergy": ("eta",),
    "GreenquistFreeEnergy": ("phi", "mu", "eta"),
}


def parse_name(nm, names):
    """d2f_dcdetai -> (2, 'f', [('c', 1), ('etai', 1)])"""
    m = re.match(r"^d(\d*)(\w+?)_(d\w+)$", nm)
    while m:
        n, base, rest = int(m.group(1) or 1), m.group(2), m.group(3)
        out, i = [], 0
        while i < len(rest):
            t = TOK.match(rest, i)
            if not t:
                break
            out.append((t.group(1), int(t.group(2) or 1)))
            i = t.end()
        if i == len(rest) and sum(e for _, e in out) == n:
            return n, base, out
        j = nm.find("_d", m.start(3))
        m = re.match(r"^d(\d*)(.{%d,}?)_(d\w+)$" % (len(base) + 1), nm)
    m = re.match(r"^d(\d*)(\w+)$", nm)
    if m and m.group(2) in names:
        return int(m.group(1) or 1), m.group(2), [("phi", int(m.group(1) or 1))]
    return None


def ints(s):
    return [int(x) for x in split_args(s or "") if re.fullmatch(r"\d+", x)]


def state_of(layout, n):
    return [atom(x) for x in layout if x != "eta"] + [atom(f"e{i}") for i in range(n)]


class Energy:
    """evaluators of one energy class, built through its own eval functions"""

    def __init__(self, P, E, cls, C):
        self.P, self.E, self.cls = P, E, cls
        self.layout = CLASSES[cls]
        self.I = Interp(P, E)
        self.evals = []          # (fn, n, evaluator object)
        for f in P.named("eval"):
            if f.dep or f.q.split("::")[-2] != cls:
                continue
            try:
                n, ev = self.build(f)
            except Undecided as u:
                C.note(f"{cls} {f.loc} {f.targs}: {u}")
                continue
            if isinstance(ev, Obj):
                self.evals.append((f, n, ev))
        self.methods = {}
        for f in P.fns:
            if not f.dep and f.q.split("::")[-2:-1] == ["Evaluation"] and f.q.split("::")[-3:-2] == [cls]:
                self.methods.setdefault(f.n, f)

    def outer(self, f):
        o = Obj((f.clsid, f.cargs))
        for r in self.P.rec_by_id.get(f.clsid, ()):
            for x in r.fields:
                o.f[x["n"]] = atom(x["n"])
        return o

    def build(self, f, n=None):
        k = len(self.layout) - 1
        t = clean_ty(f.params[0][2])
        a = targ(t, "dealii::Tensor") or []
        if n is None:
            n = 3
            if len(f.params) == 1:
                i = ints(f.targs)
                sz = ints(", ".join(a)) if a else []
                if i:
                    n = i[-1]
                elif len(sz) == 2:
                    n = sz[1] - k
                elif targ(t, "std::array"):
                    n = int(targ(t, "std::array")[1]) - k
                else:
                    raise Undecided("number of grains")
        st = state_of(self.layout, n)
        if is_ptr_type(f.params[0][2]):
            st = Ptr(st, 0)
        args = [st] + ([n] if len(f.params) > 1 else [])
        r = self.I.call_fn(f, args, self.outer(f))
        return n, r.v if isinstance(r, (Box, Slot)) else r

    def value(self, ev, m, args):
        f = self.methods[m]
        r = self.I.call_fn(f, list(args), ev)
        return r.v if isinstance(r, (Box, Slot)) else r

    def phases(self, n):
        return (["phi"] if "phi" in self.layout else []) + [f"e{i}" for i in range(n)]


def uninit(v):
    return isinstance(v, Rat) and any(str(a).startswith("uninitialised") for a in v.atoms())


def exact():
    P = Prog(only=["insta"])
    return P, Engine(P)


def run_energy(_P, _E, C):
    P, E = (_P, _E) if _P is not None else exact()
    nd = 0
    for cls in CLASSES:
        if not any(f.q.split("::")[-2] == cls for f in P.named("eval")):
            C.note(f"{cls}: no evaluators")
            continue
        en = Energy(P, E, cls, C)
        names = set(en.methods)
        # reference evaluator per number of grains: run-time size
        ref = {}
        for n in (1, 2, 3, 4, 5):
            for f in P.named("eval"):
                if not f.dep and f.q.split("::")[-2] == cls and len(f.params) == 2:
                    try:
                        _, ev = en.build(f, n)
                        for b in ("f", "zeta"):
                            if b in names:
                                v = en.value(ev, b, [])
                        ref.setdefault(n, ev)
                    except Undecided:
                        pass
        for f, n, ev in en.evals:
            if n not in ref:
                C.note(f"{cls} n={n}: no reference")
                continue
            for m in sorted(names):
                fn = en.methods[m]
                where = fn.loc
                p = parse_name(m, names)
                try:
                    if p is None or p[1] not in names:
                        if fn.body is None or fn.n.startswith(("~", "Evaluation")):
                            continue
                        # plain value: all evaluators agree
                        extra = [atom(f"{m}.{x[0]}") if not INTTY.match(clean_ty(x[2])) else 1 for x in fn.params]
                        try:
                            v = en.value(ev, m, extra)
                        except Undecided as u:
                            if "unset member" in str(u):
                                offered(C, en, f, m, 0 if m == "f" else None, fn)
                                continue      # not offered by the reduced evaluator
                            raise
                        w = en.value(ref[n], m, extra)
                        if not isinstance(v, (Rat, list)):
                            continue
                        good = same(v, w)
                        C.judge(good, "evaluators-agree", f"{cls}::{m}", where,
                                f"{m} evaluated through {f.loc} equals its value through every other evaluator ({n} grains)"
                                if good else f"{cls}::{m} takes a different value through the evaluator at {f.loc}")
                        continue
                    order, base, vs = p
                    bfn = en.methods[base]
                    extra = [atom(f"{base}.{x[0]}") for x in bfn.params]
                    fvar = en.value(ref[n], base, extra)
                    if not isinstance(fvar, Rat):
                        continue
                    kinds = [v for v, _ in vs if v.startswith(("eta", "phase"))]
                    pool = [f"e{i}" for i in range(n)] if any(v.startswith("eta") for v in kinds) else en.phases(n)
                    cases = [[]]
                    for v in kinds:
                        cases = [c + [x] for c in cases for x in pool if x not in c]
                    nargs = len(fn.params) - len(bfn.params)
                    for cs in cases:
                        d, it = fvar, iter(cs)
                        pt = []
                        for v, e in vs:
                            if v.startswith(("eta", "phase")):
                                x = next(it)
                                pt.append(x)
                            else:
                                x = v
                            for _ in range(e):
                                d = d.diff(x)
                        va = [atom(x) for x in pt][:nargs] if nargs >= len(pt) else []
                        va += [atom("unused")] * (nargs - len(va))
                        try:
                            got = en.value(ev, m, extra + va)
                        except Undecided as u:
                            if "unset member" in str(u) and ev is not ref[n]:
                                offered(C, en, f, m, order, fn)
                                break
                            raise
                        nd += 1
                        good = same(got, d)
                        C.judge(good, "derivative", f"{cls}::{m}", where,
                                f"{m} equals the derivative of {base} with respect to "
                                f"{', '.join(v for v, e in vs for _ in range(e))}"
                                f"{' at ' + ', '.join(pt) if pt else ''} ({n} grains, evaluator {f.loc})"
                                if good else
                                f"{cls}::{m} is not the derivative of {base} with respect to "
                                f"{', '.join(v for v, e in vs for _ in range(e))} ({n} grains)")
                except Undecided as u:
                    C.note(f"{cls}::{m}: {u}")
            # pure states are stationary
            if {"c", "eta"} <= set(en.layout) and "df_dc" in names:
                try:
                    stationary(C, en, f, n, ev)
                except Undecided as u:
                    C.note(f"{cls} pure states: {u}")
        run_apply(P, C, en, ref)
    C.need("derivative", 20)
    C.need("evaluators-agree", 3)


def offered(C, en, f, m, order, fn):
    """the evaluator cannot compute m; fine unless its mask promises it"""
    h = (split_args(f.targs or "") or [""])[0]
    k = re.fullmatch(r"(?:hpsint::)?Mask<(.*)>", h)
    if k and order is not None and (order + 1) in ints(k.group(1)):
        C.bad("evaluator-complete", f"{en.cls}::{m}", fn.loc,
              f"{en.cls}::{m} reads a sum which the evaluator requested for derivatives of order {order} at {f.loc} does not compute")


def stationary(C, en, f, n, ev):
    pure = [("the void", {"c": Rat(0), **{f"e{i}": Rat(0) for i in range(n)}})]
    for k in range(n):
        pure.append((f"grain {k}", {"c": Rat(1), **{f"e{i}": Rat(1 if i == k else 0) for i in range(n)}}))
    for what, env in pure:
        for m in ("df_dc", "df_detai"):
            if m not in en.methods:
                continue
            for i in range(n if m == "df_detai" else 1):
                try:
                    v = en.value(ev, m, [atom(f"e{i}")] if m == "df_detai" else [])
                except Undecided as u:
                    if "unset member" in str(u):
                        continue
                    raise
                good = v.subst(env).zero()
                C.judge(good, "pure-state", f"{en.cls}::{m}", en.methods[m].loc,
                        f"{m} vanishes inside {what} ({n} grains)" if good else
                        f"{en.cls}::{m} does not vanish inside {what}: a pure phase would not be in equilibrium")
        if "f" in en.methods:
            try:
                v = en.value(ev, "f", []).subst(env)
            except Undecided:
                continue
            C.judge(v.zero(), "pure-state", f"{en.cls}::f", en.methods["f"].loc,
                    f"the energy vanishes inside {what} ({n} grains)" if v.zero() else
                    f"{en.cls}: the energy of {what} is not the minimum 0")


def run_apply(P, C, en, ref):
    """the product with the off-diagonal Hessian of the grains"""
    for f in P.named("apply_d2f_detaidetaj"):
        if f.dep or f.q.split("::")[-2] != en.cls or not f.body.c:
            continue
        for n in (1, 2, 3):
            if n not in ref:
                continue
            try:
                L = atom("L")
                e = [atom(f"e{i}") for i in range(n)]
                v = [atom(f"v{i}") for i in range(n)]
                r = [atom(f"r{i}") for i in range(n)]
                res = list(r)
                en.I.call_fn(f, [L, Ptr(e, 0), n, Ptr(v, 0), Ptr(res, 0)], en.outer(f))
                for i in range(n):
                    w = r[i]
                    for j in range(n):
                        if i != j:
                            w = w + L * en.value(ref[n], "d2f_detaidetaj", [e[i], e[j]]) * v[j]
                    good = same(res[i], w)
                    C.judge(good, "hessian-product", f"{en.cls}::{f.n}", f.loc,
                            f"component {i} of the product with the off-diagonal second derivatives, {n} grains" if good else
                            f"{en.cls}::{f.n}: component {i} is not the sum of the second derivatives times the increments "
                            f"({n} grains)" + (", it reads a variable without a value" if uninit(res[i]) else ""))
            except Undecided as u:
                C.note(f"{en.cls}::{f.n}: {u}")


# ---- mobilities -------------------------------------------------------------
CH = ("Mvol", "Mvap", "Msurf", "Mgb")


def vec(nm, d=2):
    return [atom(f"{nm}{i}") for i in range(d)]


class Mob:
    def __init__(self, P, E, cls):
        self.P, self.E, self.cls = P, E, cls
        self.I = Interp(P, E)
        self.m = {}
        for f in P.fns:
            if not f.dep and f.cls and f.cls.split("::")[-1] == cls and (f.cargs or "").startswith("2,"):
                self.m.setdefault(f.n, f)
        f = next(iter(self.m.values()))
        self.obj = Obj((f.clsid, f.cargs), {k: atom(k) for k in CH + ("L",)})
        for r in P.rec_by_id.get(f.clsid, ()):
            for x in r.fields:
                if SCALAR.match(clean_ty(x["ty"])):
                    self.obj.f.setdefault(x["n"], atom("constant " + x["n"]))

    def call(self, m, args):
        r = self.I.call_fn(self.m[m], args, self.obj)
        return r.v if isinstance(r, (Box, Slot)) else r


def mat(v, d=2):
    return v if isinstance(v, list) else [[v if i == j else Rat(0) for j in range(d)] for i in range(d)]


def mv(M, x):
    M = mat(M, len(x))
    return [sum((rat(M[i][j]) * x[j] for j in range(len(x))), Rat(0)) for i in range(len(x))]


def plus(a, b):
    return [x + y for x, y in zip(a, b)]


def scl(a, s):
    return [x * s for x in a]


def deep(v, f):
    return [deep(x, f) for x in v] if isinstance(v, list) else f(rat(v))


def mobility_classes(P):
    """classes offering the product with the mobility"""
    return sorted({f.cls.split("::")[-1] for f in P.named("apply_M") if not f.dep and f.cls})


def run_mobility(_P, _E, C):
    P, E = (_P, _E) if _P is not None else exact()
    c, gc, gmu = atom("c"), vec("gc"), vec("gmu")
    dc, dgc, dgmu = atom("dc"), vec("dgc"), vec("dgmu")
    for cls in mobility_classes(P):
        mb = Mob(P, E, cls)
        one = {a: Rat(1) for a in ATOMS if str(a).startswith("constant ") and "scale" in str(a)}
        for n in (1, 2, 3):
            e = [atom(f"e{i}") for i in range(n)]
            de = [atom(f"v{i}") for i in range(n)]
            ge = [vec(f"ge{i}") for i in range(n)]
            dge = [vec(f"vge{i}") for i in range(n)]
            try:
                F = mb.call("apply_M", [c, Ptr(e), n, gc, Ptr(ge), gmu])
            except Undecided as u:
                C.note(f"{cls}::apply_M: {u}")
                continue
            # Gateaux derivatives of the flux; the normals of the grain
            # boundaries are frozen
            Fc = [x.diff("c") for x in F]
            Fe = [[x.diff(f"e{i}") for x in F] for i in range(n)]
            Fg = [sum((x.diff(f"gc{k}") * dgc[k] for k in range(2)), Rat(0)) for x in F]
            Fm = [sum((x.diff(f"gmu{k}") * dgmu[k] for k in range(2)), Rat(0)) for x in F]
            tests = []

            def add(m, what, mk, want, sub=None):
                if m in mb.m:
                    tests.append((m, what, mk, want, sub))

            tot = plus(plus(scl(Fc, dc), Fg), Fm)
            for i in range(n):
                tot = plus(tot, scl(Fe[i], de[i]))
            add("apply_M_derivative", "is the directional derivative of the flux of apply_M",
                lambda: mb.call("apply_M_derivative", [Ptr([c, atom("mu")] + e), Ptr([gc, gmu] + ge), n,
                                                       Ptr([dc, atom("dmu")] + de), Ptr([dgc, dgmu] + dge)]), tot)
            add("dM_dc", "is the derivative of the flux of apply_M with respect to the concentration",
                lambda: mv(mb.call("dM_dc", [c, Ptr(e), gc, Ptr(ge)]), gmu), Fc)
            add("dM_dgrad_c", "is the derivative of the flux of apply_M with respect to the concentration gradient",
                lambda: mv(mb.call("dM_dgrad_c", [c, gc, gmu]), dgc), Fg)
            for i in range(n):
                if n > 1:
                    add("dM_detai", f"is the derivative of the flux of apply_M with respect to the order parameter",
                        lambda i=i: mv(mb.call("dM_detai", [c, Ptr(e), n, gc, Ptr(ge), i]), gmu), Fe[i])
            parts = [("M_vol", lambda: mb.call("M_vol", [c])), ("M_vap", lambda: mb.call("M_vap", [c])),
                     ("M_surf", lambda: mb.call("M_surf", [c, gc])), ("M_gb", lambda: mb.call("M_gb", [Ptr(e), n, Ptr(ge)]))]
            for (m, mk), ch in zip(parts, CH):
                only = {k: (atom(k) if k == ch else Rat(0)) for k in CH}
                add(m, "is the contribution of its own mechanism to the flux of apply_M",
                    lambda mk=mk: mv(mk(), gmu), [x.subst(only) for x in F], one)
            if "M_vol" in mb.m:
                add("dM_vol_dc", "is the derivative of the volume mobility",
                    lambda: mat(mb.call("dM_vol_dc", [c])),
                    deep(mat(mb.call("M_vol", [c])), lambda x: x.diff("c")))
            if "M_surf" in mb.m:
                add("dM_surf_dc", "is the derivative of the surface mobility",
                    lambda: mat(mb.call("dM_surf_dc", [c, gc])),
                    deep(mat(mb.call("M_surf", [c, gc])), lambda x: x.diff("c")), one)
            for m, what, mk, want, sub in tests:
                fn = mb.m[m]
                try:
                    got = mk()
                    w = want
                    if sub:
                        got, w = deep(got, lambda x: x.subst(sub)), deep(want, lambda x: x.subst(sub))
                    good = same(got, w)
                except Undecided as u:
                    C.note(f"{cls}::{m}: {u}")
                    continue
                C.judge(good, "mobility", f"{cls}::{m}", fn.loc,
                        f"{cls}::{m} {what} ({n} grains)" if good else f"{cls}::{m} is expected to be, but not: it {what} ({n} grains)")
    C.need("mobility", 10)
    run_providers(P, E, C)


def run_providers(P, E, C):
    """every mechanism gets the coefficient of its own parameters"""
    base = [r for r in P.recs if r.q.split("::")[-1] == "MobilityProvider"]
    ids = {f.id for f in P.named("MobilityProvider::calculate")} | {m["id"] for r in base for m in r.methods if m["n"] == "calculate"}
    fns = [f for f in P.named("calculate") if not f.dep and f.cls and (not ids or set(f.ov) & ids)]
    for f in fns:
        cls = f.cls.split("::")[-1]
        hook = lambda q, n, I, fr: atom("T") if q.split("::")[-1] == "value" and "Function1D" in q else NotImplemented
        I = Interp(P, E, hook=hook)
        for ct in [g for g in P.fns if g.clsid == f.clsid and g.isctor and not g.dep]:
            o = Obj((f.clsid, f.cargs))
            try:
                for r in P.rec_by_id.get(f.clsid, ()):
                    for x in r.fields:
                        if x.get("ie") is not None:
                            o.f[x["n"]] = atom("constant " + x["n"])
                I.call_fn(ct, [atom(p[0]) if SCALAR.match(clean_ty(p[2])) else Obj(p[0]) if "shared_ptr" in p[2] else "x"
                               for p in ct.params], o)
                r = I.call_fn(f, [atom("time")], o)
                r = r.v if isinstance(r, (Box, Slot)) else r
            except Undecided as u:
                C.note(f"{cls}: {u}")
                continue
            co = r.f if isinstance(r, Obj) else None
            if isinstance(r, list):
                rec = [x for x in P.recs if x.q.split("::")[-1] == short(clean_ty(f.rty))]
                co = {x["n"]: v for x, v in zip(rec[0].fields, r)} if rec else None
            if not co:
                C.note(f"{cls}: coefficients")
                continue
            laws = {}
            for ch, mech in zip(CH + ("L",), ("vol", "vap", "surf", "gb", None)):
                v = co.get(ch)
                if not isinstance(v, Rat):
                    continue
                pars = [p[0] for p in ct.params]
                if ch in pars:
                    good = same(v, atom(ch))
                    C.judge(good, "provider", f"{cls}::{ch}", f.loc,
                            f"{ch} is the given value" if good else f"{cls}: the coefficient {ch} is not the one given for it")
                elif mech:
                    own = [p for p in pars if re.search(rf"_{mech}\d*$", p)]
                    laws[ch] = (v.subst({p: atom("own " + p.replace(mech, "")) for p in own}), own)
            if len(laws) > 1:
                ref = laws["Mvol"][0] if "Mvol" in laws else next(iter(laws.values()))[0]
                for ch, (v, own) in laws.items():
                    good = same(v, ref) and any(str(a).startswith("own ") for a in all_atoms(v))
                    C.judge(good, "provider", f"{cls}::{ch}", f.loc,
                            f"{ch} follows the common law with {own}" if good else
                            f"{cls}: {ch} does not follow from its own parameters {own} by the law of the other mechanisms")
    # the mobility takes the coefficients over by name
    for f in P.named("Mobility::update"):
        if f.dep:
            continue
        co = Obj("coefficients", {k: atom("new " + k) for k in CH + ("L",)})
        I = Interp(P, E, hook=lambda q, n, I, fr: co if q.split("::")[-1] == "calculate" else NotImplemented)
        o = Obj((f.clsid, f.cargs), {"provider": Obj("provider")})
        try:
            I.call_fn(f, [atom("time")], o)
        except Undecided as u:
            C.note(f"{f.q}: {u}")
            continue
        for k in CH + ("L",):
            good = k in o.f and isinstance(o.f[k], Rat) and same(o.f[k], atom("new " + k))
            C.judge(good, "provider", f"Mobility::{k}", f.loc,
                    f"{k} is taken over" if good else f"the mobility does not take over the coefficient {k} of its provider")


def all_atoms(v):
    out, st = set(), [v]
    while st:
        x = st.pop()
        for a in x.atoms():
            if a not in out:
                out.add(a)
                k, p = ATOMS[a]
                if k in ("sqrt", "inv"):
                    st.append(Rat(p))
                elif k == "exp":
                    st.append(p)
    return out


# ---- time schemes -----------------------------------------------------------
def run_schemes(_P, _E, C):
    P, E = (_P, _E) if _P is not None else exact()
    I = Abs(P, E)
    by_order = {}
    for f in P.named("compute_weights"):
        if f.dep or not f.cls or len(f.params) != 1:
            continue
        cls = f.cls.split("::")[-1]
        o = Obj((f.clsid, f.cargs))
        g = next((x for x in P.named("get_order") if x.clsid == f.clsid and not x.dep), None)
        if g is None:
            continue
        try:
            k = I.call_fn(g, [], o)
        except Undecided as u:
            C.note(f"{cls}: {u}")
            continue
        by_order[cls] = (k, o, f)
        # full history, and start-up with fewer steps than the order
        for m in range(1, k + 1):
            h = [atom(f"h{i}") for i in range(m)] + [Rat(0)] * (k - m)
            try:
                w = I.call_fn(f, [Box(list(h))], o)
                w = w.v if isinstance(w, (Box, Slot)) else w
            except OutOfRange as u:
                C.bad("implicit-order", f"{cls}:{m}", f.loc, f"the weights of {cls} are computed beyond the length of the history: {u}")
                continue
            except ZeroDivision:
                C.bad("implicit-order", f"{cls}:{m}", f.loc, f"the weights of {cls} divide by zero if only {m} steps have been made")
                continue
            except Undecided as u:
                C.note(f"{cls} with {m} steps: {u}")
                continue
            t = [Rat(0)]
            for x in h[:m]:
                t.append(t[-1] - x)
            t += [Rat(0)] * (len(w) - len(t))
            bad = None
            for p in range(m + 1):
                s = Rat(0)
                for i in range(len(w)):
                    s = s + rat(w[i]) * rpow(t[i], Fr(p))
                if not same(s, Rat(1 if p == 1 else 0)):
                    bad = bad or p
                    if bad is None or p < (bad or 0):
                        bad = p
                    break
            if bad is None and not all(same(x, Rat(0)) for x in w[m + 1:]):
                bad = "unused"
            if bad is None and any(uninit(x) for x in w):
                bad = "value"
            C.judge(bad is None and len(w) == k + 1, "implicit-order", f"{cls}:{m}", f.loc,
                    f"{cls} with {m} stored steps differentiates polynomials of degree {m} exactly for all step sizes" if bad is None else
                    f"{cls} with {m} stored steps does not differentiate polynomials of degree {bad} exactly"
                    if isinstance(bad, int) else f"{cls} with {m} stored steps weights states which do not exist")
    expl = {}
    for f in P.named("get_stages"):
        if f.dep or not f.cls or f.body is None:
            continue
        try:
            v = I.call_fn(f, [], Obj((f.clsid, f.cargs)))
            v = v.v if isinstance(v, (Box, Slot)) else v
            st = [(rat(x.f["first"]), rat(x.f["second"])) if isinstance(x, Obj) else (rat(x[0]), rat(x[1])) for x in v]
        except Undecided as u:
            C.note(f"{f.q}: {u}")
            continue
        expl[f.cls.split("::")[-1]] = (st, f)
    # names under which the schemes are offered
    for f in P.named("create_time_scheme"):
        if f.dep:
            continue
        for n in f.find("il", "ctor"):
            ch = [x for x in n.c if x is not None]
            if len(ch) != 2:
                continue
            nm = str_literal(ch[0])
            lam = next(iter(ch[1].find("lambda")), None)
            if not nm or lam is None:
                continue
            made = [short(re.sub(r"<.*", "", (split_args(c.a.get("targs") or "") or [""])[0])) for c in lam.find("call") if short(c.a.get("q") or "") in ("make_unique", "make_shared")]
            made += [short(c.a.get("q") or "") for c in lam.find("ctor")]
            cls = next((m for m in made if m in by_order or m in expl), None)
            if cls is None:
                C.note(f"scheme {nm}: class not found")
                continue
            d = re.search(r"(\d+)$", nm)
            if cls in by_order:
                k = by_order[cls][0]
                good = d is not None and int(d.group(1)) == k
                C.judge(good, "scheme-name", nm, lam.loc, f"{nm} creates a scheme of order {k}" if good else f"{nm} creates {cls}, a scheme of order {k}")
            else:
                want = int(d.group(1)) if d else 1
                st, g = expl[cls]
                q = rk_order(st)
                C.judge(q >= want, "explicit-order", nm, g.loc,
                        f"{nm}: the stages meet all order conditions up to {want}" if q >= want else
                        f"{nm}: the stages of {cls} meet the order conditions up to {q} only")
                if not st:
                    continue
                good = same(st[-1][1], Rat(0))
                C.judge(good, "explicit-order", nm + ":last", g.loc, "the last stage does not continue" if good else f"{nm}: the last stage continues")
    run_integrator(P, E, C, by_order)
    C.need("implicit-order", 3)


def rk_order(st):
    b = [x for x, _ in st]
    a = [Rat(0)] + [y for _, y in st[:-1]]        # one-step couplings
    s = len(st)
    c = a
    z = Rat(0)
    prev = lambda v, i: v[i - 1] if i else z
    S = lambda f: sum((f(i) for i in range(s)), Rat(0))
    cond = [
        [(S(lambda i: b[i]), Fr(1))],
        [(S(lambda i: b[i] * c[i]), Fr(1, 2))],
        [(S(lambda i: b[i] * c[i] * c[i]), Fr(1, 3)), (S(lambda i: b[i] * a[i] * prev(c, i)), Fr(1, 6))],
        [(S(lambda i: b[i] * c[i] * c[i] * c[i]), Fr(1, 4)), (S(lambda i: b[i] * c[i] * a[i] * prev(c, i)), Fr(1, 8)),
         (S(lambda i: b[i] * a[i] * prev(c, i) * prev(c, i)), Fr(1, 12)),
         (S(lambda i: b[i] * a[i] * prev(a, i) * (prev(c, i - 1) if i > 1 else z)), Fr(1, 24))]]
    q = 0
    for cs in cond:
        if all(same(x, Rat(y)) for x, y in cs):
            q += 1
        else:
            break
    return q


def run_integrator(P, E, C, by_order):
    """step history of the integrator: shift, replace, copies, and weights"""
    fs = [f for f in P.fns if f.cls and f.cls.split("::")[-1] == "TimeIntegratorData" and not f.dep]
    if not fs:
        C.note("no integrator data")
        return
    M = {}
    for f in fs:
        if not f.isctor:
            M.setdefault(f.n, f)
    ct = [f for f in fs if f.isctor]
    sch = lambda f: any("unique_ptr" in p[2] for p in f.params)

    def hook(q, n, I, fr):
        m = q.split("::")[-1]
        if "unique_ptr" not in q and "shared_ptr" not in q:
            return NotImplemented
        if m in ("operator->", "operator*", "get") and n.c:
            return I.rv(n.c[0], fr)
        if m == "operator bool" and n.c:
            return isinstance(I.rv(n.c[0], fr), Obj)
        return NotImplemented
    I = Abs(P, E, hook=hook)

    def new(params, args):
        c = [f for f in ct if len(f.params) == len(params) and all(k in p[2] for k, p in zip(params, f.params))]
        if not c:
            raise Undecided("constructor")
        o = Obj((c[0].clsid, c[0].cargs))
        I.call_fn(c[0], args, o)
        return o

    def get(o, m):
        v = I.call_fn(M[m], [], o)
        v = v.v if isinstance(v, (Box, Slot)) else v
        return v

    def weights_ok(o, s):
        k, so, f = s
        w = I.call_fn(f, [Box(copyv(get(o, "get_all_dt")))], so)
        w = w.v if isinstance(w, (Box, Slot)) else w
        return same(get(o, "get_weights"), w)

    for cls, (k, so, f) in sorted(by_order.items()):
        S = lambda: Obj(so.cls)
        try:
            o = new(["unique_ptr"], [S()])
            hist = [Rat(0)] * k
            for i in range(1, k + 2):
                d = atom(f"d{i}")
                I.call_fn(M["update_dt"], [d], o)
                hist = [d] + hist[:k - 1]
                good = same(get(o, "get_all_dt"), hist)
                C.judge(good, "step-history", f"{cls}:update_dt", M["update_dt"].loc,
                        f"after {i} steps the stored sizes are the last {min(i, k)} sizes, newest first" if good else
                        f"after {i} steps of {cls} the stored step sizes are not the last sizes, newest first")
                good = weights_ok(o, by_order[cls])
                C.judge(good, "step-weights", f"{cls}:update_dt", M["update_dt"].loc,
                        "the weights belong to the stored sizes" if good else f"the weights of {cls} do not belong to the stored sizes after a new step")
            x = atom("x")
            I.call_fn(M["replace_dt"], [x], o)
            hist = [x] + hist[1:]
            good = same(get(o, "get_all_dt"), hist) and weights_ok(o, by_order[cls])
            C.judge(good, "step-history", f"{cls}:replace_dt", M["replace_dt"].loc,
                    "replacing the current step changes this size only and the weights follow" if good else
                    f"replacing the current step of {cls} does not leave the earlier sizes or does not update the weights")
            good = same(get(o, "get_current_dt"), x) and same(get(o, "get_primary_weight"), get(o, "get_weights")[0])
            C.judge(good, "step-history", f"{cls}:getters", M["get_current_dt"].loc,
                    "the current size and the primary weight are the first entries" if good else f"{cls}: current size or primary weight of another step")
            # change of the scheme keeps as much of the history as fits
            for c2, s2 in sorted(by_order.items()):
                n = new(["TimeIntegratorData", "unique_ptr"], [o, Obj(s2[1].cls)])
                h = [hist[i] if i < min(k, s2[0]) else Rat(0) for i in range(s2[0])]
                good = same(get(n, "get_all_dt"), h) and weights_ok(n, s2) and get(n, "get_order") == s2[0]
                C.judge(good, "step-history", f"{cls}->{c2}", next(f for f in ct if len(f.params) == 2 and "unique_ptr" in f.params[1][2]).loc,
                        f"changing from {cls} to {c2} keeps the common history" if good else
                        f"changing from {cls} to {c2} does not keep the common step history")
        except OutOfRange as u:
            C.bad("step-history", f"{cls}:range", f.loc, f"the step history of {cls} is accessed beyond its length: {u}")
        except ZeroDivision:
            C.bad("step-weights", f"{cls}:zero", f.loc, f"the weights of {cls} divide by zero for some lengths of the history")
        except Undecided as u:
            C.note(f"{cls} history: {u}")
