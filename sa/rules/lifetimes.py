"""G01: nothing is used beyond its lifetime.

run   ret-local: no reference, pointer or iterator to a local is returned.
      closure-escape: a stored or returned callback captures no local of the
      function creating it by reference.
      moved-from: a value moved away is not read before it is set again.
      invalidated: iterators and references into a container are not used
      after an operation on the container that invalidates them, and a
      container is not restructured inside the loop running over it.
"""
from canon import *
from util import *

SEQ_MUT = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "reserve", "pop_back",
           "assign", "shrink_to_fit", "push_front", "swap"}
NODE_MUT = {"erase", "clear", "pop_front", "pop_back", "swap"}
SEQ = ("std::vector<", "std::deque<", "std::basic_string<", "std::string")
NODE = ("std::map<", "std::set<", "std::list<", "std::multimap<", "std::multiset<", "std::unordered_map<",
        "std::unordered_set<", "std::forward_list<")
RESET = {"clear", "reset", "assign", "resize", "reinit", "operator=", "swap", "initialize"}
PLAIN = ("dealii::Point", "dealii::Tensor", "dealii::VectorizedArray", "dealii::BoundingBox", "double", "float",
         "int", "unsigned", "bool", "char", "long", "unsigned int", "std::array<double", "std::pair<unsigned int, unsigned int")


def is_seq(t):
    return clean_ty(t).startswith(SEQ)


def is_node(t):
    return clean_ty(t).startswith(NODE)


def is_iter(t):
    t = clean_ty(t)
    return "iterator" in t.split("<")[0].lower() or "_iterator" in t.split("<")[0] or "::iterator" in t or "const_iterator" in t


def local_var(E, fr, p):
    """place rooted at storage of the function itself"""
    if p is None or p[0] != "var":
        return None
    info = E.info(fr.body if fr.body is not None else fr.fn)
    v = info.decl.get(p[1])
    if v is not None:
        if v.a.get("static") or v.a.get("ref") or is_ref_type(v.a.get("ty")):
            return None
        if is_ptr_type(v.a.get("ty")) or p[1] in info.rfor:
            return None
        return v.a.get("n")
    for nm, pid, ty in fr.fn.params:
        if pid == p[1]:
            return None if is_ref_type(ty) or is_ptr_type(ty) else nm
    return None


VIEWS = ("std::basic_string_view", "std::string_view", "dealii::ArrayView<", "std::span<")


def ret_local(P, E, C):
    n = 0
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        t = (f.rty or "").strip()
        if not (is_ref_type(t) or t.endswith("*") or is_iter(t) or clean_ty(t).startswith(VIEWS)):
            continue
        fr = E.root(f)
        for r in f.find("ret"):
            if not r.c or r.c[0] is None or enclosing(r, "lambda") is not None:
                continue
            p = E.place(r.c[0], fr)
            nm = local_var(E, fr, p)
            through = p is not None and any(isinstance(x, str) and x in ("*", "->") for x in p[3:])
            bad = nm is not None and not through and not holds_elsewhere(E, fr, p)
            n += 1
            C.judge(not bad, "ret-local", f"{f.q}/{nm}", r.loc, f"{f.q} returns {t} " + (f"to its own {nm}" if bad else "to storage of the caller or of the object"))
    C.need("ret-local", 3)


def holds_elsewhere(E, fr, p):
    """a local that itself only refers to other storage (views, accessors,
    pointers held in containers)"""
    info = E.info(fr.body if fr.body is not None else fr.fn)
    v = info.decl.get(p[1])
    t = clean_ty(v.a.get("ty")) if v is not None else ""
    if t.startswith(VIEWS) or is_iter(t):
        return True
    if len(p) > 3 and not t.startswith(SEQ + NODE + ("std::array<", "dealii::Point", "dealii::Tensor", "std::pair<", "std::optional<")):
        return True
    return "*" in t or "shared_ptr" in t


# ---- closures -------------------------------------------------------------
def captured_locals(E, lam, f):
    """locals of the enclosing function captured by reference"""
    out = []
    info = E.info(f)
    # nearest enclosing lambda: locals declared inside it are its own
    for c in lam.a.get("caps") or ():
        if not c.get("id") or not c.get("byref"):
            continue
        v = info.decl.get(c["id"])
        if v is not None:
            if v.a.get("static"):
                continue
            if v.a.get("ref") or is_ref_type(v.a.get("ty")):
                fr = E.root(f)
                y = v.c[0] if v.c else None
                p = E.place(y, fr) if y is not None else None
                if local_var(E, fr, p) is None or holds_elsewhere(E, fr, p):
                    continue
            out.append((c["n"], c["id"]))
            continue
        for nm, pid, ty in f.params:
            if pid == c["id"] and not is_ref_type(ty):
                out.append((nm, pid))
        # parameter of an enclosing lambda, by value
        for a in lam.ancestors():
            if a.k == "lambda":
                for nm, pid, ty in a.a.get("params") or ():
                    if pid == c["id"] and not is_ref_type(ty):
                        out.append((nm, pid))
    return out


def owner_lambda(f, vid):
    """lambda node whose body declares the variable (None: the function)"""
    for l in f.find("lambda"):
        for pr in l.a.get("params") or ():
            if pr[1] == vid:
                return l
    best = None
    for v in f.find("var"):
        if v.a.get("id") == vid or any(b == vid for _, b in v.a.get("bind") or ()):
            return enclosing(v, "lambda")
    return best


def outlives(E, fr, e, f):
    """the place belongs to the object, the caller, or the program"""
    p = E.place(e, fr) if e is not None else fr.this
    if p is None:
        return False
    if p[0] in ("this", "glob"):
        return True
    if p[0] == "var":
        for nm, pid, ty in f.params:
            if pid == p[1]:
                return is_ref_type(ty) or is_ptr_type(ty)
    return False


def escapes(E, f, fr, x, depth=0, seen=None):
    """where the callable x (lambda, or reference to a local holding one)
    is handed out of the function: list of (kind, node)"""
    seen = seen if seen is not None else set()
    out = []
    n, par = x, x.p
    while par is not None and depth < 30:
        depth += 1
        k = par.k
        if k in ("cast", "defarg") or (k == "ctor" and (par.a.get("copy") or short(par.a.get("q") or "") in ("function", "shared_ptr", "unique_ptr") or (par.a.get("q") or "").startswith("std::"))) or k == "il":
            n, par = par, par.p
            continue
        if k == "call" and (par.a.get("q") in TRANSPARENT_CALLS or short(par.a.get("q") or "") in ("make_shared", "make_unique", "make_pair", "make_tuple", "bind")):
            n, par = par, par.p
            continue
        if k == "cond" and par.c[0] is not n:
            n, par = par, par.p
            continue
        break
    if par is None:
        return out
    k = par.k
    if k == "ret":
        return [("ret", par)]
    if k == "bin" and par.a.get("op") == "=" and par.c[1] is n or (k == "call" and par.a.get("op") == "=" and len(par.c) == 2 and par.c[1] is n):
        l = par.c[0]
        if outlives(E, fr, l, f):
            return [("store", par)]
        y = unwrap(l)
        while y is not None and y.k in ("mem", "sub") or (y is not None and y.k == "call" and y.a.get("op") in ("[]", "->", "*")):
            y = unwrap(y.c[0]) if y.c else None
        if y is not None and y.k == "ref":
            return uses(E, f, fr, y.a.get("id"), seen)
        return out
    if k == "var":
        return uses(E, f, fr, par.a.get("id"), seen)
    if k == "call":
        s = short(par.a.get("q") or "")
        o = obj_of(par) if par.a.get("m") else None
        if par.a.get("m") and n is not o and s in ("connect", "push_back", "emplace_back", "emplace", "insert", "push_front", "try_emplace"):
            if o is None or outlives(E, fr, o, f):
                return [("store", par)]
            y = unwrap(o)
            if y is not None and y.k == "ref":
                return uses(E, f, fr, y.a.get("id"), seen)
        elif n is not o or not par.a.get("m"):
            # callee that stores its parameter in a member
            args = args_of(par)
            for t in E.P.targets(par):
                for (nm, pid, ty), a in zip(t.params, args):
                    if a is n and stores_param(E, t, pid) and par.a.get("m") and (o is None or outlives(E, fr, o, f)):
                        return [("store", par)]
    return out


def stores_param(E, t, pid):
    fr = E.root(t)
    for n in t.walk():
        if n.k == "call" and n.a.get("op") == "=" and len(n.c) == 2:
            r = unwrap(n.c[1])
            l = unwrap(n.c[0])
            if r is not None and r.k == "ref" and r.a.get("id") == pid and l is not None and l.k == "mem" and outlives(E, fr, l, t):
                return True
        if n.k == "call" and n.a.get("m") and short(n.a.get("q") or "") in ("connect", "push_back", "emplace_back"):
            for a in args_of(n):
                r = unwrap(a)
                if r is not None and r.k == "ref" and r.a.get("id") == pid and outlives(E, fr, obj_of(n), t):
                    return True
    return False


def uses(E, f, fr, vid, seen):
    out = []
    if vid is None or vid in seen:
        return out
    seen.add(vid)
    for r in f.find("ref"):
        if r.a.get("id") == vid:
            # only as a value, not as the callee of a call or assigned to
            p = r.p
            if p is not None and p.k == "call" and p.c and p.c[0] is r and (p.a.get("op") in ("()", "=") or p.a.get("m")):
                continue
            out += escapes(E, f, fr, r, 0, seen)
    return out


def closures(P, E, C):
    n = 0
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        fr = E.root(f)
        for lam in f.find("lambda"):
            caps = captured_locals(E, lam, f)
            esc = escapes(E, f, fr, lam)
            if not esc:
                continue
            n += 1
            bad = []
            for kind, where in esc:
                level = enclosing(where, "lambda")
                for nm, vid in caps:
                    ol = owner_lambda(f, vid)
                    if kind == "ret":
                        # returned out of the function or lambda owning the local
                        if level is ol:
                            bad.append((nm, where))
                    else:
                        bad.append((nm, where))
            names = sorted(set(b[0] for b in bad))
            C.judge(not bad, "closure-escape", f"{f.q}/{','.join(names)}", lam.loc,
                    f"{f.q}: callback handed out at {esc[0][1].loc} " + (f"refers to the local(s) {', '.join(names)}" if bad else "refers to no local"))
    C.need("closure-escape", 3)


GRAPH_MUT = {"boost::remove_vertex", "boost::clear_vertex", "boost::remove_edge"}
GRAPH_RANGES = {"vertices", "edges", "in_edges", "out_edges", "adjacent_vertices"}


def deref(e):
    y = unwrap(e)
    while y is not None and (y.k == "un" or y.k == "call") and y.a.get("op") == "*" and y.c:
        y = unwrap(y.c[0])
    return y


def graph_iterators(E, f, fr):
    """variable -> (range, graph) of the iterators into boost graphs"""
    out = {}

    def source(e):
        for c in e.walk() if e is not None else ():
            q = c.a.get("q") or ""
            if c.k == "call" and q.startswith("boost::") and short(q) in GRAPH_RANGES and c.c:
                return short(q), E.place(c.c[-1], fr)
        return None
    for n in f.find("bin", "call"):
        if n.a.get("op") == "=" and len(n.c) == 2 and n.c[0] is not None:
            l = unwrap(n.c[0])
            vs = l.c if l is not None and l.k == "call" and short(l.a.get("q") or "") == "tie" else [l]
            src = source(n.c[1])
            for v in map(unwrap, vs):
                if src and v is not None and v.k == "ref":
                    out[v.a.get("id")] = src
    for v in f.find("var"):
        if v.c and v.c[0] is not None and (v.a.get("bind") or is_iter(v.a.get("ty"))):
            src = source(v.c[0])
            if src:
                for _, i in v.a.get("bind") or ((None, v.a.get("id")),):
                    out[i] = src
    return out


# ---- moved-from values and invalidated iterators ----------------------------
class Life(Flow):
    """state: frozenset of ('moved', place, loc) / ('stale', var id, container text, loc)"""

    def __init__(self, E, f):
        super().__init__(E)
        self.f = f
        self.bad = {}
        self.sites = set()
        self.dervars = {}
        info = E.info(f)
        fr = E.root(f)
        self.info = info
        for i, v in info.decl.items():
            if not v.c or v.c[0] is None:
                continue
            t = v.a.get("ty")
            if not (v.a.get("ref") or is_ref_type(t) or is_iter(t)):
                continue
            self.dervars[i] = v
        self.graphvars = graph_iterators(E, f, fr)

    def join(self, a, b):
        return a | b

    def want(self, callee, call, fr):
        return not isinstance(callee, Fn) and len(self.stack) < 3

    def container(self, e, fr):
        """(place, type) of the container an element / iterator expression comes from"""
        y = unwrap(e)
        d = 0
        while y is not None and d < 12:
            d += 1
            if y.k == "call":
                s = short(y.a.get("q") or "")
                if s in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "front", "back", "at", "operator[]", "lower_bound", "upper_bound", "emplace_back", "insert", "emplace", "find_if") or y.a.get("op") == "[]":
                    b = y.c[0] if y.c else None
                    if b is None:
                        return None
                    bt = b.a.get("ty") or ""
                    if is_seq(bt) or is_node(bt):
                        if (s in ("at", "operator[]") or y.a.get("op") == "[]") and not is_seq(bt) and not is_node(bt):
                            return None
                        p = self.E.place(b, fr)
                        return (p, bt) if p is not None else None
                    y = unwrap(b)
                    continue
                if y.a.get("op") in ("*", "->", "+", "-", "++") and y.c:
                    y = unwrap(y.c[0])
                    continue
                if s in ("next", "prev", "find", "find_if", "max_element", "min_element", "get") and y.c:
                    y = unwrap(y.c[0])
                    continue
                return None
            if y.k == "mem" and y.c and y.c[0] is not None:
                # a member of an element
                if y.a.get("ptr"):
                    return None
                y = unwrap(y.c[0])
                continue
            if y.k == "un" and y.a.get("op") == "*" and y.c:
                y = unwrap(y.c[0])
                continue
            if y.k == "sub" and y.c:
                y = unwrap(y.c[0])
                continue
            if y.k == "ref" and y.a.get("id") in self.dervars:
                v = self.dervars[y.a["id"]]
                y = unwrap(v.c[0])
                continue
            return None
        return None

    # kill / gen
    def setp(self, p, st):
        return frozenset(x for x in st if not (x[0] == "moved" and x[1][:len(p)] == p))

    def on_decl(self, v, fr, st):
        i = v.a.get("id")
        st = frozenset(x for x in st if not (x[0] == "stale" and x[1] == i))
        return frozenset(x for x in st if not (x[0] == "moved" and x[1][:2] == ("var", i)))

    def on_assign(self, n, lhs, rhs, fr, st):
        p = self.E.place(lhs, fr)
        if n.a.get("op") == "=" and p is not None:
            st = self.setp(p, st)
        y = unwrap(lhs)
        if y is not None and y.k == "call" and short(y.a.get("q") or "") == "tie":
            ids = {r.a["id"] for r in map(unwrap, y.c) if r is not None and r.k == "ref"}
            st = frozenset(x for x in st if not (x[0] == "stale" and x[1] in ids))
        if y is not None and y.k == "ref" and y.a.get("id") in self.graphvars:
            st = frozenset(x for x in st if not (x[0] == "stale" and x[1] == y.a["id"]))
        if y is not None and y.k == "ref":
            v = self.dervars.get(y.a.get("id"))
            if v is not None and is_iter(v.a.get("ty")):
                st = frozenset(x for x in st if not (x[0] == "stale" and x[1] == y.a["id"]))
        return st

    def is_target(self, n):
        x, p = n, n.p
        while p is not None and (p.k in ("cast",) or (p.k == "mem" and p.c and p.c[0] is x)):
            x, p = p, p.p
        if p is None:
            return False
        if p.k == "bin" and p.a.get("op") == "=" and p.c[0] is x:
            return True
        if p.k == "call" and p.a.get("op") == "=" and p.c and p.c[0] is x:
            return True
        if p.k == "call" and p.a.get("m") and p.c and p.c[0] is x and short(p.a.get("q") or "") in RESET:
            return True
        # handed to an output parameter
        if p.k in ("call", "ctor"):
            pm = p.a.get("pm") or ""
            ch = p.c[1:] if (p.k == "call" and p.a.get("m")) else p.c
            for j, a in enumerate(ch):
                if a is x and j < len(pm) and pm[j] == "r" and "move" not in (p.a.get("q") or "") and "forward" not in (p.a.get("q") or ""):
                    return True
        return False

    def on_node(self, n, fr, st):
        if n.k == "ref" and n.a.get("dk") in ("var", "parm", "binding") and st:
            i = n.a.get("id")
            for x in st:
                if x[0] == "stale" and x[1] == i and not self.is_target(n) and not self.erased_again(n):
                    self.bad[("invalidated", n.a.get("n"))] = (n.loc, f"{n.a.get('n')} is used at {n.loc} after {x[2]} invalidated it at {x[3]}")
                elif x[0] == "moved" and x[1][0] == "var" and x[1][1] == i and len(x[1]) == 3 and not self.is_target(n) and not self.null_test(n):
                    self.bad[("moved-from", n.a.get("n"))] = (n.loc, f"{n.a.get('n')} is read at {n.loc} after it was moved away at {x[2]}")
        elif n.k == "mem" and st:
            p = self.E.place(n, fr)
            if p is not None:
                for x in st:
                    if x[0] == "moved" and len(x[1]) > 3 - (x[1][0] == "this") and p[:len(x[1])] == x[1] and not self.is_target(n) and not self.null_test(n):
                        self.bad[("moved-from", n.a.get("n"))] = (n.loc, f"{n.a.get('n')} is read at {n.loc} after it was moved away at {x[2]}")
        elif n.k == "lambda" and st:
            for c in n.a.get("caps") or ():
                if c.get("id") and not c.get("byref"):
                    for x in st:
                        if x[0] == "moved" and x[1][0] == "var" and x[1][1] == c["id"] and len(x[1]) == 3:
                            self.bad[("moved-from", c.get("n"))] = (n.loc, f"{c.get('n')} is captured at {n.loc} after it was moved away at {x[2]}")
        return st

    def erased_again(self, n):
        return False

    def null_test(self, n):
        p = n.p
        while p is not None and p.k == "cast":
            p = p.p
        if p is None:
            return False
        return (p.k == "call" and short(p.a.get("q") or "") in ("operator bool", "operator_bool")) or (p.k in ("if", "un") and (p.k == "if" or p.a.get("op") == "!")) \
            or (p.k in ("bin", "call") and p.a.get("op") in ("==", "!="))

    def moves(self, n, fr, st):
        if n.a.get("q") != "std::move" or len(n.c) != 1:
            return st
        # only when the value is really taken: by a constructor, an assignment, or a by-value/rvalue parameter
        p, x = n.p, n
        while p is not None and p.k == "cast":
            x, p = p, p.p
        if p is None or p.k in ("blk",):
            return st
        e = unwrap(n.c[0])
        if e is None or e.k not in ("ref", "mem"):
            return st
        t = clean_ty(e.a.get("ty"))
        if t.startswith(PLAIN):
            return st
        if (e.a.get("ty") or "").startswith("const "):
            return st
        pl = self.E.place(e, fr)
        if pl is None or pl[0] not in ("var", "this"):
            return st
        if any(isinstance(q, str) and q.startswith("[") for q in pl):
            return st
        self.sites.add(("moved-from", n.loc))
        return st | {("moved", pl, n.loc)}

    def on_call(self, n, fr, st):
        st2 = self.moves(n, fr, st)
        if st2 is not st:
            return st2
        s = short(n.a.get("q") or "")
        if (n.a.get("q") or "") in GRAPH_MUT and n.c:
            st = self.graph_change(n, s, fr, st)
        if n.a.get("m") and n.c and n.c[0] is not None:
            o = n.c[0]
            t = o.a.get("ty") or ""
            if s in RESET:
                p = self.E.place(o, fr)
                if p is not None:
                    st = self.setp(p, st)
            muts = SEQ_MUT if is_seq(t) else NODE_MUT if is_node(t) else ()
            if s in muts:
                p = self.E.place(o, fr)
                if p is not None:
                    st = self.invalidate(n, s, p, t, fr, st)
        for j, a in enumerate(args_of(n)):
            pm = n.a.get("pm") or ""
            if j < len(pm) and pm[j] == "r" and a is not None and n.a.get("q") not in TRANSPARENT_CALLS:
                p = self.E.place(a, fr)
                if p is not None:
                    st = self.setp(p, st)
        return self.enter(n, fr, st)

    def graph_change(self, n, s, fr, st):
        """vertex and edge iterators of a boost graph after a removal"""
        g = n.c[-1]
        p = self.E.place(g, fr)
        b = base_iter(deref(n.c[0]))
        hit = b.a.get("id") if b is not None and b.k == "ref" else None
        stable = "boost::vecS" not in (g.a.get("ty") or "")
        add = set()
        for i, (kind, gp) in self.graphvars.items():
            if gp != p:
                continue
            if s == "remove_vertex" and kind == "vertices":
                gone = i == hit or not stable
            elif s == "remove_edge":
                gone = kind != "vertices" and (i == hit or not stable)
            else:
                gone = s == "clear_vertex" and kind != "vertices"
            if gone:
                self.sites.add(("invalidated", n.loc))
                add.add(("stale", i, f"{s}()", n.loc))
        return st | frozenset(add)

    def invalidate(self, n, s, p, t, fr, st):
        add = set()
        for i, v in self.dervars.items():
            c = self.container(v.c[0], fr)
            if c is None or c[0] != p:
                continue
            if v.l > n.l and not self.same_loop(v, n):
                continue
            if is_node(t) and s == "erase":
                # only the erased element
                args = args_of(n)
                hit = any((lambda y: y is not None and y.k == "ref" and y.a.get("id") == i)(base_iter(a)) for a in args)
                if not hit:
                    continue
            self.sites.add(("invalidated", n.loc))
            add.add(("stale", i, f"{s}()", n.loc))
        return st | frozenset(add)

    def same_loop(self, v, n):
        la = [a for a in v.ancestors() if a.k in ("for", "while", "do", "rfor")]
        lb = [a for a in n.ancestors() if a.k in ("for", "while", "do", "rfor")]
        return any(a is b for a in la for b in lb)


def flow(P, E, C):
    seen = set()
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        interesting = False
        for n in f.find("call"):
            q = n.a.get("q") or ""
            if q in GRAPH_MUT or q == "std::move" or (n.a.get("m") and short(q) in SEQ_MUT and n.c and n.c[0] is not None and (is_seq(n.c[0].a.get("ty")) or is_node(n.c[0].a.get("ty")))):
                interesting = True
                break
        if not interesting:
            continue
        w = Life(E, f)
        try:
            w.run(f, frozenset())
        except AnalysisError as ex:
            C.note(str(ex))
            continue
        for rule, loc in w.sites:
            if not any(b[0] == rule for b in w.bad):
                C.ok(rule, loc, f"{f.q}: not used afterwards without being set again")
        for (rule, nm), (loc, txt) in w.bad.items():
            C.bad(rule, f"{f.q}/{nm}", loc, f"{f.q}: {txt}")
    C.need("moved-from", 3)


def base_iter(a):
    """the iterator variable handed over (plain, copied or post-incremented)"""
    y = unwrap(a)
    while y is not None and y.k in ("ctor", "il") and len(y.c) == 1:
        y = unwrap(y.c[0])
    return y


def leaves_loop(n, loop):
    """after n control does not return to the loop"""
    x = n
    for a in n.ancestors():
        if a is loop:
            return False
        if a.k == "blk":
            i = next((j for j, c in enumerate(a.c) if c is x), None)
            if i is not None and any(c is not None and c.k in ("break", "ret", "throw") for c in a.c[i + 1:]):
                return True
        if a.k in ("for", "while", "do", "rfor", "lambda"):
            return False
        x = a
    return False


def same_container(E, a, b, p, fr):
    if E.place(a, fr) != p:
        return False
    if "[]" not in p:
        return True
    # elements: only when the index expressions agree
    return text(E, a, fr) == text(E, b, fr)


def text(E, e, fr):
    y = unwrap(e)
    if y is not None and y.k == "call" and y.a.get("op") == "[]" and len(y.c) == 2:
        return f"{text(E, y.c[0], fr)}[{canon(E, y.c[1], fr)}]"
    if y is not None and y.k == "sub":
        return f"{text(E, y.c[0], fr)}[{canon(E, y.c[1], fr)}]"
    return canon(E, y, fr)


def loops(P, E, C):
    n_ = 0
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        fr = E.root(f)
        for lp in f.find("rfor"):
            t = lp.c[1].a.get("ty") or ""
            if not (is_seq(t) or is_node(t)):
                continue
            p = E.place(lp.c[1], fr)
            if p is None or p[0] == "tmp":
                continue
            muts = SEQ_MUT if is_seq(t) else NODE_MUT
            bad = None
            for c in lp.c[2].find("call"):
                if c.a.get("m") and short(c.a.get("q") or "") in muts and c.c and c.c[0] is not None:
                    if same_container(E, c.c[0], lp.c[1], p, fr) and not leaves_loop(c, lp):
                        bad = c
                elif c.a.get("op") == "=" and len(c.c) == 2 and same_container(E, c.c[0], lp.c[1], p, fr) and not leaves_loop(c, lp):
                    bad = c
            n_ += 1
            C.judge(bad is None, "loop-container", f"{f.q}/{place_str(p)}", lp.loc, f"{f.q}: the container of the loop is " + ("not changed by its body" if bad is None else f"restructured at {bad.loc}"))
        # iterator loops
        for lp in f.find("for"):
            if lp.c[0] is None or lp.c[2] is None:
                continue
            its = [v for v in lp.c[0].find("var") if is_iter(v.a.get("ty"))]
            for v in its:
                for c in lp.c[3].find("call") if lp.c[3] is not None else ():
                    if c.a.get("m") and short(c.a.get("q") or "") == "erase" and any((lambda y: y is not None and y.k == "ref" and y.a.get("id") == v.a["id"])(base_iter(a)) for a in args_of(c)):
                        ok = leaves_loop(c, lp)
                        C.judge(ok, "loop-container", f"{f.q}/{v.a.get('n')}", c.loc, f"{f.q}: element of the running iterator erased, loop " + ("left" if ok else "continued"))
    C.need("loop-container", 20)


# ---- temporaries ---------------------------------------------------------------
OWNING = SEQ + NODE + ("std::array<", "std::pair<", "std::tuple<", "std::optional<", "std::basic_ostringstream", "std::basic_stringstream",
                       "dealii::Vector<", "dealii::Point<", "dealii::Tensor<", "dealii::SymmetricTensor<", "dealii::FullMatrix<", "dealii::AlignedVector<",
                       "dealii::LinearAlgebra::distributed::", "dealii::IndexSet", "std::unique_ptr<")
PICK = {"std::min", "std::max", "std::clamp", "std::minmax", "std::get", "std::forward", "std::move", "std::begin", "std::end", "std::data",
        "std::cbegin", "std::cend", "std::as_const", "std::next", "std::prev"}


def temp(n):
    """n denotes an object that ends with the full expression"""
    while n is not None:
        if n.a.get("mt"):
            return True
        if n.k in ("cast", "defarg") and len(n.c) == 1:
            n = n.c[0]
        else:
            return False
    return False


def dies(E, e, refs, d=0):
    """the reference, pointer, iterator or view e points into a temporary:
    the temporary"""
    while e is not None and e.k in ("cast", "defarg") and len(e.c) == 1 and not e.a.get("mt"):
        e = e.c[0]
    if e is None or d > 8:
        return None
    if e.k == "cond":
        return dies(E, e.c[1], refs, d + 1) or dies(E, e.c[2], refs, d + 1)
    if e.k == "ctor" and not e.a.get("mt") and clean_ty(e.a.get("ty") or "").startswith(VIEWS) and len(e.c) >= 1:
        x = e.c[0]
        return inner(E, x, d)
    if e.k == "ctor" and len(e.c) == 1 and e.c[0] is not None and (is_iter(e.a.get("ty") or "")):
        return dies(E, e.c[0], refs, d + 1)
    if e.k == "un" and e.a.get("op") == "&":
        return inner(E, e.c[0], d)
    if e.k == "call":
        q = e.a.get("q") or ""
        if q in PICK:
            for a in args_of(e)[:2] if q not in ("std::next", "std::prev") else args_of(e)[:1]:
                t = dies(E, a, refs, d + 1) if q in ("std::next", "std::prev") else inner(E, a, d)
                if t is not None:
                    return t
            return None
        return holder(E, e, d)
    if e.k in ("mem", "sub"):
        # a member of a temporary bound directly lives on, of a picked one not
        o = e.c[0] if e.c else None
        return dies(E, o, refs, d + 1) if o is not None and not temp(o) else None
    return None


def inner(E, x, d):
    """the temporary in which the object x lies"""
    y = x
    while y is not None:
        if temp(y):
            return y
        while y is not None and y.k in ("cast", "defarg") and len(y.c) == 1:
            y = y.c[0]
        if y is None:
            return None
        if y.k in ("mem", "sub") and y.c:
            if is_ref_type(y.a.get("ty") or "") or (y.k == "mem" and is_ptr_type((y.c[0].a.get("ty") or "") if y.c[0] is not None else "")):
                return None
            y = y.c[0]
            continue
        if y.k == "call":
            return dies(E, y, True, d + 1)
        return None
    return None


def unwrap_keep(n):
    while n.k in ("cast", "defarg") and len(n.c) == 1:
        n = n.c[0]
    return n


GIVES = {"c_str", "data", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "front", "back", "find", "lower_bound", "upper_bound", "value", "get",
         "operator[]", "operator*", "operator->", "operator()", "operator basic_string_view"}


def holder(E, e, d):
    """e is a call on an object: does it hand out a part of a temporary?"""
    if not (e.a.get("m") or e.a.get("op") in ("[]", "()", "*", "->")) or not e.c:
        return None
    o = e.c[0]
    t = inner(E, o, d)
    if t is None:
        return None
    ty = clean_ty(unwrap_keep(o).a.get("ty") or "")
    q = e.a.get("q") or ""
    ts = E.P.targets(e)
    if ts:
        for f in ts:
            if not is_ref_type((f.rty or "").strip()) and not (f.rty or "").strip().endswith("*") and not is_iter(f.rty or ""):
                return None
            fr = E.root(f)
            for r in f.find("ret"):
                if not r.c or enclosing(r, "lambda") is not None:
                    continue
                p = E.place(r.c[0], fr)
                if p is None or p[0] != "this" or len(p) < 2 or any(x in ("*", "->") for x in p if isinstance(x, str)):
                    return None
                for rec in E.P.rec_by_id.get(f.clsid, ()):
                    for fd in rec.fields:
                        if "." + fd["n"] == p[1] and (is_ref_type(fd["ty"]) or is_ptr_type(fd["ty"]) or "shared_ptr" in fd["ty"]):
                            return None
        return t
    if ty.startswith(OWNING) and (short(q) in GIVES or e.a.get("op") in ("[]", "()", "*", "->")):
        return t
    return None


def dangling_type(t):
    t = t or ""
    return is_ptr_type(t) or is_iter(t) or clean_ty(t).startswith(VIEWS)


def temporaries(P, E, C):
    for f in P.fns:
        if f.dep or f.body is None:
            continue
        rt = (f.rty or "").strip()
        for n in f.find("var", "rfor", "ret", "bin", "call"):
            if n.k == "var":
                if not n.c or n.c[0] is None or not (n.a.get("ref") or dangling_type(n.a.get("ty"))):
                    continue
                e, nm, what = n.c[0], n.a.get("n"), "variable"
            elif n.k == "rfor":
                e, nm, what = n.c[1], "range", "loop"
            elif n.k == "ret":
                if not n.c or n.c[0] is None or enclosing(n, "lambda") is not None or not (is_ref_type(rt) or dangling_type(rt)):
                    continue
                e, nm, what = n.c[0], "result", "result"
                if temp(e) and is_ref_type(rt):
                    C.bad("temporary", f"{f.q}/{nm}", n.loc, f"{f.q}: the returned reference denotes a temporary that ends with the statement")
                    continue
            elif n.a.get("op") == "=" and len(n.c) == 2 and n.c[0] is not None and n.c[1] is not None:
                l = unwrap(n.c[0])
                if l is None or not dangling_type(l.a.get("ty")):
                    continue
                e, nm, what = n.c[1], l.a.get("n") or "place", "variable"
            else:
                continue
            t = dies(E, e, True)
            C.judge(t is None, "temporary", f"{f.q}/{nm}", n.loc, f"{f.q}: {what} {nm} " + ("does not outlive what it refers to" if t is None else "refers to a temporary that ends with the statement"))
    C.need("temporary", 100)


def run(P, E, C):
    ret_local(P, E, C)
    temporaries(P, E, C)
    closures(P, E, C)
    flow(P, E, C)
    loops(P, E, C)
