"""Structured, interprocedural forward dataflow over the fact trees.

* Frame      one activation (function or lambda) with its argument binding
* Engine     canonical places / origins / callee resolution
* Flow       abstract interpreter: a client supplies the lattice and the
             transfer functions, loops are iterated to a fixpoint, break /
             continue / return / throw leave through separate channels
"""
import sys
from model import *

sys.setrecursionlimit(20000)

SMART = ("std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "std::weak_ptr")
ASSIGN_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def is_ref_type(ty):
    return ty is not None and ty.rstrip().endswith("&")


def is_ptr_type(ty):
    ty = (ty or "").replace("const ", "").strip()
    return ty.endswith("*") or ty.endswith("*const") or ty.startswith(SMART)


class Frame:
    __slots__ = ("fn", "args", "this", "parent", "lex", "uid", "call", "own", "depth", "body")

    def __init__(self, fn, parent=None, call=None, args=None, this=None, lex=None, body=None, own=None):
        self.fn = fn
        self.parent = parent
        self.call = call
        self.args = args or {}
        self.this = this if this is not None else ("this",)
        self.lex = lex
        self.body = body
        self.own = own
        self.uid = (parent.uid + ((call.f, call.l, id(call)),)) if parent is not None and call is not None else (fn.id if hasattr(fn, "id") else "",)
        self.depth = parent.depth + 1 if parent is not None else 0

    def stack(self):
        f, out = self, []
        while f is not None:
            if f.call is not None:
                out.append(f.call.loc)
            f = f.parent
        return out


class FnInfo:
    """per function: declared variables, definitions"""

    def __init__(self, fn_or_lambda):
        self.decl = {}          # id -> var node
        self.writes = {}        # id -> list of nodes writing the variable (other than its init)
        self.binds = {}
        self.rfor = {}          # loop variable id -> rfor node
        roots = fn_or_lambda.roots() if isinstance(fn_or_lambda, Fn) else fn_or_lambda.c
        for r in roots:
            for n in r.walk():
                k = n.k
                if k == "var":
                    self.decl[n.a["id"]] = n
                    for nm, bid in n.a.get("bind") or ():
                        self.binds[bid] = n
                elif k == "rfor":
                    self.rfor[n.c[0].a["id"]] = n
                    for nm, bid in n.c[0].a.get("bind") or ():
                        self.rfor[bid] = n
                elif k == "bin" and n.a.get("op") in ASSIGN_OPS:
                    self._w(n.c[0], n)
                elif k == "un" and n.a.get("op") in ("++", "--", "&"):
                    self._w(n.c[0], n)
                elif k == "call" or k == "ctor":
                    pm = n.a.get("pm") or ""
                    ch = n.c
                    if k == "call" and n.a.get("m"):
                        if not n.a.get("const") and not n.a.get("static") and ch:
                            self._w(ch[0], n)
                        ch = ch[1:]
                    for i, x in enumerate(ch):
                        if i < len(pm) and pm[i] in "rp":
                            self._w(x, n)
                        elif n.a.get("dep") and i >= len(pm):
                            self._w(x, n)

    def _w(self, x, n):
        x = unwrap(x)
        while x is not None and x.k in ("sub", "mem", "cast"):
            x = x.c[0] if x.c else None
        if x is not None and x.k == "ref":
            self.writes.setdefault(x.a.get("id"), []).append(n)


class Engine:
    def __init__(self, prog):
        self.P = prog
        self._info = {}
        self._getter = {}
        self._field_lams = None
        self._rel = {}

    def info(self, fn):
        k = id(fn)
        r = self._info.get(k)
        if r is None:
            r = self._info[k] = FnInfo(fn)
        return r

    # ---- frames ------------------------------------------------------
    def root(self, fn):
        return Frame(fn)

    def owner(self, fr, vid):
        """frame declaring variable vid"""
        f = fr
        while f is not None and f.lex is not None:
            if f.own is not None and vid in f.own:
                return f
            f = f.lex
        return f if f is not None else fr

    def inline_frame(self, callee, call, frame):
        if isinstance(callee, Fn):
            args = {}
            a = args_of(call) if call.k == "call" else call.c
            if call.k == "call" and call.a.get("m") and call.a.get("static"):
                a = call.c[1:]
            for (nm, pid, ty), x in zip(callee.params, a):
                args[pid] = (x, frame, ty)
            this = None
            if call.k == "call" and call.a.get("m"):
                o = obj_of(call)
                this = self.place(o, frame) if o is not None else frame.this
            elif call.k == "ctor":
                this = frame.this if call.a.get("_sub") else ("tmp", id(call))
            return Frame(callee, frame, call, args, this or ("?", id(call)))
        lam, lex = callee
        args = {}
        a = args_of(call) if (call.k == "call" and call.a.get("m")) else call.c
        if call.k == "call" and call.a.get("ind"):
            a = call.c[1:]
        if not getattr(call, "hof", False):
            for (nm, pid, ty), x in zip(lam.a.get("params") or (), a):
                args[pid] = (x, frame, ty)
        own = self.lam_own(lam)
        return Frame(lex.fn if lex else frame.fn, frame, call, args, lex.this if lex else ("this",), lex, lam, own)

    def lam_own(self, lam):
        o = lam.a.get("_own")
        if o is None:
            o = set(p[1] for p in lam.a.get("params") or ())
            for c in lam.a.get("caps") or ():
                if c.get("init") is not None:
                    o.add(c["id"])
            for n in lam.c[0].walk() if lam.c and lam.c[0] is not None else ():
                if n.k == "var":
                    o.add(n.a["id"])
                    for _, b in n.a.get("bind") or ():
                        o.add(b)
                elif n.k == "lambda":
                    for p in n.a.get("params") or ():
                        o.add(p[1])
            lam.a["_own"] = o
        return o

    # ---- places --------------------------------------------------------
    def place(self, n, fr, depth=0):
        """canonical access path of an lvalue expression, or None"""
        if n is None:
            return fr.this
        if depth > 60:
            return None
        d = depth + 1
        k = n.k
        if k == "this":
            return fr.this
        if k in ("cast", "defarg"):
            return self.place(n.c[0], fr, d) if n.c else None
        if k == "ref":
            dk = n.a.get("dk")
            i = n.a.get("id")
            if dk == "gvar":
                return ("glob", n.a.get("q"))
            if dk in ("var", "binding", "parm"):
                own = self.owner(fr, i)
                if i in own.args:
                    x, cf, ty = own.args[i]
                    if is_ref_type(ty) or is_ptr_type(ty):
                        p = self.place(x, cf, d)
                        if p is not None:
                            return p
                    return ("var", i, own.uid)
                info = self.info(own.body if own.body is not None else own.fn)
                v = info.decl.get(i)
                if i in info.rfor and (v is None or is_ref_type(v.a.get("ty")) or is_ptr_type(v.a.get("ty"))):
                    rf = info.rfor[i]
                    p = self.place(rf.c[1], own, d)
                    if p is not None:
                        if i != rf.c[0].a["id"]:
                            return p + ("[]", "#" + n.a.get("n", ""))
                        return p + ("[]",)
                if dk == "binding" and i in info.binds:
                    b = info.binds[i]
                    p = self.place(b.c[0], own, d) if b.c else None
                    if p is not None:
                        return p + ("#" + n.a.get("n", ""),)
                if v is not None and v.c and v.c[0] is not None:
                    ty = v.a.get("ty")
                    if v.a.get("ref") or (is_ptr_type(ty) and i not in info.writes):
                        p = self.place(v.c[0], own, d)
                        if p is not None:
                            return p
                return ("var", i, own.uid)
            return None
        if k == "mem":
            b = n.c[0] if n.c else None
            p = self.place(b, fr, d)
            if p is None:
                return None
            return p + ("." + n.a.get("n", "?"),)
        if k == "sub":
            p = self.place(n.c[0], fr, d)
            if p is None:
                return None
            lv = literal(n.c[1])
            return p + ("[]" if lv is None else f"[{lv}]",)
        if k == "un" and n.a.get("op") in ("*", "&"):
            return self.place(n.c[0], fr, d)
        if k == "new":
            return ("tmp", id(n))
        if k == "ctor":
            if len(n.c) >= 1 and (n.a.get("copy") or (n.a.get("q") or "").startswith(SMART)):
                return self.place(n.c[0], fr, d)
            return ("tmp", id(n))
        if k == "il" and len(n.c) == 1:
            return self.place(n.c[0], fr, d)
        if k == "call":
            q = n.a.get("q") or ""
            s = short(q)
            if q in TRANSPARENT_CALLS and n.c:
                return self.place(n.c[0], fr, d)
            if q in ("std::get",) and n.c:
                p = self.place(n.c[0], fr, d)
                return p + ("<" + (n.a.get("targs") or "").split(",")[0] + ">",) if p else None
            if n.a.get("op") in ("*", "->") and len(n.c) == 1:
                t = self.P.targets(n)
                if not t:
                    p = self.place(n.c[0], fr, d)
                    return p
            if s in ("get", "operator->", "operator*") and n.a.get("m") and len(n.c) == 1:
                return self.place(n.c[0], fr, d)
            g = self.getter(n)
            if g is not None:
                fn, ret = g
                nf = self.inline_frame(fn, n, fr)
                if nf.depth < 40:
                    return self.place(ret, nf, d)
                return None
            if n.a.get("m") or n.a.get("opc"):
                if s in ("operator[]", "operator()", "at", "block") and n.c:
                    p = self.place(n.c[0], fr, d)
                    if p is None:
                        return None
                    lv = literal(n.c[1]) if len(n.c) > 1 else None
                    return p + ("[]" if lv is None else f"[{lv}]",)
                if s in ("front", "back", "begin", "end", "rbegin", "data", "value", "find") and n.c:
                    p = self.place(n.c[0], fr, d)
                    return p + ("[]",) if p else None
            if is_ref_type(n.a.get("ty")) and n.a.get("m") and n.c:
                p = self.place(n.c[0], fr, d)
                return p + ("." + s + "()",) if p else None
            return ("tmp", id(n))
        return None

    def getter(self, call):
        """(fn, returned expression) when the call has one target whose body is
        a single return of a place"""
        t = self.P.targets(call)
        if len(set(f.id for f in t)) != 1:
            return None
        f = t[0]
        r = self._getter.get(f.id)
        if r is None:
            r = False
            b = f.body
            st = [x for x in b.c if x is not None and x.k != "null"]
            if len(st) == 1 and st[0].k == "ret" and st[0].c and (is_ref_type(f.rty) or is_ptr_type(f.rty)):
                r = (f, st[0].c[0])
            self._getter[f.id] = r
        return r or None

    # ---- values ----------------------------------------------------------
    def origin(self, n, fr, depth=0):
        """(node, frame) defining a value: follows single-definition locals,
        by-value parameters, casts and trivial value getters"""
        if depth > 40 or n is None:
            return n, fr
        m = unwrap(n)
        if m is None:
            return n, fr
        n = m
        if n.k == "ref" and n.a.get("dk") in ("var", "parm", "binding"):
            i = n.a["id"]
            own = self.owner(fr, i)
            info = self.info(own.body if own.body is not None else own.fn)
            if i in own.args and i not in info.writes:
                x, cf, ty = own.args[i]
                return self.origin(x, cf, depth + 1)
            v = info.decl.get(i)
            if v is not None and i not in info.writes and i not in info.rfor and v.c and v.c[0] is not None and not v.a.get("bind"):
                return self.origin(v.c[0], own, depth + 1)
            return n, fr
        if n.k == "call":
            t = self.P.targets(n)
            if t and len(set(f.id for f in t)) == 1:
                f = t[0]
                st = [x for x in f.body.c if x is not None and x.k != "null"]
                if len(st) == 1 and st[0].k == "ret" and st[0].c:
                    nf = self.inline_frame(f, n, fr)
                    if nf.depth < 30:
                        return self.origin(st[0].c[0], nf, depth + 1)
        return n, fr

    # ---- callables ---------------------------------------------------------
    def field_lambdas(self):
        """field id -> lambdas stored in it anywhere in the program"""
        if self._field_lams is None:
            m = {}
            for f in self.P.fns:
                for n in f.walk():
                    if n.k == "call" and n.a.get("op") == "=" and len(n.c) == 2:
                        l, r = n.c
                    elif n.k == "bin" and n.a.get("op") == "=":
                        l, r = n.c
                    else:
                        continue
                    l = unwrap(l)
                    r = self.strip_fun(r)
                    if l is not None and l.k == "mem" and r is not None and r.k == "lambda":
                        m.setdefault(l.a["id"], []).append((r, f))
                for i in f.inits:
                    if i.get("id") and i.get("e") is not None:
                        r = self.strip_fun(i["e"])
                        if r is not None and r.k == "lambda":
                            m.setdefault(i["id"], []).append((r, f))
            self._field_lams = m
        return self._field_lams

    @staticmethod
    def strip_fun(n):
        n = unwrap(n)
        while n is not None and n.k == "ctor" and (n.a.get("q") or "").startswith("std::function") and n.c:
            n = unwrap(n.c[0])
        return n

    def callable(self, e, fr, depth=0):
        """list of (lambda node, lexical frame) / Fn an expression may denote"""
        e = self.strip_fun(e)
        if e is None or depth > 20:
            return []
        if e.k == "lambda":
            return [(e, fr)]
        if e.k == "un" and e.a.get("op") in ("*", "&"):
            return self.callable(e.c[0], fr, depth + 1)
        if e.k == "ref":
            if e.a.get("dk") == "func":
                return list(self.P.by_id.get(e.a.get("id"), ()))
            i = e.a.get("id")
            own = self.owner(fr, i)
            if i in own.args:
                x, cf, ty = own.args[i]
                return self.callable(x, cf, depth + 1)
            info = self.info(own.body if own.body is not None else own.fn)
            v = info.decl.get(i)
            out = []
            if v is not None and v.c and v.c[0] is not None:
                out += self.callable(v.c[0], own, depth + 1)
            for w in info.writes.get(i, ()):
                if (w.k == "call" and w.a.get("op") == "=") or (w.k == "bin" and w.a.get("op") == "="):
                    if len(w.c) == 2:
                        out += self.callable(w.c[1], own, depth + 1)
            return out
        if e.k == "mem":
            p = self.place(e, fr)
            return [(l, Frame(f)) for l, f in self.field_lambdas().get(e.a.get("id"), ())]
        if e.k == "cond":
            return self.callable(e.c[1], fr, depth + 1) + self.callable(e.c[2], fr, depth + 1)
        return []

    def callees(self, call, fr):
        """repo definitions a call / construction may run"""
        if call.k == "ctor":
            return list(self.P.by_id.get(call.a.get("id"), ()))
        t = self.pick(call, fr)
        if t:
            return t
        s = short(call.a.get("q") or "")
        if s in ("operator()", "<indirect>") or call.a.get("op") == "()":
            return self.callable(call.c[0], fr) if call.c else []
        return []

    def pick(self, call, fr):
        t = self.P.targets(call)
        if len(t) <= 1:
            return t
        ids = {}
        for f in t:
            ids.setdefault(f.id, []).append(f)
        out = []
        for i, v in ids.items():
            if len(v) == 1:
                out += v
                continue
            ta = call.a.get("targs")
            w = [f for f in v if f.targs == ta] if ta else []
            if not w:
                w = v
            w2 = [f for f in w if f.tu == fr.fn.tu] or w
            w3 = [f for f in w2 if f.cargs and f.cargs == fr.fn.cargs] or w2
            out += w3
        return out

    # ---- relevance --------------------------------------------------------
    def relevance(self, name, pred):
        """ids of functions that transitively contain a node with pred(node)"""
        if name in self._rel:
            return self._rel[name]
        direct, edges = set(), {}
        for f in self.P.fns:
            e = edges.setdefault(f.id, set())
            for n in f.walk():
                if pred(n):
                    direct.add(f.id)
                if n.k in ("call", "ctor") and n.a.get("id"):
                    e.add(n.a["id"])
                    if n.a.get("virt"):
                        e |= self.P.all_overriders(n.a["id"])
        rev = {}
        for a, s in edges.items():
            for b in s:
                rev.setdefault(b, set()).add(a)
        out, st = set(direct), list(direct)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        self._rel[name] = out
        return out


class Flow:
    """abstract interpreter; subclass and override the hooks"""
    max_iter = 12
    max_depth = 25

    def __init__(self, eng):
        self.E = eng
        self.P = eng.P
        self.stack = []
        self.brk, self.cnt, self.ret, self.exc = [], [], [], []
        self.nodes = 0

    # -- hooks ------------------------------------------------------------
    def join(self, a, b):
        raise NotImplementedError

    def on_call(self, n, fr, st):
        """return NotImplemented to let the engine inline / skip the call"""
        return NotImplemented

    def on_ctor(self, n, fr, st):
        return NotImplemented

    def on_assign(self, n, lhs, rhs, fr, st):
        return st

    def on_incdec(self, n, fr, st):
        return st

    def on_decl(self, v, fr, st):
        return st

    def on_cond(self, n, truth, fr, st):
        return st

    def on_return(self, n, fr, st):
        return st

    def on_throw(self, ty, n, fr, st):
        return st

    def on_node(self, n, fr, st):
        return st

    def on_scope_exit(self, blk, fr, st):
        return st

    def on_loop(self, n, fr, st):
        return st

    def throws(self, n, fr):
        """exception types an un-inlined call may raise"""
        return ()

    def want(self, callee, call, fr):
        return True

    # -- join with bottom ----------------------------------------------------
    def j(self, *xs):
        r = None
        for x in xs:
            if x is None:
                continue
            r = x if r is None else self.join(r, x)
        return r

    # -- functions ---------------------------------------------------------------
    def run(self, fn, st, frame=None):
        fr = frame or self.E.root(fn)
        self.exc.append([])
        out = self.body(fn, fr, st)
        exc = self.exc.pop()
        return out, exc

    def body(self, callee, fr, st):
        self.ret.append([])
        sb, sc = self.brk, self.cnt
        self.brk, self.cnt = [], []
        if isinstance(callee, Fn):
            for i in callee.inits:
                if st is not None and i.get("e") is not None:
                    if i["e"].k == "ctor" and not i.get("id"):
                        i["e"].a["_sub"] = True  # base class or delegation
                    st = self.ev(i["e"], fr, st)
                    if st is not None:
                        st = self.on_init(i, fr, st)
            out = self.ex(callee.body, fr, st) if st is not None else None
        else:
            out = self.ex(callee[0].c[0], fr, st)
        self.brk, self.cnt = sb, sc
        r = self.ret.pop()
        return self.j(out, *r)

    def on_init(self, i, fr, st):
        return st

    # -- statements --------------------------------------------------------------
    def ex(self, n, fr, st):
        if n is None or st is None:
            return st
        k = n.k
        self.nodes += 1
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, fr, st)
        return self.ev(n, fr, st)

    def s_blk(self, n, fr, st):
        for c in n.c:
            if st is None:
                return None
            st = self.ex(c, fr, st)
        if st is not None:
            st = self.on_scope_exit(n, fr, st)
        return st

    def s_decl(self, n, fr, st):
        for v in n.c:
            if st is None:
                return None
            if v.c and v.c[0] is not None:
                st = self.ev(v.c[0], fr, st)
            if st is not None:
                st = self.on_decl(v, fr, st)
        return st

    def s_if(self, n, fr, st):
        if n.c[0] is not None:
            st = self.ex(n.c[0], fr, st)
            if st is None:
                return None
        t, f = self.cond(n.c[1], fr, st)
        a = self.ex(n.c[2], fr, t) if t is not None else None
        b = self.ex(n.c[3], fr, f) if f is not None else None
        return self.j(a, b)

    def _loop(self, n, head, fr, st, do=False):
        """head(st) -> (enter, leave); fixpoint over the loop body"""
        raise NotImplementedError

    def loop(self, n, cond, body, inc, fr, st, post=False):
        st = self.on_loop(n, fr, st)
        outs = []
        cur = st
        first = True
        for it in range(self.max_iter):
            self.brk.append([])
            self.cnt.append([])
            if post and first:
                t, f = cur, None
            elif cond is not None:
                t, f = self.cond(cond, fr, cur)
            else:
                t, f = cur, (None if n.k == "for" else cur)
            b = self.ex(body, fr, t) if t is not None else None
            b = self.j(b, *self.cnt.pop())
            bk = self.brk.pop()
            if b is not None and inc is not None:
                b = self.ev(inc, fr, b)
            leave = self.j(f, *bk)
            if post:
                nxt = b
                if first:
                    outs = [leave]
                    first = False
                    if nxt is None:
                        return self.j(*outs)
                    # afterwards behaves like a while loop from nxt
                    cur = nxt
                    continue
            outs.append(leave)
            nc = self.j(cur, b)
            if nc == cur:
                break
            cur = nc
        else:
            raise AnalysisError(f"no fixpoint at {n.loc}")
        return self.j(*outs)

    def s_for(self, n, fr, st):
        if n.c[0] is not None:
            st = self.ex(n.c[0], fr, st)
        if st is None:
            return None
        return self.loop(n, n.c[1], n.c[3], n.c[2], fr, st)

    def s_while(self, n, fr, st):
        c = n.c[0]
        return self.loop(n, c, n.c[1], None, fr, st)

    def s_do(self, n, fr, st):
        return self.loop(n, n.c[1], n.c[0], None, fr, st, post=True)

    def s_rfor(self, n, fr, st):
        st = self.ev(n.c[1], fr, st)
        if st is None:
            return None
        st = self.on_decl(n.c[0], fr, st)
        return self.loop(n, None, n.c[2], None, fr, st)

    def s_switch(self, n, fr, st):
        st = self.ev(n.c[0], fr, st)
        if st is None:
            return None
        self.brk.append([])
        body = n.c[1]
        items = body.c if body is not None and body.k == "blk" else [body]
        cur, has_def = None, False
        for it in items:
            x = it
            while x is not None and x.k in ("case", "default"):
                if x.k == "default":
                    has_def = True
                    cur = self.j(cur, self.on_case(n, None, fr, st))
                    x = x.c[0]
                else:
                    cur = self.j(cur, self.on_case(n, x.c[0], fr, st))
                    x = x.c[1]
            cur = self.ex(x, fr, cur) if cur is not None else None
        b = self.brk.pop()
        return self.j(cur, *b, None if has_def else st)

    def on_case(self, sw, label, fr, st):
        return st

    def s_break(self, n, fr, st):
        if self.brk:
            self.brk[-1].append(st)
        return None

    def s_cont(self, n, fr, st):
        if self.cnt:
            self.cnt[-1].append(st)
        return None

    def s_ret(self, n, fr, st):
        if n.c and n.c[0] is not None:
            st = self.ev(n.c[0], fr, st)
            if st is None:
                return None
        st = self.on_return(n, fr, st)
        if st is not None:
            self.ret[-1].append(st)
        return None

    def s_try(self, n, fr, st):
        self.exc.append([])
        out = self.ex(n.c[0], fr, st)
        exc = self.exc.pop()
        for h in n.c[1:]:
            hin, rest = None, []
            for ty, s in exc:
                if self.catches(h.a.get("ty"), ty):
                    hin = self.j(hin, s)
                    if ty in ("?",) and h.a.get("ty") != "...":
                        rest.append((ty, s))
                else:
                    rest.append((ty, s))
            exc = rest
            if hin is not None:
                hin = self.on_catch(h, fr, hin)
                o = self.ex(h.c[0], fr, hin)
                out = self.j(out, o)
        for e in exc:
            self.raise_(*e)
        return out

    def on_catch(self, h, fr, st):
        return st

    def catches(self, hty, ty):
        if hty == "...":
            return True
        if ty == "?":
            return True
        h = (hty or "").replace("const ", "").replace("&", "").strip()
        t = (ty or "").replace("const ", "").replace("&", "").strip()
        return h == t or self.derived(t, h)

    def derived(self, t, h):
        return h in ("std::exception", "dealii::ExceptionBase") and t not in ("int",)

    def raise_(self, ty, st):
        if st is None:
            return
        if not self.exc:
            return
        l = self.exc[-1]
        for i, (t, s) in enumerate(l):
            if t == ty:
                l[i] = (t, self.join(s, st))
                return
        l.append((ty, st))

    def s_null(self, n, fr, st):
        return st

    # -- conditions ------------------------------------------------------------
    def cond(self, n, fr, st):
        if n is None:
            return st, None
        if n.k == "decl":
            st = self.s_decl(n, fr, st)
            return st, st
        m = n
        while (m.k == "cast" and len(m.c) == 1) or (m.k == "call" and m.a.get("q") == "__builtin_expect" and m.c):
            m = m.c[0]
        if m.k == "bin" and m.a.get("op") == "&&":
            t1, f1 = self.cond(m.c[0], fr, st)
            if t1 is None:
                return None, f1
            t2, f2 = self.cond(m.c[1], fr, t1)
            return t2, self.j(f1, f2)
        if m.k == "bin" and m.a.get("op") == "||":
            t1, f1 = self.cond(m.c[0], fr, st)
            if f1 is None:
                return t1, None
            t2, f2 = self.cond(m.c[1], fr, f1)
            return self.j(t1, t2), f2
        if m.k == "un" and m.a.get("op") == "!":
            t, f = self.cond(m.c[0], fr, st)
            return f, t
        if m.k == "lit" and m.a.get("lt") == "bool":
            return (st, None) if m.a["v"] == "true" else (None, st)
        st = self.ev(m, fr, st)
        if st is None:
            return None, None
        return self.on_cond(m, True, fr, st), self.on_cond(m, False, fr, st)

    # -- expressions -------------------------------------------------------------
    def ev(self, n, fr, st):
        if n is None or st is None:
            return st
        k = n.k
        if k in ("ref", "lit", "this", "lambda", "sizeof", "zero"):
            return self.on_node(n, fr, st)
        if k == "bin":
            op = n.a.get("op")
            if op == "||" and (n.mac or "").split(",")[-1].startswith("MPI_"):
                # logging wrapper of an MPI call: log || call
                for c in n.c:
                    st = self.ev(c, fr, st)
                return st
            if op in ("&&", "||"):
                t, f = self.cond(n, fr, st)
                return self.j(t, f)
            if op in ASSIGN_OPS:
                st = self.ev(n.c[1], fr, st)
                st = self.ev(n.c[0], fr, st)
                if st is None:
                    return None
                return self.on_assign(n, n.c[0], n.c[1], fr, st)
        elif k == "cond":
            t, f = self.cond(n.c[0], fr, st)
            a = self.ev(n.c[1], fr, t) if t is not None else None
            b = self.ev(n.c[2], fr, f) if f is not None else None
            return self.j(a, b)
        elif k == "un" and n.a.get("op") in ("++", "--"):
            st = self.ev(n.c[0], fr, st)
            return self.on_incdec(n, fr, st) if st is not None else None
        elif k == "throw":
            for c in n.c:
                st = self.ev(c, fr, st)
            if st is not None:
                st = self.on_throw(n.a.get("ty"), n, fr, st)
                self.raise_(n.a.get("ty"), st)
            return None
        elif k == "call":
            return self.call(n, fr, st)
        elif k == "ctor":
            for c in n.c:
                st = self.ev(c, fr, st)
                if st is None:
                    return None
            r = self.on_ctor(n, fr, st)
            if r is not NotImplemented:
                return r
            return self.enter(n, fr, st)
        elif k in ("decl", "var", "blk", "if", "for", "rfor", "while", "do", "switch", "try", "ret", "break", "cont", "case", "default"):
            return self.ex(n, fr, st)
        for c in n.c:
            st = self.ev(c, fr, st)
            if st is None:
                return None
        return self.on_node(n, fr, st)

    NORETURN = {"abort", "exit", "std::abort", "std::exit", "std::terminate", "MPI_Abort", "_exit"}

    def call(self, n, fr, st):
        q = n.a.get("q") or ""
        if q.endswith("issue_error_noreturn"):
            ty = "?"
            for x in n.c:
                y = unwrap(x)
                if y is not None and y.k in ("ctor",):
                    ty = y.a.get("ty") or y.a.get("q")
                elif y is not None and y.k == "call":
                    ty = y.a.get("ty")
            st = self.on_throw(ty, n, fr, st)
            self.raise_(ty, st)
            return None
        for c in n.c:
            if c is not None and c.k == "lambda":
                continue
            st = self.ev(c, fr, st)
            if st is None:
                return None
        if q in self.NORETURN:
            return None
        if n.a.get("op") in ASSIGN_OPS and len(n.c) == 2:
            r = self.on_assign(n, n.c[0], n.c[1], fr, st)
            if r is not None and r is not st:
                return r
        r = self.on_call(n, fr, st)
        if r is not NotImplemented:
            return r
        return self.enter(n, fr, st)

    def enter(self, n, fr, st):
        cal = self.E.callees(n, fr)
        outs, skipped = [], not cal
        for c in cal:
            key = c.id if isinstance(c, Fn) else "L" + c[0].a["id"]
            if not self.want(c, n, fr) or key in self.stack or len(self.stack) > self.max_depth:
                skipped = True
                continue
            nf = self.E.inline_frame(c, n, fr)
            self.stack.append(key)
            outs.append(self.body(c, nf, st))
            self.stack.pop()
        if cal and not skipped:
            return self.j(*outs)
        # un-inlined call: callbacks may run any number of times
        cur = st
        if not outs:
            lams = []
            for x in n.c:
                if x is None:
                    continue
                y = Engine.strip_fun(x)
                if y is not None and (y.k == "lambda" or (y.k == "ref" and ("lambda@" in (y.a.get("ty") or "") or (y.a.get("ty") or "").startswith(("std::function", "const std::function"))))):
                    if n.k == "call" and n.c and x is n.c[0] and n.a.get("m"):
                        continue
                    lams += self.E.callable(y, fr)
            for _ in range(2 if lams else 0):
                for c in lams:
                    key = c.id if isinstance(c, Fn) else "L" + c[0].a["id"]
                    if key in self.stack or not self.want(c, n, fr):
                        continue
                    nf = self.E.inline_frame(c, n, fr)
                    if not isinstance(c, Fn):
                        nf.args = {}
                    self.stack.append(key)
                    cur = self.j(cur, self.body(c, nf, cur))
                    self.stack.pop()
        for ty in self.throws(n, fr):
            self.raise_(ty, cur)
        return self.j(cur, *outs)
