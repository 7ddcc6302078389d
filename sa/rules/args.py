"""Positional arguments and member initialisers carrying the names of other
parameters.

run   X01: where the arguments of a call (or the initialisers of members) are
      named like the parameters (members) they could go to, they are not
      permuted.
"""
from canon import *
from util import *
import re


def norm(s):
    s = (s or "").lower()
    s = re.sub(r"^(get_|m_|new_|my_)", "", s)
    s = re.sub(r"(_in|_|_ptr)$", "", s)
    return s.replace("_", "")


def name_of(e):
    y = unwrap(e) if e is not None else None
    d = 0
    while y is not None and d < 6:
        d += 1
        if y.k == "ref":
            return y.a.get("n")
        if y.k == "mem":
            return y.a.get("n")
        if y.k == "call" and y.a.get("q") in ("std::move", "std::forward", "std::ref", "std::cref") and y.c:
            y = unwrap(y.c[0])
            continue
        if y.k == "call" and y.a.get("m") and len(y.c) == 1 and not y.a.get("op"):
            return short(y.a.get("q") or "")
        if y.k in ("ctor", "cast", "il") and len(y.c) == 1:
            y = unwrap(y.c[0])
            continue
        if y.k == "un" and y.a.get("op") in ("*", "&") and y.c:
            y = unwrap(y.c[0])
            continue
        return None
    return None


def cycle(args, params):
    """positions whose arguments are permuted with respect to the names"""
    idx = {}
    for j, p in enumerate(params):
        if p:
            idx.setdefault(p, j)
    s = {i: idx[a] for i, a in enumerate(args) if a and a in idx and i < len(params)}
    for i in s:
        if s[i] == i:
            continue
        seen, k = [i], s[i]
        while k in s and k not in seen:
            seen.append(k)
            k = s[k]
        if k == i and len(seen) > 1:
            return seen
    return None


def plain(ty):
    return clean_ty((ty or "").removeprefix("dep:")).replace("&&", "").strip()


def run(P, E, C):
    seen = set()
    for f in P.fns:
        if f.body is None:
            continue
        if f.isctor:
            inits(f, C, seen)
        for n in f.walk():
            if n.k not in ("call", "ctor"):
                continue
            for t in P.targets(n)[:3]:
                if not t.params or len(t.params) < 2:
                    continue
                a = args_of(n) if n.k == "call" else n.c
                if n.k == "call" and n.a.get("m") and n.a.get("static"):
                    a = n.c[1:]
                key = (n.loc, t.q, f.q)
                judge(C, f, n, t.q, [norm(name_of(x)) for x in a], t.params, seen, key)
            q = n.a.get("q") or ""
            if n.k == "call" and q in ("std::make_shared", "std::make_unique"):
                made = (n.a.get("targs") or "").split("<")[0].split(",")[0]
                for t in ctors(P).get(made, ()):
                    if len(t.params) >= len(n.c) >= 2:
                        judge(C, f, n, t.q, [norm(name_of(x)) for x in n.c], t.params, seen, (n.loc, t.q, f.q, t.loc))
    C.need("argument-order", 50)


def ctors(P):
    m = getattr(P, "_ctors", None)
    if m is None:
        m = {}
        for f in P.fns:
            if f.isctor and f.cls:
                m.setdefault(f.cls.split("<")[0], []).append(f)
        P._ctors = m
    return m


def judge(C, f, n, q, names, params, seen, key):
    if key in seen:
        return
    pn = [norm(p[0]) for p in params]
    if sum(1 for x in names if x and x in pn) < 2:
        return
    seen.add(key)
    c = cycle(names, pn)
    if c and len({plain(params[i][2]) for i in c}) > 1 and not all(num(params[i][2]) for i in c):
        c = None
    if c and both_orders(f, n, q, c, names):
        c = None                            # the caller chooses between the orders on purpose
    C.judge(not c, "argument-order", f"{f.q}/{q}", n.loc, f"{f.q}: call of {q}: " +
            (f"arguments {[names[i] for i in c]} go to parameters {[pn[i] for i in c]}" if c else f"{len(names)} arguments in the order of the parameters"))


def both_orders(f, n, q, c, names):
    for m in f.walk():
        if m is not n and m.k == n.k and m.a.get("q") == n.a.get("q"):
            a = args_of(m) if m.k == "call" else m.c
            o = [norm(name_of(x)) for x in a]
            if len(o) == len(names) and {o[i] for i in c} == {names[i] for i in c} and [o[i] for i in c] != [names[i] for i in c]:
                return True
    return False


def num(t):
    return plain(t) in ("unsigned int", "int", "double", "float", "bool", "unsigned long", "std::size_t")


def inits(f, C, seen):
    names, mem = [], []
    for i in f.inits:
        if i.get("n") and i.get("e") is not None:
            e = i["e"]
            mem.append(norm(i["n"]))
            names.append(norm(name_of(e)))
    if sum(1 for x in names if x and x in mem) < 2:
        return
    key = (f.loc, "init")
    if key in seen:
        return
    seen.add(key)
    c = cycle(names, mem)
    C.judge(not c, "argument-order", f"{f.q}/init", f.loc, f"{f.q}: " + (f"members {[mem[i] for i in c]} are initialised with {[names[i] for i in c]}" if c else f"{len(mem)} members initialised from the parameters of their names"))
