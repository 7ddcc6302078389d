"""shared queries"""
from canon import *

FLOATS = ("double", "float", "long double")


def clean_ty(ty):
    t = (ty or "").replace("const ", "").strip()
    while t.endswith("&") or t.endswith(" const"):
        t = t[:-1].strip() if t.endswith("&") else t[:-6].strip()
    return t


def enclosing(n, *kinds):
    for a in n.ancestors():
        if a.k in kinds:
            return a
    return None


def enclosing_stmt(n):
    """statement (child of a block) containing n"""
    x = n
    for a in n.ancestors():
        if a.k == "blk":
            return x
        x = a
    return x


def guards(n, stop=None):
    """(condition, polarity) pairs that hold whenever n is reached: enclosing
    branches, short-circuit operands and earlier guard statements that leave
    the block"""
    out = []
    child = n
    for a in n.ancestors():
        if a is stop:
            break
        if a.k == "if":
            if child is a.c[2]:
                out.append((a.c[1], True))
            elif len(a.c) > 3 and child is a.c[3]:
                out.append((a.c[1], False))
        elif a.k == "cond":
            if child is a.c[1]:
                out.append((a.c[0], True))
            elif child is a.c[2]:
                out.append((a.c[0], False))
        elif a.k == "bin" and a.a.get("op") in ("&&", "||") and child is a.c[1]:
            out.append((a.c[0], a.a["op"] == "&&"))
        elif a.k == "while" and child is a.c[1]:
            out.append((a.c[0], True))
        elif a.k == "for" and len(a.c) > 3 and child is a.c[3] and a.c[1] is not None:
            out.append((a.c[1], True))
        elif a.k == "blk":
            for s in a.c:
                if s is child:
                    break
                if s is not None and s.k == "if":
                    if leaves(s.c[2]) and (len(s.c) < 4 or s.c[3] is None):
                        out.append((s.c[1], False))
                    elif len(s.c) > 3 and s.c[3] is not None and leaves(s.c[3]):
                        out.append((s.c[1], True))
        elif a.k == "lambda":
            break
        child = a
    return out


def leaves(s):
    """statement that never falls through"""
    if s is None:
        return False
    if s.k in ("ret", "cont", "break", "throw"):
        return True
    if s.k == "blk":
        return any(leaves(x) for x in s.c)
    if s.k == "if":
        return len(s.c) > 3 and s.c[3] is not None and leaves(s.c[2]) and leaves(s.c[3])
    if s.k == "call":
        return (s.a.get("q") or "").endswith(("issue_error_noreturn", "abort", "exit", "std::terminate"))
    return False


def flatten_cond(c, pol):
    """split conjunctions / negations: list of (atom, polarity)"""
    if c is None:
        return []
    while (c.k == "cast" and len(c.c) == 1) or (c.k == "call" and c.a.get("q") == "__builtin_expect" and c.c):
        c = c.c[0]
    if c.k == "un" and c.a.get("op") == "!":
        return flatten_cond(c.c[0], not pol)
    if c.k == "bin" and c.a.get("op") == "&&" and pol:
        return flatten_cond(c.c[0], True) + flatten_cond(c.c[1], True)
    if c.k == "bin" and c.a.get("op") == "||" and not pol:
        return flatten_cond(c.c[0], False) + flatten_cond(c.c[1], False)
    return [(c, pol)]


def all_guards(n, stop=None):
    out = []
    for c, p in guards(n, stop):
        out += flatten_cond(c, p)
    return out


def root_of(p):
    """root of a place: ('var',id,uid) or ('this','.field')"""
    if p is None:
        return None
    if p[0] == "var":
        return p[:3]
    if p[0] == "this":
        return p[:2]
    return p[:2]


def prefix(a, b):
    return b is not None and a is not None and b[:len(a)] == a


def write_targets(n):
    """(target expr, kind, value expr) written by one node, kinds: = += -= ++ call"""
    if n.k == "bin" and n.a.get("op") in ASSIGN_OPS:
        return [(n.c[0], n.a["op"], n.c[1])]
    if n.k == "un" and n.a.get("op") in ("++", "--"):
        return [(n.c[0], n.a["op"], None)]
    if n.k == "call":
        op = n.a.get("op")
        if op in ASSIGN_OPS and len(n.c) == 2:
            return [(n.c[0], op, n.c[1])]
        if op in ("++", "--") and n.c:
            return [(n.c[0], op, None)]
        out = []
        pm = n.a.get("pm") or ""
        ch = n.c
        if n.a.get("m"):
            if not n.a.get("const") and not n.a.get("static") and ch and ch[0] is not None and op not in ("[]", "()", "*", "->"):
                if short(n.a.get("q") or "") not in ("begin", "end", "data", "front", "back", "find", "at", "block", "operator[]", "rbegin", "rend", "get", "operator->", "operator*"):
                    out.append((ch[0], "call", n))
            ch = ch[1:]
        for i, x in enumerate(ch):
            if i < len(pm) and pm[i] in "rp" and x is not None:
                out.append((x, "arg", n))
        return out
    if n.k == "ctor":
        out = []
        pm = n.a.get("pm") or ""
        for i, x in enumerate(n.c):
            if i < len(pm) and pm[i] in "rp" and x is not None:
                out.append((x, "arg", n))
        return out
    return []


def dedupe_fns(P):
    """one representative per function pattern (all instantiation shapes are
    kept when they differ)"""
    return P.fns


def lits(n):
    return [x.a["v"] for x in n.walk() if x.k == "lit" and x.a.get("lt") == "str"]
