"""canonical text of expressions: casts, copies, smart pointers, trivial
getters, single-definition locals and parameter passing are transparent"""
from engine import *

COMM = {"+", "*", "==", "!=", "&&", "||", "&", "|"}


def canon(E, n, fr, depth=0, anon=True):
    if n is None:
        return "~"
    if depth > 40:
        return "..."
    d = depth + 1
    n0 = n
    n, fr = E.origin(n, fr)
    if n is None:
        return "~"
    k = n.k
    if k == "lit":
        v = n.a.get("v")
        if n.a.get("lt") == "float":
            try:
                v = repr(float(v))
                if v.endswith(".0"):
                    v = v[:-2]
            except ValueError:
                pass
        return repr(v) if n.a.get("lt") == "str" else str(v)
    if k in ("ref", "mem", "this") or (k == "call" and E.place(n, fr) is not None and E.place(n, fr)[0] not in ("tmp", "?") and not has_args(n)):
        if n.a.get("cv") is not None:
            return str(n.a["cv"])
        if k == "ref" and n.a.get("dk") in ("enumc", "func", "nttp"):
            return n.a.get("q") or n.a.get("n")
        p = E.place(n, fr)
        if p is not None:
            return place_str(p)
        return n.a.get("q") or n.a.get("n") or "?"
    if k == "bin":
        l, r = canon(E, n.c[0], fr, d), canon(E, n.c[1], fr, d)
        op = n.a["op"]
        if op in COMM and r < l:
            l, r = r, l
        if op == ">":
            op, l, r = "<", r, l
        if op == ">=":
            op, l, r = "<=", r, l
        return f"({l} {op} {r})"
    if k == "un":
        if n.a["op"] in ("*", "&"):
            p = E.place(n, fr)
            if p is not None:
                return place_str(p)
        return f"{n.a['op']}{canon(E, n.c[0], fr, d)}"
    if k == "cond":
        return f"({canon(E, n.c[0], fr, d)} ? {canon(E, n.c[1], fr, d)} : {canon(E, n.c[2], fr, d)})"
    if k == "sub":
        return f"{canon(E, n.c[0], fr, d)}[{canon(E, n.c[1], fr, d)}]"
    if k == "call":
        op = n.a.get("op")
        if op == "->" or (op == "*" and len(n.c) == 1):
            return canon(E, n.c[0], fr, d)
        a = [canon(E, x, fr, d) for x in n.c]
        if op == "[]" or (op == "()" and len(a) > 1):
            return f"{a[0]}[{','.join(a[1:])}]"
        if op and len(a) == 2:
            if op in COMM and a[1] < a[0]:
                a = a[::-1]
            return f"({a[0]} {op} {a[1]})"
        s = short(n.a.get("q") or "?")
        if n.a.get("m") and a:
            return f"{a[0]}.{s}({','.join(a[1:])})"
        if s in ("max", "min") and len(a) == 2:
            a = sorted(a)
        return f"{s}({','.join(a)})"
    if k == "ctor":
        return f"{short(n.a.get('q') or '?')}({','.join(canon(E, x, fr, d) for x in n.c)})"
    if k == "il":
        return "{" + ",".join(canon(E, x, fr, d) for x in n.c) + "}"
    if k == "lambda":
        return "lambda"
    if k == "sizeof":
        return f"sizeof({n.a.get('ty')})"
    if k == "zero":
        return "0"
    return f"{k}({','.join(canon(E, x, fr, d) for x in n.c)})"


def has_args(n):
    return len(args_of(n)) > 0


def place_str(p):
    r = p[0]
    if r == "this":
        s, rest = "this", p[1:]
    elif r == "var":
        s, rest = p[1].rsplit("/", 1)[-1], p[3:]
        s = "$" + s
    elif r == "glob":
        s, rest = p[1] or "glob", p[2:]
    else:
        s, rest = f"<{r}>", p[2:]
    return s + "".join(x if isinstance(x, str) else "?" for x in rest)
