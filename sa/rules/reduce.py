"""global reductions: element type, element count, identity element, operator;
cell loops contribute only from locally owned cells; rank-local partial
results are reduced before they leave the function"""
from util import *
import re

MPI_TY = {"ompi_mpi_double": "double", "ompi_mpi_float": "float", "ompi_mpi_int": "int",
          "ompi_mpi_unsigned": "unsigned int", "ompi_mpi_uint64_t": "unsigned long",
          "ompi_mpi_int64_t": "long", "ompi_mpi_long": "long", "ompi_mpi_unsigned_long": "unsigned long",
          "ompi_mpi_uint32_t": "unsigned int", "ompi_mpi_int32_t": "int", "ompi_mpi_char": "char",
          "ompi_mpi_byte": None, "ompi_mpi_cxx_bool": "bool", "ompi_mpi_c_bool": "bool",
          "ompi_mpi_unsigned_long_long": "unsigned long long", "ompi_mpi_long_long_int": "long long",
          "ompi_mpi_unsigned_char": "unsigned char", "ompi_mpi_short": "short",
          "ompi_mpi_long_double": "long double"}

# call -> [(buffer arg, count arg, type arg)]
LAYOUT = {
    "MPI_Allreduce": [(0, 2, 3), (1, 2, 3)], "MPI_Reduce": [(0, 2, 3), (1, 2, 3)],
    "MPI_Exscan": [(0, 2, 3), (1, 2, 3)], "MPI_Scan": [(0, 2, 3), (1, 2, 3)],
    "MPI_Bcast": [(0, 1, 2)],
    "MPI_Scatterv": [(0, None, 3), (4, 5, 6)], "MPI_Gatherv": [(0, 1, 2), (3, None, 6)],
    "MPI_Gather": [(0, 1, 2), (3, None, 5)], "MPI_Scatter": [(0, None, 2), (3, 4, 5)],
    "MPI_Allgather": [(0, 1, 2), (3, None, 5)], "MPI_Allgatherv": [(0, 1, 2), (3, None, 6)],
    "MPI_Alltoall": [(0, None, 2), (3, None, 5)],
    "MPI_Send": [(0, 1, 2)], "MPI_Isend": [(0, 1, 2)], "MPI_Recv": [(0, 1, 2)], "MPI_Irecv": [(0, 1, 2)],
    "MPI_File_read_all": [(1, 2, 3)], "MPI_File_write_all": [(1, 2, 3)],
    "MPI_File_write": [(1, 2, 3)], "MPI_File_read": [(1, 2, 3)],
    "MPI_File_write_at": [(2, 3, 4)], "MPI_File_write_at_all": [(2, 3, 4)],
    "MPI_File_read_at": [(2, 3, 4)], "MPI_File_read_at_all": [(2, 3, 4)],
    "File_write_at_c": [(2, 3, 4)], "File_write_at_all_c": [(2, 3, 4)],
    "File_read_at_c": [(2, 3, 4)], "File_read_at_all_c": [(2, 3, 4)],
}


def mpi_type(E, n, fr):
    o, ofr = E.origin(n, fr)
    o = unwrap(o) if o is not None else None
    while o is not None and o.k == "un" and o.a.get("op") in ("&", "*"):
        o = unwrap(o.c[0])
    if o is not None and o.k in ("ref", "mem"):
        q = o.a.get("q") or o.a.get("n") or ""
        if short(q) == "mpi_type_id_for_type":
            return clean_ty(o.a.get("targs"))
        if short(q) in MPI_TY:
            return MPI_TY[short(q)]
    return "?"


def pointee(E, n, fr):
    """(element type, container place, container expr, is scalar address)"""
    m = n
    while m is not None and m.k == "cast":
        m = m.c[0]
    if m is None:
        return None
    if m.k == "un" and m.a.get("op") == "&":
        x = m.c[0]
        y = unwrap(x)
        ty = clean_ty(y.a.get("ty")) if y is not None else None
        if y is not None and y.k in ("sub",) or (y is not None and y.k == "call" and y.a.get("op") in ("[]", "*")):
            ty = clean_ty(y.a.get("ty")) if y.k == "call" else None
            return ty, E.place(y, fr), y, False
        return ty, E.place(x, fr), y, True
    ty = m.a.get("ty") or ""
    t = clean_ty(ty)
    if t.endswith("*"):
        return clean_ty(t[:-1].strip()), E.place(m, fr), m, False
    if "[" in t:
        return clean_ty(t[:t.index("[")]), E.place(m, fr), m, False
    return None


def n_scalars(ty):
    """scalars per element of a container"""
    t = clean_ty(ty)
    if t in ("double", "float", "int", "unsigned int", "unsigned long", "long", "char", "bool", "unsigned char"):
        return 1
    m = re.match(r"dealii::Point<(\d+)", t)
    if m:
        return int(m.group(1))
    m = re.match(r"dealii::Tensor<(\d+), (\d+)", t)
    if m:
        return int(m.group(2)) ** int(m.group(1))
    m = re.match(r"dealii::SymmetricTensor<2, (\d+)", t)
    if m:
        d = int(m.group(1))
        return d * (d + 1) // 2
    m = re.match(r"std::array<(.*), (\d+)>$", t)
    if m:
        k = n_scalars(m.group(1))
        return k * int(m.group(2)) if k else None
    return None


def elem_of(ty):
    t = clean_ty(ty)
    m = re.match(r"std::(?:vector|array|__cxx11::basic_string|basic_string)<(.*)$", t)
    if not m:
        return None
    s, d, out = m.group(1), 0, ""
    for c in s:
        if c == "<":
            d += 1
        if c == ">":
            d -= 1
            if d < 0:
                break
        if c == "," and d == 0:
            break
        out += c
    return out.strip()


def is_in_place(n):
    m = unwrap(n)
    return m is not None and m.k == "lit" and m.a.get("v") == "1"


def strip_idx(p):
    while p and isinstance(p[-1], str) and p[-1].startswith("["):
        p = p[:-1]
    return p


def sizes_given(E, fn, fr, place):
    """canonical lengths the container gets at its construction / resize"""
    out = set()
    for n in fn.walk():
        if n.k == "var" and ("var", n.a["id"], fr.uid) == place and n.c and n.c[0] is not None:
            e = unwrap(n.c[0])
            if e is not None and e.k == "ctor" and e.c and not e.a.get("copy"):
                out.add(canon(E, e.c[0], fr))
        if n.k == "call" and n.a.get("m") and short(n.a.get("q") or "") in ("resize", "assign") and n.c:
            if E.place(n.c[0], fr) == place and len(n.c) > 1:
                out.add(canon(E, n.c[1], fr))
    return out


def factor_ok(count, base, k):
    forms = {base} if k == 1 else {f"({base} * {k})", f"({k} * {base})"}
    return count in forms


def run(P, E, C):
    calls(P, E, C)
    accum(P, E, C)
    C.need("datatype", 20)
    C.need("operator", 15)


def run_owned(P, E, C):
    owned(P, E, C)
    C.need("owned-only", 20)


def fkey(f, n, E=None):
    return f"{f.q}"


def calls(P, E, C):
    for f in P.fns:
        fr = None
        for n in f.find("call"):
            q = short(n.a.get("q") or "")
            if q not in LAYOUT:
                continue
            fr = fr or E.root(f)
            a = args_of(n) if not n.a.get("m") else n.c[1:]
            for bi, ci, ti in LAYOUT[q]:
                if bi >= len(a) or ti >= len(a):
                    continue
                if is_in_place(a[bi]):
                    continue
                pt = pointee(E, a[bi], fr)
                mt = mpi_type(E, a[ti], fr)
                key = f"{f.q}/{q}#{bi}"
                if pt is None or pt[0] is None or mt == "?" or "dep:" in (pt[0] or "") or not pt[0]:
                    C.note(f"undecided buffer/datatype at {n.loc} ({q} argument {bi})")
                    continue
                if mt is not None:
                    et = pt[0]
                    if et not in MPI_TY.values() and n_scalars(et):
                        et = mt          # array-like element: scalar type checked below through the container
                    C.judge(et == mt, "datatype", key, n.loc, f"{q} in {f.q}: buffer of {pt[0]}, MPI datatype for {mt}")
                if ci is None:
                    continue
                cnt = canon(E, a[ci], fr)
                if pt[3]:
                    C.judge(cnt == "1", "count", key, n.loc, f"{q} in {f.q}: one scalar, count {cnt}")
                    continue
                # container behind the pointer
                cont, cty = None, None
                for x in pt[2].walk():
                    e = elem_of(x.a.get("ty") or "")
                    if e and x.k in ("ref", "mem"):
                        cont, cty = E.place(x, fr), e
                        break
                k = n_scalars(cty) if cty else None
                if cont is None or k is None:
                    C.note(f"undecided count at {n.loc} ({q})")
                    continue
                bases = {place_str(cont) + ".size()"} | sizes_given(E, f, fr, cont)
                if mt is None or mt in ("char", "?"):
                    k = 1
                if not ("size()" in cnt or cnt.isdigit()):
                    if cnt in bases:
                        C.ok("count", n.loc, f"{q} count {cnt}")
                    else:
                        C.note(f"undecided count at {n.loc} ({cnt})")
                    continue
                good = any(factor_ok(cnt, b, k) for b in bases)
                C.judge(good, "count", key, n.loc, f"{q} in {f.q}: count {cnt} for container {place_str(cont)} with {k} scalars per element")
            if q == "MPI_Exscan":
                p = E.place(a[1], fr)
                v = None
                if p and p[0] == "var":
                    v = E.info(f).decl.get(p[1])
                ini = v is not None and v.c and v.c[0] is not None
                C.judge(bool(ini), "exscan-init", f"{f.q}", n.loc, f"MPI_Exscan result in {f.q} is initialised for rank 0")
            if q in ("MPI_Exscan", "MPI_Scan") and len(a) > 4:
                pt = pointee(E, a[0], fr)
                o = unwrap(a[4])
                while o is not None and o.k in ("un", "cast"):
                    o = unwrap(o.c[0])
                op = OPN.get(short((o.a.get("q") or o.a.get("n") or "") if o is not None else ""))
                if pt is not None and pt[0] in COUNTS and op is not None:
                    C.judge(op == "sum", "scan-operator", f"{f.q}", n.loc,
                            f"{q} in {f.q}: the numbers of items held by the preceding processes are combined by {op}")
            if q in ("MPI_Allreduce", "MPI_Exscan", "MPI_Reduce") and not is_in_place(a[0]) and len(a) > 1:
                p1, p2 = E.place(a[0], fr), E.place(a[1], fr)
                C.judge(p1 != p2, "no-alias", f.q, n.loc, f"send and receive buffers of {q} differ in {f.q}")


# ------------------------------------------------------------------ operators
def red_calls(f):
    for n in f.find("call"):
        q = n.a.get("q") or ""
        s = short(q)
        if s in ("MPI_Allreduce", "MPI_Reduce"):
            yield n, None
        elif "Utilities::MPI" in q and s in ("sum", "max", "min", "logical_or"):
            yield n, s


COUNTS = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long")
OPN = {"ompi_mpi_op_sum": "sum", "ompi_mpi_op_max": "max", "ompi_mpi_op_min": "min", "ompi_mpi_op_lor": "logical_or"}


def fields_fns(P, f):
    return [g for g in P.fns if g.clsid == f.clsid] if f.clsid else [f]


def classify(E, fn, fr, place, out, depth=0, seen=None):
    """writes to place (or its elements) -> set of kinds; initial values"""
    seen = seen if seen is not None else set()
    if (fn.id if isinstance(fn, Fn) else id(fn), place) in seen or depth > 5:
        return
    seen.add((fn.id if isinstance(fn, Fn) else id(fn), place))
    for n in fn.walk():
        if n.k == "var":
            if ("var", n.a["id"], fr.uid) == place:
                out.setdefault("init", []).append((n.c[0] if n.c else None, n, fr))
            continue
        for tgt, kind, val in write_targets(n):
            p = E.place(tgt, fr)
            if p is None or not prefix(place, p):
                continue
            if kind in ("+=", "-=", "++", "--"):
                out.setdefault("sum", []).append(n)
            elif kind == "=":
                k = assign_kind(E, n, tgt, val, p, fr)
                out.setdefault(k, []).append(n)
            elif kind == "call":
                s = short(val.a.get("q") or "")
                if s in ("resize", "assign", "reserve", "clear", "push_back", "emplace_back", "insert", "swap"):
                    out.setdefault("init", []).append((val, n, fr))
                    out.setdefault("container", []).append(n)
            elif kind == "arg":
                q = val.a.get("q") or ""
                if q in ("std::max", "std::min"):
                    continue
                for c in E.callees(val, fr)[:2]:
                    nf = E.inline_frame(c, val, fr)
                    if isinstance(c, Fn):
                        classify(E, c, nf, place, out, depth + 1, seen)


def mentions(E, n, place, fr):
    for x in n.walk():
        if x.k in ("ref", "mem", "call", "sub"):
            p = E.place(x, fr)
            if p is not None and strip_idx(p) == strip_idx(place) :
                return True
    return False


def is_reduction(x):
    q = x.a.get("q") or ""
    return x.k == "call" and (short(q) in ("MPI_Allreduce", "MPI_Reduce") or ("Utilities::MPI" in q and short(q) in ("sum", "max", "min", "logical_or")))


def assign_kind(E, n, tgt, val, p, fr):
    v = unwrap(val)
    if v is None:
        return "assign"
    if any(is_reduction(x) for x in v.walk()):
        return "reduced"            # the global result itself
    if v.k == "call" and v.a.get("q") in ("std::max", "std::min", "std::fmax", "std::fmin") and mentions(E, v, p, fr):
        return "max" if "max" in v.a["q"] else "min"
    if v.k == "bin" and v.a.get("op") in ("+", "-") and mentions(E, v, p, fr):
        return "sum"
    if v.k == "call" and v.a.get("op") in ("+", "-") and mentions(E, v, p, fr):
        return "sum"
    if v.k == "cond":
        c = unwrap(v.c[0])
        if c is not None and c.k == "bin" and c.a["op"] in ("<", ">", "<=", ">="):
            l = canon(E, c.c[0], fr)
            t = canon(E, v.c[1], fr)
            gt = c.a["op"].startswith(">")
            if l == t:
                return "max" if gt else "min"
            return "min" if gt else "max"
    cv = canon(E, val, fr)
    ct = canon(E, tgt, fr)
    for g, pol in all_guards(n)[:6]:
        if g.k == "bin" and g.a.get("op") in ("<", ">", "<=", ">="):
            l, r = canon(E, g.c[0], fr), canon(E, g.c[1], fr)
            op = g.a["op"][0]
            if not pol:
                op = "<" if op == ">" else ">"
            if l == ct and r == cv:
                return "min" if op == ">" else "max"
            if l == cv and r == ct:
                return "max" if op == ">" else "min"
    if v.k == "lit" or (v.k == "call" and "numeric_limits" in (v.a.get("q") or "")):
        return "reset"
    return "assign"


def init_value(E, e, fr):
    """textual initial element value: number, 'max', 'lowest', 'min' or None"""
    e0 = unwrap(e)
    if e0 is None:
        return None
    neg = ""
    if e0.k == "un" and e0.a.get("op") == "-":
        neg = "-"
        e0 = unwrap(e0.c[0])
    e0, fr = E.origin(e0, fr)
    e0 = unwrap(e0)
    if e0 is None:
        return None
    if e0.k == "call" and "numeric_limits" in (e0.a.get("q") or ""):
        return neg + short(e0.a["q"]) + ":" + clean_ty(e0.a.get("ty"))
    if e0.k == "lit" and e0.a.get("lt") in ("int", "float", "bool"):
        try:
            v = {"true": 1.0, "false": 0.0}.get(e0.a["v"])
            v = float(e0.a["v"]) if v is None else v
            return neg + repr(v)
        except ValueError:
            return None
    if e0.k == "ctor" and e0.c and elem_of(e0.a.get("ty") or ""):
        if len(e0.c) >= 2:
            return init_value(E, e0.c[1], fr)
        return "0.0" if not e0.a.get("copy") else None
    if e0.k == "zero":
        return "0.0"
    if e0.k == "call" and short(e0.a.get("q") or "") == "create_array" and e0.c:
        return init_value(E, e0.c[0], fr)
    if e0.k == "il" and not e0.c:
        return "0.0"
    if e0.k == "call" and short(e0.a.get("q") or "") in ("resize", "assign"):
        a = args_of(e0)
        if len(a) >= 2:
            return init_value(E, a[1], fr)
        return None
    return None


def bad_identity(op, v):
    if v is None:
        return None
    if op == "sum":
        try:
            return float(v) != 0.0
        except ValueError:
            return True
    if op == "max":
        if v.startswith("max") or v.startswith("-lowest") or v.startswith("infinity"):
            return True
        if v.startswith("min:") and v[4:] in FLOATS:
            return True
        try:
            return float(v) > 1e3          # a moderate literal is a deliberate floor
        except ValueError:
            return False
    if op == "min":
        if v.startswith(("lowest", "-max", "min", "-infinity")):
            return True
        try:
            return float(v) <= 0
        except ValueError:
            return False
    return None


def accum(P, E, C):
    seen = set()
    for f in P.fns:
        fr = None
        for n, op in red_calls(f):
            fr = fr or E.root(f)
            a = args_of(n)
            if op is None:
                o = unwrap(a[4])
                while o is not None and o.k in ("un", "cast"):
                    o = unwrap(o.c[0])
                op = OPN.get(short((o.a.get("q") or o.a.get("n") or "") if o is not None else ""))
                buf = a[1] if is_in_place(a[0]) else a[0]
            else:
                buf = a[0]
            if op is None:
                continue
            b, bfr = buf, fr
            p = E.place(b, bfr)
            fns = [(f, fr)]
            m, mfr = E.origin(b, bfr)
            m = unwrap(m)
            if (p is None or p[0] == "tmp") and m is not None and m.k == "call":
                for t in P.targets(m)[:1]:
                    nf = E.inline_frame(t, m, fr)
                    for r in t.find("ret"):
                        if r.c:
                            q = E.place(r.c[0], nf)
                            if q and q[0] == "var":
                                p, fns = q, [(t, nf)]
            if p is None or p[0] == "tmp":
                C.ok("operator-opaque", n.loc, f"{f.q}: {op} over an expression")
                continue
            p = strip_idx(p)
            while p and p[-1] == ".data()":
                p = p[:-1]
            if p[0] == "this":
                fns = [(g, E.root(g)) for g in fields_fns(P, f)]
            out = {}
            for g, gf in fns:
                classify(E, g, gf, p, out)
            kinds = {k for k in ("sum", "max", "min") if out.get(k)}
            whole_range(P, E, C, f, n, op, b, bfr, p, out, kinds)
            if op == "sum" and p[0] == "var":
                nonlinear(P, E, C, f, fr, n, p, b)
            want = {"logical_or": "max"}.get(op, op)
            key = f"{f.q}/{place_str(p).split(':')[0] if p[0] != 'this' else place_str(p)}/{op}"
            nm = buf_name(b)
            key = f"{f.q}/{nm}"
            bad = kinds - {want}
            if op == "sum" and "max" not in kinds and "min" not in kinds:
                bad = set()
            C.judge(not bad, "operator", key, n.loc,
                    f"{f.q}: {nm} accumulated locally by {sorted(kinds) or ['assignment']} and reduced by {op}")
            for x in out.get("assign", ()):
                lw = last_wins(E, x, f, fr)
                if lw is not None:
                    C.judge(not lw, "combine", key, x.loc, f"{f.q}: entries of {nm} " + ("are overwritten in a loop at positions that may repeat, so the last visit wins, before the " + op + " over all processes" if lw else "are set at distinct positions"))
            for e, vn, vf in out.get("init", ()):
                if e is None:
                    continue
                v = init_value(E, e, vf)
                bi = bad_identity(want, v) if kinds or op != "sum" else None
                if bi is None:
                    continue
                if op == "sum" and not kinds:
                    continue
                C.judge(not bi, "identity", key, vn.loc, f"{f.q}: initial value {v} of {nm} for a {op} reduction")
    local_extrema(P, E, C)


def extremum(E, e, fr):
    """(max|min, container expression, frame) of *std::max_element(c.begin(), ...)"""
    x, xf = E.origin(e, fr)
    x = unwrap(x) if x is not None else None
    if x is None:
        return None
    if x.k == "un" and x.a.get("op") == "*" or x.k == "call" and x.a.get("op") == "*" and len(x.c) == 1:
        x, xf = E.origin(x.c[0], xf)
        x = unwrap(x) if x is not None else None
    if x is None or x.k != "call" or x.a.get("q") not in ("std::max_element", "std::min_element") or not x.c:
        return None
    y, yf = E.origin(x.c[0], xf)
    y = unwrap(y) if y is not None else None
    if y is None or y.k != "call" or short(y.a.get("q") or "") not in ("begin", "cbegin") or not y.c:
        return None
    return x.a["q"][5:8], y.c[0], yf


PER_CELL = {"n_active_cells"}


def whole_range(P, E, C, f, n, op, b, bfr, p, out, kinds):
    """the reduced value is the extremum of a local array"""
    cand = [(b, bfr)]
    for x in out.get("assign", ()):
        cand.append((x.c[1] if len(x.c) == 2 else None, bfr))
    for e, vn, vf in out.get("init", ()):
        if vn.k == "var":
            cand.append((e, vf))
    for e, ef in cand:
        r = extremum(E, e, ef) if e is not None else None
        if r is None:
            continue
        kinds.add(r[0])
        if op != r[0]:
            C.bad("operator", f"{f.q}/{buf_name(b)}", n.loc,
                  f"{f.q}: the {r[0]}imum of {buf_name(r[1])} over the own entries is reduced by {op}")
            continue
        # entries of cells that belong to other processes take part
        cp = E.place(r[1], r[2])
        if cp is None or cp[0] != "var":
            continue
        v = E.info(f).decl.get(cp[1])
        ini = unwrap(v.c[0]) if v is not None and v.c else None
        if ini is None or ini.k != "ctor" or len(ini.c) < 1 or ini.c[0] is None:
            continue
        sz, _ = E.origin(ini.c[0], r[2])
        sz = unwrap(sz) if sz is not None else None
        if sz is None or sz.k != "call" or short(sz.a.get("q") or "") not in PER_CELL:
            continue
        iv = init_value(E, ini.c[1], r[2]) if len(ini.c) > 1 and ini.c[1].k != "defarg" else "0.0"
        for m in f.find("bin", "call"):
            if m.a.get("op") == "=" and len(m.c) == 2 and E.place(m.c[0], r[2]) == cp:
                iv = init_value(E, m.c[1], r[2])
        for m in f.find("call"):
            if m.a.get("q") == "std::fill" and len(m.c) == 3:
                iv = init_value(E, m.c[2], r[2])
        bi = bad_identity(op, iv)
        if bi is None:
            continue
        C.judge(not bi, "identity", f"{f.q}/{buf_name(r[1])}", n.loc,
                f"{f.q}: {buf_name(r[1])} has an entry for each cell of the local mesh, also for those of other processes, and these hold {iv} when the {op} is taken")


def nonlinear(P, E, C, f, fr, n, p, b):
    """local sums must not be divided by (or multiplied with) other local sums
    before they are summed over the processes"""
    order = {id(x): i for i, x in enumerate(f.walk())}
    at = order.get(id(n))
    if at is None:
        return
    reds = []
    for m, _ in red_calls(f):
        a = args_of(m)
        for x in a[:2]:
            q = E.place(x, fr)
            if q is not None and q[0] == "var":
                q = strip_idx(q)
                while q and q[-1] == ".data()":
                    q = q[:-1]
                reds.append((q, order.get(id(m), 0)))
    start = max([i for q, i in reds if q == p and i < at], default=0)
    for m in f.find("bin", "call"):
        i = order.get(id(m), 0)
        op = m.a.get("op")
        if not start < i < at or op not in ("/=", "*=") or len(m.c) != 2:
            continue
        t = E.place(m.c[0], fr)
        if t is None or strip_idx(t)[:len(p)] != p:
            continue
        other = None
        for x in m.c[1].walk():
            if x.k != "ref":
                continue
            q = E.place(x, fr)
            if q is not None and any(r == strip_idx(q) and k > i for r, k in reds):
                other = x
        C.judge(other is None, "linear", f"{f.q}/{buf_name(b)}", m.loc,
                f"{f.q}: {buf_name(b)} is " + ("divided by" if op == "/=" else "multiplied with") +
                (f" {buf_name(other)} before either is summed over all processes" if other is not None else " a value known to all before it is summed"))


def last_wins(E, n, f, fr):
    """element assignment in a loop: True if the position is looked up in a
    table (may repeat) and nothing compares the value with the entry"""
    t = unwrap(n.c[0])
    while t is not None and t.k == "mem" and t.c:
        t = unwrap(t.c[0])
    if t is None or not (t.k == "sub" or (t.k == "call" and t.a.get("op") == "[]")) or len(t.c) < 2:
        return None
    if not any(a.k in ("for", "rfor", "while", "do") for a in n.ancestors()):
        return None
    i, _ = E.origin(t.c[1], fr)
    i = unwrap(i)
    if i is None:
        return None
    looked = i.k == "sub" or (i.k == "call" and (i.a.get("op") == "[]" or short(i.a.get("q") or "") in ("at",)))
    if not looked:
        return False
    root = unwrap(t.c[0])
    rp = E.place(root, fr)
    for g, pol in all_guards(n):
        if g.k == "bin" and g.a.get("op") in ("<", ">", "<=", ">="):
            return False
    return True


def local_extrema(P, E, C):
    """running extrema (variables, array elements, members) start from the
    identity of their operation"""
    for f in P.fns:
        fr = E.root(f)
        ws = []
        for n in f.find("bin", "call"):
            if n.a.get("op") != "=" or len(n.c) != 2:
                continue
            t = unwrap(n.c[0])
            if t is None:
                continue
            p = E.place(t, fr)
            if p is None or p[0] in ("tmp", "?"):
                continue
            ws.append((n, t, p, assign_kind(E, n, n.c[0], n.c[1], p, fr)))
        done = set()
        for n, t, p, k in ws:
            if k not in ("max", "min"):
                continue
            sp = strip_idx(p)
            if (sp, k) in done:
                continue
            done.add((sp, k))
            ivs = []
            for n2, t2, p2, k2 in ws:
                if k2 == "reset" and strip_idx(p2) == sp:
                    ivs.append((init_value(E, n2.c[1], fr), n2))
            v = E.info(f).decl.get(p[1]) if p[0] == "var" else None
            if v is not None and len(sp) == 3 and v.c and v.c[0] is not None:
                ivs.append((init_value(E, v.c[0], fr), v))
            for iv, at in ivs:
                bi = bad_identity(k, iv)
                if bi is None or iv is None or iv.lstrip("-")[0].isdigit():
                    continue          # seeded from a literal: a deliberate floor
                C.judge(not bi, "identity", f"{f.q}/{buf_name(t)}", at.loc, f"{f.q}: running {k} {buf_name(t)} starts at {iv}")


def buf_name(n):
    for x in n.walk():
        if x.k in ("ref", "mem"):
            return x.a.get("n")
        if x.k == "call" and not x.a.get("m"):
            return short(x.a.get("q") or "?")
    return "?"


# ---------------------------------------------------------------- owned cells
SKIP_LOOP = {
    "dealii::parallel::Helper::reinit": "edge table over the complete local mesh incl. ghosts",
    "dealii::parallel::distributed::SolutionSerialization::create_unique_dof_map": "visits coarse cells, ownership of dofs checked per index",
    ("Sintering::Problem::initialize", "cell_iterators"): "statistics: the flag itself is computed from the ownership of all children",
    "Test::run": "clamped-bar driver: loop over mesh cells to set ids",
}


class Owned(Flow):
    """state: 'N' nothing known, 'O' the cell is known to be owned (or ghost)"""

    def __init__(self, eng, loop, fr, C, f):
        super().__init__(eng)
        self.lp, self.C, self.f = loop, C, f
        self.local = set()
        self.eff = []
        self.uid = fr.uid
        self.loopvars = set()
        v = loop.c[0]
        if v is not None:
            for x in v.walk():
                if x.k == "var":
                    self.loopvars.add(x.a["id"])
        self.inner = {x.a["id"] for x in loop.walk() if x.k == "var"}

    def join(self, a, b):
        return a if a == b else "N" if "N" in (a, b) else "G"

    def want(self, callee, call, fr):
        if not isinstance(callee, Fn):
            return True
        return len(self.stack) < 4

    OWN = ("is_locally_owned", "is_locally_owned_on_level")

    def known(self, s, truth, st):
        """state after the ownership predicate s is known to be truth"""
        if s in self.OWN:
            return "O" if truth else st
        if s == "is_ghost":
            return ("O" if st == "O" else "G") if truth else ("O" if st == "G" else st)
        if s == "is_artificial":
            return ("O" if st == "O" else "G") if not truth else st
        return st

    def visits_owned(self, call, fr):
        """the callee returns a non-zero count only after it saw an owned cell
        (recursion through children / neighbours included)"""
        ts = self.E.P.targets(call)
        if not ts:
            return False
        for t in ts:
            r = self._vo.get(t.id)
            if r is None:
                self._vo[t.id] = True          # induction hypothesis
                w = Rets(self.E)
                w.run(t, "N")
                r = bool(w.out) and all(s == "O" for s in w.out)
                self._vo[t.id] = r
            if not r:
                return False
        return True

    _vo = {}

    def on_cond(self, n, truth, fr, st):
        if n.k == "bin" and n.a.get("op") in (">", "!=", ">="):
            l, r = unwrap(n.c[0]), literal(n.c[1])
            if l is not None and l.k in ("call", "ref") and truth and r == ("1" if n.a["op"] == ">=" else "0"):
                o, ofr = self.E.origin(l, fr)
                if o is not None and o.k == "call" and o.a.get("id") and self.visits_owned(o, ofr):
                    return "O"
        if n.k == "call":
            return self.known(short(n.a.get("q") or ""), truth, st)
        if n.k == "bin" and n.a.get("op") in ("==", "!="):
            l, r = unwrap(n.c[0]), unwrap(n.c[1])
            for x, y in ((l, r), (r, l)):
                if x is not None and y is not None and x.k == "call" and y.k == "lit" and y.a.get("lt") == "bool":
                    pos = (y.a["v"] == "true") == (n.a["op"] == "==")
                    return self.known(short(x.a.get("q") or ""), truth == pos, st)
            # ownership by subdomain id
            names = {short(x.a.get("q") or "") for y in (l, r) if y is not None for x in y.walk() if x.k == "call"}
            if "subdomain_id" in names and "locally_owned_subdomain" in names and (truth == (n.a["op"] == "==")):
                return "O"
        if n.k == "ref":
            o, ofr = self.E.origin(n, fr)
            if o is not n and o is not None and o.k == "call":
                return self.on_cond(o, truth, ofr, st)
            if o is not n and o is not None:
                t, f = self.cond(o, ofr, st) if o.k in ("bin", "un") else (st, st)
                return t if truth else f
        return st

    def outer(self, e, fr):
        p = self.E.place(e, fr)
        if p is None:
            return None
        if p[0] == "var":
            if p[1] in self.inner:
                return None
            # a local of an inlined callee or lambda
            if len(p[2]) > len(self.uid):
                return None
            return p
        if p[0] in ("this", "glob"):
            return p
        return None

    def effect(self, n, what, st, fr, place=None):
        self.eff.append((n, what, st, place))

    def on_assign(self, n, lhs, rhs, fr, st):
        p = self.outer(lhs, fr)
        if p:
            self.effect(n, "write", st, fr, p)
        return st

    def on_incdec(self, n, fr, st):
        p = self.outer(n.c[0], fr)
        if p:
            self.effect(n, "write", st, fr, p)
        return st

    READS = ("get_dof_values", "get_interpolated_dof_values", "get_function_values", "get_function_gradients",
             "get_dof_indices", "set_dof_values", "distribute_local_to_global")

    def on_call(self, n, fr, st):
        s = short(n.a.get("q") or "")
        if s in self.READS:
            self.effect(n, s, st, fr)
            return st
        if n.a.get("id"):
            return NotImplemented
        for tgt, kind, val in write_targets(n):
            if kind in ("call", "arg") and tgt is not None:
                y = unwrap(tgt)
                ty = clean_ty(y.a.get("ty")) if y is not None else ""
                if "Iterator" in ty or "Accessor" in ty or "ostream" in ty:
                    continue
                p = self.outer(tgt, fr)
                if p:
                    self.effect(n, s, st, fr, p)
        return st


class Rets(Owned):
    """states in which a function returns something other than literal zero"""

    def __init__(self, eng):
        Flow.__init__(self, eng)
        self.out = []
        self.eff = []
        self.inner = set()
        self.uid = ()

    def want(self, callee, call, fr):
        return False

    def outer(self, e, fr):
        return None

    def on_cond(self, n, truth, fr, st):
        if n.k == "call" and short(n.a.get("q") or "") == "has_children" and truth:
            return "O"          # the count is the sum over the children
        return Owned.on_cond(self, n, truth, fr, st)

    def on_return(self, n, fr, st):
        v = n.c[0] if n.c else None
        if literal(v) != "0":
            self.out.append(st)
        return st


def owned(P, E, C):
    Owned._vo = {}
    done = set()
    for f in P.fns:
        for n in f.find("rfor", "for"):
            src = n.c[1] if n.k == "rfor" else n.c[0]
            if src is None:
                continue
            qs = [(x, short(x.a.get("q") or "")) for x in src.walk() if x.k == "call"]
            it = [x for x, s in qs if s in ("active_cell_iterators", "begin_active", "cell_iterators", "active_cell_iterators_on_level")]
            if not it:
                continue
            obj = it[0].c[0] if it[0].c else None
            oty = clean_ty(unwrap(obj).a.get("ty")) if obj is not None and unwrap(obj) is not None else ""
            if oty.startswith("dealii::Triangulation<"):
                # serial helper meshes built on each rank
                pl = E.place(obj, E.root(f))
                if pl and pl[0] == "var" and pl[1] in E.info(f).decl:
                    continue
            ex = SKIP_LOOP.get(f.q) or SKIP_LOOP.get((f.q, short(it[0].a.get("q") or "")))
            if ex:
                C.ok("owned-exempt", n.loc, f"{f.q}: {ex}")
                continue
            # a nested cell loop inherits the analysis of the outer one
            fr = E.root(f)
            fl = Owned(E, n, fr, C, f)
            body = n.c[2] if n.k == "rfor" else n.c[3]
            fl.brk.append([]); fl.cnt.append([]); fl.ret.append([]); fl.exc.append([])
            st = "N"
            if any("filter" in (x.a.get("q") or "").lower() or "LocallyOwned" in (x.a.get("q") or "") + (x.a.get("ty") or "") for x in src.walk()):
                st = "O"
            fl.ex(body, fr, st)
            red = summed(E, f, fr)
            # pieces of surfaces are output or added up by every process
            bad = [e for e in fl.eff if e[2] == "N" or (e[2] == "G" and e[1] in ("process_cell", "process")) or (e[2] == "G" and e[3] is not None and any(prefix(r, e[3]) for r in red))]
            key = f"{f.q}"
            if n.loc in done and not bad:
                continue
            done.add(n.loc)
            C.judge(not bad, "owned-only", key, n.loc,
                    f"{f.q}: cell loop with {len(fl.eff)} contributions, " +
                    (f"unguarded {bad[0][1]} at {bad[0][0].loc}" if bad else "all from locally owned/ghost-checked cells"))


def summed(E, f, fr):
    """places of the buffers which f adds up over the processes"""
    out = []
    for n, op in red_calls(f):
        a = args_of(n)
        if op is None:
            o = unwrap(a[4])
            while o is not None and o.k in ("un", "cast"):
                o = unwrap(o.c[0])
            op = OPN.get(short((o.a.get("q") or o.a.get("n") or "") if o is not None else ""))
        if op != "sum":
            continue
        for x in a[:2]:
            for y in x.walk():
                if y.k in ("ref", "mem"):
                    p = E.place(y, fr)
                    if p is not None and p[0] in ("var", "this"):
                        out.append(p)
                    break
    # containers whose entries are counted into these buffers
    ch = True
    while ch:
        ch = False
        for l in f.find("rfor"):
            r = unwrap(l.c[1])
            p = E.place(r, fr) if r is not None and r.k in ("ref", "mem") else None
            if p is None or p[0] != "var" or p in out or l.c[2] is None:
                continue
            for n in l.c[2].walk():
                hit = False
                for t, kind, _ in write_targets(n):
                    q = E.place(t, fr)
                    hit |= q is not None and kind in ("+=", "++", "=") and any(prefix(o, q) for o in out)
                if hit:
                    out.append(p)
                    ch = True
                    break
    return out
