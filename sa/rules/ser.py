"""checkpoint round trip of serialised classes.

For every class of the repository with a boost serialisation member the
archive operations are extracted as a structured token sequence (helpers that
receive the archive are inlined); the rules compare it with the field list of
the class and compare the save side with the load side."""
from canon import *

AR_OPS = {"&", "<<", ">>"}

# fields that legitimately do not travel through the archive, with the reason
DERIVED_OK = {
    ("TimeIntegratorData", "scheme"): "re-created from the parameters by the restart constructor",
    ("TimeIntegratorData", "stationary_weight"): "follows from the scheme the restart constructor re-creates",
    ("TimeIntegratorData", "time"): "set by the time loop from the driver's own serialised time",
}


def is_archive_param(fn, pid):
    return fn.params and fn.params[0][1] == pid


def ser_functions(P):
    out = {}
    for f in P.fns:
        if f.n in ("serialize", "save", "load") and f.clsid and len(f.params) == 2 and "Archive" in f.params[0][2] or \
           (f.n in ("serialize", "save", "load") and f.clsid and len(f.params) == 2 and "archive" in f.params[0][2]):
            out.setdefault(f.clsid, {}).setdefault(f.n, []).append(f)
    return out


class Tok:
    def __init__(self, kind, key, ty, loc, cond, node=None, frame=None):
        self.kind, self.key, self.ty, self.loc, self.cond = kind, key, ty, loc, cond
        self.node, self.frame = node, frame

    def sig(self):
        return (self.kind, self.key, self.cond)


def archive_tokens(E, fn, fr, arplace, cond=()):
    """ordered archive operations of a function body"""
    out = []

    def stmt(n, fr, cond):
        if n is None:
            return
        k = n.k
        if k == "if":
            stmt(n.c[0], fr, cond)
            c = canon(E, n.c[1], fr) if n.c[1] is not None and n.c[1].k != "decl" else "decl"
            stmt(n.c[1], fr, cond)
            stmt(n.c[2], fr, cond + (c,))
            stmt(n.c[3], fr, cond + ("!" + c,))
            return
        if k in ("for", "while", "do", "rfor"):
            if k == "rfor":
                c = "loop:" + canon(E, n.c[1], fr)
                stmt(n.c[2], fr, cond + (c,))
            else:
                c = "loop"
                if k == "for":
                    c = "loop:" + canon(E, n.c[1], fr)
                    stmt(n.c[3], fr, cond + (c,))
                elif k == "while":
                    stmt(n.c[1], fr, cond + (c,))
                else:
                    stmt(n.c[0], fr, cond + (c,))
            return
        if k in ("bin", "call") and n.a.get("op") in AR_OPS and len(n.c) == 2:
            # left-associative chains: ar & a & b
            if reaches(n.c[0], fr):
                stmt(n.c[0], fr, cond)
                emit(n.c[1], fr, cond, n)
                return
        if k == "call" and n.c:
            if n.a.get("op") == "()" and reaches(n.c[0], fr):
                for x in n.c[1:]:
                    emit(x, fr, cond, n)
                return
            # a helper receiving the archive
            if any(reaches(x, fr) for x in n.c if x is not None):
                cal = E.callees(n, fr)
                for c in cal[:1]:
                    nf = E.inline_frame(c, n, fr)
                    if nf.depth < 12:
                        stmt(c.body if isinstance(c, Fn) else c[0].c[0], nf, cond)
                if not cal and n.a.get("dep"):
                    # unresolved (uninstantiated template): look the callee up by name in the same class
                    nm = short(n.a.get("q") or "")
                    g = [x for x in E.P.fns if x.n == nm and x.clsid == fr.fn.clsid]
                    if g:
                        nf = E.inline_frame(g[0], n, fr)
                        nf.this = fr.this
                        a = n.c[1:] if n.a.get("m") else n.c
                        for (nm2, pid, ty), x in zip(g[0].params, a):
                            nf.args[pid] = (x, fr, "X &")
                        stmt(g[0].body, nf, cond)
                return
        for c in n.c:
            stmt(c, fr, cond)

    def reaches(x, fr):
        x = unwrap(x)
        if x is None:
            return False
        if x.k in ("bin", "call") and x.a.get("op") in AR_OPS and len(x.c) == 2:
            return reaches(x.c[0], fr)
        p = E.place(x, fr)
        return p is not None and p == arplace

    def emit(x, fr, cond, n):
        y = unwrap(x)
        kind = "val"
        key = None
        if y is not None and y.k == "call":
            s = short(y.a.get("q") or "")
            if s == "base_object":
                kind, key = "base", (y.a.get("targs") or "").split("<")[0].rsplit("::", 1)[-1]
            elif s == "make_array":
                kind = "array"
                a = args_of(y)
                p = E.place(a[0], fr)
                key = place_str(p).removesuffix("[]") if p else canon(E, a[0], fr)
                out.append(Tok(kind, key, None, n.loc, cond, y, fr))
                return
            elif s == "make_nvp":
                a = args_of(y)
                z = unwrap(a[-1])
                if z is not None and z.k == "call" and short(z.a.get("q") or "") == "base_object":
                    kind, key = "base", (z.a.get("targs") or "").split("<")[0].rsplit("::", 1)[-1]
                else:
                    x = a[-1]
        if y is not None and y.k == "un" and y.a.get("op") == "*":
            z = unwrap(y.c[0])
            if z is not None and z.k == "cast":
                kind, key = "base", z.a.get("ty")
        if key is None:
            p = E.place(x, fr)
            if p is not None and p[0] in ("this", "var", "glob"):
                key = place_str(p)
            else:
                key = canon(E, x, fr)
        ty = None
        yy = unwrap(x)
        if yy is not None:
            ty = yy.a.get("ty")
        out.append(Tok(kind, key, ty, n.loc, cond, y, fr))

    stmt(fn.body, fr, cond)
    return out


def assigned_fields(E, fn, seen=None):
    """member names a function writes on *this (helpers included)"""
    seen = seen if seen is not None else set()
    if fn.id in seen:
        return set()
    seen.add(fn.id)
    fr = getattr(fn, "fr", None) or E.root(fn)
    out = set()
    for n in fn.walk():
        tgt = None
        if n.k == "bin" and n.a.get("op") in ASSIGN_OPS:
            tgt = n.c[0]
        elif n.k == "call" and n.a.get("op") in ASSIGN_OPS and n.c:
            tgt = n.c[0]
        elif n.k == "call" and n.a.get("m") and n.c and not n.a.get("const") and \
                short(n.a.get("q") or "") not in ("resize", "reserve", "shrink_to_fit"):
            tgt = n.c[0]
        elif n.k == "un" and n.a.get("op") in ("++", "--"):
            tgt = n.c[0]
        if tgt is not None:
            p = E.place(tgt, fr)
            if p and p[0] == "this" and len(p) > 1:
                out.add(p[1].lstrip("."))
        if n.k == "call" and (n.a.get("m") or n.a.get("dep")):
            o = obj_of(n)
            if o is None or o.k == "this":
                for t in (E.P.targets(n) or ([g for g in E.P.fns if n.a.get("dep") and g.clsid == fn.clsid and g.n == short(n.a.get("q") or "")])):
                    out |= assigned_fields(E, t, seen)
    return out


def members_read(E, n, fr, seen):
    out = set()
    for x in n.walk():
        if x.k == "mem":
            p = E.place(x, fr)
            if p and p[0] == "this" and len(p) > 1:
                out.add(p[1].lstrip("."))
        if x.k == "call" and (x.a.get("m") or x.a.get("dep")):
            o = obj_of(x)
            if o is None or o.k == "this":
                for t in (E.P.targets(x) or ([g for g in E.P.fns if x.a.get("dep") and g.clsid == fr.fn.clsid and g.n == short(x.a.get("q") or "")])):
                    if t.id not in seen and t.body is not None:
                        seen.add(t.id)
                        out |= members_read(E, t.body, E.root(t), seen)
    return out


def too_early(E, f, fr, toks, have, field):
    """field is recomputed on load, but only before something it is computed
    from has been read"""
    last = {}
    lines = {}
    stmts = [s for s in f.body.c if s is not None] if f.body is not None else []
    for i, s in enumerate(stmts):
        ids = {id(x) for x in s.walk()}
        for k, ts in have.items():
            if any(t.node is not None and id(t.node) in ids for t in ts):
                last[k] = i
    bad = None
    for i, s in enumerate(stmts):
        if field not in assigned_in(E, f, fr, s):
            continue
        late = [k for k in members_read(E, s, fr, set()) if last.get(k, -1) > i]
        if not late:
            return None
        bad = (s, late)
    return bad


def assigned_in(E, f, fr, s):
    class One:
        pass
    o = One()
    o.id, o.clsid, o.walk = (f.id, id(s)), f.clsid, s.walk
    o.fr = fr
    return assigned_fields(E, o)


def run(P, E, C):
    sf = ser_functions(P)
    for cid, d in sorted(sf.items()):
        recs = P.rec_by_id.get(cid)
        if not recs:
            continue
        rec = recs[0]
        cname = rec.n
        seqs = {}
        for nm, fs in d.items():
            f = fs[0]
            fr = E.root(f)
            ar = ("var", f.params[0][1], fr.uid)
            if nm == "serialize" and any(short(n.a.get("q") or "") == "split_member" for n in f.find("call")):
                continue
            seqs[nm] = (f, archive_tokens(E, f, fr, ar))
        if cname == "Problem":
            check_driver_state(P, E, C, rec, seqs)
            continue
        sides = []
        if "serialize" in seqs:
            sides.append(("serialize", *seqs["serialize"]))
        if "save" in seqs or "load" in seqs:
            for s in ("save", "load"):
                if s not in seqs:
                    C.bad("both-directions", cname, rec.loc, f"{cname} has only one of save/load")
                else:
                    sides.append((s, *seqs[s]))
        for side, f, toks in sides:
            have = {}
            for t in toks:
                if t.key.startswith("this."):
                    have.setdefault(t.key[5:].split(".")[0].split("[")[0], []).append(t)
            derived = assigned_fields(E, seqs["load"][0]) if side in ("save", "load") and "load" in seqs else \
                (assigned_fields(E, f) if side == "serialize" else set())
            # fields whose derivation happens unconditionally after the archive
            for fld in rec.fields:
                n = fld["n"]
                key = f"{cname}.{n}"
                if fld.get("static") :
                    continue
                ts = have.get(n, [])
                if ts:
                    if len(ts) > 1:
                        C.bad("once", f"{key}/{side}", ts[1].loc, f"{key} is archived {len(ts)} times in {side}")
                    elif any(not c.startswith("loop") for c in ts[0].cond) and side == "serialize":
                        C.bad("unconditional", key, ts[0].loc, f"{key} is archived only under {ts[0].cond}")
                    else:
                        C.ok("complete", ts[0].loc, f"{key} in {side}")
                elif (cname, n) in DERIVED_OK:
                    C.ok("complete-derived", f.loc, f"{key}: {DERIVED_OK[(cname, n)]}")
                elif n in derived:
                    lf, lt = seqs["load"] if "load" in seqs else (f, toks)
                    lh = {}
                    for t in lt:
                        if t.key.startswith("this."):
                            lh.setdefault(t.key[5:].split(".")[0].split("[")[0], []).append(t)
                    te = too_early(E, lf, E.root(lf), lt, lh, n)
                    C.judge(te is None, "complete-derived", key, lf.loc, f"{key}: " + ("recomputed on load" if te is None else
                            f"recomputed at {te[0].loc} before {', '.join(te[1])} has been read"))
                else:
                    C.bad("complete", key, f.loc, f"data member {key} is not archived by {f.q} and not recomputed on load: its value is lost in a restart")
            if any(b for b in rec.bases):
                for bq, bid in rec.bases:
                    b0 = bq.split("<")[0].rsplit("::", 1)[-1]
                    bt = [t for t in toks if t.kind == "base"]
                    brec = P.rec_by_id.get(bid)
                    poly = cname.startswith("Representation") or bt
                    C.judge(bool(bt), "base-object", cname, f.loc, f"{cname}::{side} archives its base-class part of {b0}")
        if "save" in seqs and "load" in seqs:
            a, b = seqs["save"][1], seqs["load"][1]
            for i in range(max(len(a), len(b))):
                x = a[i] if i < len(a) else None
                y = b[i] if i < len(b) else None
                good = x is not None and y is not None and x.sig() == y.sig()
                C.judge(good, "symmetric", f"{cname}#{(x or y).key}", (y or x).loc,
                        f"{cname}: archive position {i}: save {x.key if x else 'nothing'} / load {y.key if y else 'nothing'}")
            check_arrays(P, E, C, rec, seqs)
    check_streams(P, E, C)
    check_registration(P, E, C)
    C.need("complete", 18)
    C.need("symmetric", 2)
    C.need("driver-state", 10)
    C.need("stream", 5)


def check_arrays(P, E, C, rec, seqs):
    """make_array payloads: on load the container is resized to the length it
    had on save"""
    f, toks = seqs["load"]
    fr = E.root(f)
    # lengths the class gives the container whenever it is built
    for t in toks:
        if t.kind != "array":
            continue
        fld = t.key.removeprefix("this.")
        sizes = set()
        for g in P.fns:
            if g.clsid != rec.id:
                continue
            if g.isctor:
                for i in g.inits:
                    if i.get("n") == fld and i.get("e") is not None:
                        e = i["e"]
                        if e.k == "ctor" and e.c and not e.a.get("copy"):
                            gf = E.root(g)
                            e0 = unwrap(e.c[0])
                            if e.a.get("li"):
                                continue
                            sizes.add(canon(E, e.c[0], gf))
        res = None
        for n in f.body.walk():
            if n.k == "call" and short(n.a.get("q") or "") == "resize" and n.c:
                p = E.place(n.c[0], fr)
                if p and place_str(p) == t.key:
                    res = n
        if res is None:
            C.bad("array-length", f"{rec.n}.{fld}", t.loc, f"{rec.n}::load reads {fld} as a raw array without restoring its length")
            continue
        c = canon(E, args_of(res)[0], fr)
        archived = set(x.key for x in toks[:toks.index(t)])
        # lengths equal when the archived members are at their smallest value
        good = c in archived and any(x.key == c and ".size()" in c for x in toks) or equal_len(c, sizes)
        C.judge(good, "array-length", f"{rec.n}.{fld}", res.loc,
                f"{rec.n}::load resizes {fld} to {c}; constructors size it {sorted(sizes)}")


def equal_len(c, sizes):
    if not sizes:
        return True
    return c in sizes


def check_driver_state(P, E, C, rec, seqs):
    """every counter / state field of the driver that evolves during the run
    is archived"""
    f, toks = seqs["serialize"]
    have = set(t.key.removeprefix("this.").split(".")[0] for t in toks)
    # fields written outside constructors and outside the restart/initialise code
    written = {}
    for g in P.fns:
        if g.clsid != rec.id or g.isctor or g.n == "serialize":
            continue
        fr = E.root(g)
        for n in g.walk():
            tgt = None
            if n.k in ("bin", "call") and n.a.get("op") in ASSIGN_OPS and n.c:
                tgt = n.c[0]
            elif n.k == "un" and n.a.get("op") in ("++", "--"):
                tgt = n.c[0]
            elif n.k == "call" and n.a.get("m") and n.c and not n.a.get("const"):
                tgt = n.c[0]
            elif n.k == "call" and n.a.get("op") in ("++", "--"):
                tgt = n.c[0]
            p = E.place(tgt, fr) if tgt is not None else None
            if p and p[0] == "this" and len(p) > 1:
                written.setdefault(p[1].lstrip("."), []).append(n)
    dup = set()
    for t in toks:
        k = t.key
        if k in dup:
            C.bad("driver-state", "dup:" + k, t.loc, f"driver member {k} is archived twice")
        dup.add(k)
        if t.cond:
            C.bad("driver-state", "cond:" + k, t.loc, f"driver member {k} is archived conditionally")
    for fld in rec.fields:
        n, ty = fld["n"], fld["ty"]
        if fld.get("const") or n not in written:
            continue
        plain = fld.get("scalar") or ty.startswith(("std::map<std::string", "std::map<std::basic_string", "std::vector<", "std::pair<")) or ty in ("double", "unsigned int", "bool", "int")
        if not plain and n not in have:
            continue
        C.judge(n in have, "driver-state", n, f.loc, f"driver state Problem::{n} ({ty}) evolves during the run (e.g. {written[n][0].loc}) and is archived in serialize()")
    for t in toks:
        n = t.key.removeprefix("this.")
        if n not in written:
            C.ok("driver-state", t.loc, f"archived member {n}")


def stream_ops(P, E):
    """archive streams of the driver: file-name suffix -> ordered operations,
    separately for save and load"""
    save, load, done = {}, {}, set()
    for f in P.fns:
        if not f.file.endswith("driver.h"):
            continue
        if f.id in done:
            continue
        done.add(f.id)
        for blk in f.walk():
            if blk.k != "var" or "archive" not in (blk.a.get("ty") or ""):
                continue
            isin = "binary_iarchive" in blk.a["ty"] or "iarchive" in blk.a["ty"]
            fr = E.root(f)
            ctor = unwrap(blk.c[0]) if blk.c else None
            if ctor is None or not ctor.c:
                continue
            sp = E.place(ctor.c[0], fr)
            sv = None
            for v in f.find("var"):
                if sp and len(sp) > 1 and v.a["id"] == sp[1]:
                    sv = v
            suffix = None
            if sv is not None:
                for x in sv.walk():
                    if x.k == "lit" and x.a.get("lt") == "str":
                        suffix = x.a["v"]
            arp = ("var", blk.a["id"], fr.uid)
            toks = []
            collect_ops(E, f, fr, blk.a["id"], toks)
            (load if isin else save).setdefault(suffix, []).append((f, blk, toks))
    return save, load


def collect_ops(E, f, fr, vid, toks):
    def flat(n):
        # (a << b) << c
        if n.k in ("call", "bin") and n.a.get("op") in ("<<", ">>", "&") and len(n.c) == 2:
            b = flat(n.c[0])
            if b is not None:
                return b + [n]
        m = unwrap(n)
        if m is not None and m.k == "ref" and m.a.get("id") == vid:
            return []
        return None
    seen = set()
    for n in f.walk():
        if id(n) in seen or n.k not in ("call", "bin"):
            continue
        fl = flat(n) if n.a.get("op") in ("<<", ">>", "&") else None
        if fl:
            for x in fl:
                if id(x) not in seen:
                    seen.add(id(x))
            for x in fl:
                toks.append(x)
    return toks


def payload_type(E, n, fr):
    m = unwrap(n)
    if m is None:
        return None
    if m.k == "un" and m.a.get("op") == "*" and m.c[0].k == "this":
        return "*this"
    ty = m.a.get("ty")
    if n.k == "cast":
        ty = n.a.get("ty")
    if m.k == "this":
        return "*this"
    return norm_ty(ty)


def norm_ty(ty):
    if ty is None:
        return None
    t = ty.replace("const ", "").replace("&", "").strip()
    return {"unsigned int": "unsigned int", "dealii::types::global_dof_index": "unsigned int"}.get(t, t)


def check_streams(P, E, C):
    save, load = stream_ops(P, E)
    if not save or not load:
        raise AnalysisError("no restart archives found in the driver")
    for suf in sorted(set(save) | set(load), key=str):
        s, l = save.get(suf), load.get(suf)
        if not s or not l:
            w = (s or l)[0]
            C.bad("stream", str(suf), w[1].loc, f"restart file suffix {suf!r} is only {'written' if s else 'read'}")
            continue
        sf, sv, st = s[0]
        lf, lv, lt = l[0]
        for i in range(max(len(st), len(lt))):
            a = st[i] if i < len(st) else None
            b = lt[i] if i < len(lt) else None
            ta = payload_type(E, a.c[1], E.root(sf)) if a else None
            tb = payload_type(E, b.c[1], E.root(lf)) if b else None
            na, nb = base_name(a), base_name(b)
            good = a is not None and b is not None and ta == tb
            # items of equal type must not be exchanged
            if good and ta in ("bool", "unsigned int", "int", "double"):
                good = not crossed(i, [base_name(x) for x in st], [base_name(x) for x in lt])
            C.judge(good, "stream", f"{suf}#{i}", (b or a).loc,
                    f"restart file *{suf}, position {i}: saved {na}:{ta}, loaded {nb}:{tb}")
    # every restart file the loader opens is produced by the saver (and vice versa)
    for side in ("tria.save", "tria.load"):
        pass


def base_name(n):
    if n is None:
        return None
    m = unwrap(n.c[1])
    s = text_names(m)
    return s


def text_names(m):
    if m is None:
        return ""
    if m.k in ("mem", "ref"):
        b = text_names(m.c[0]) if m.k == "mem" and m.c else ""
        return (b + "." if b else "") + m.a.get("n", "")
    if m.k == "call":
        o = obj_of(m)
        return (text_names(unwrap(o)) + "." if o is not None else "") + short(m.a.get("q") or "") + "()"
    if m.k == "this":
        return ""
    if m.k == "un":
        return text_names(unwrap(m.c[0]))
    return m.k


SYN = [("flexible_output",), ("full_history",), ("n_ranks", "n_mpi_processes()"),
       ("n_initial_components", "n_components()"),
       ("n_blocks_per_vector", "solution.n_blocks()", "n_blocks()"),
       ("n_blocks_total", "solution_ptr.size()", "size()")]


def name_class(x):
    for i, g in enumerate(SYN):
        for y in g:
            if x == y or x.endswith("." + y) or x.endswith(y):
                return i
    return x.rsplit(".", 1)[-1]


def crossed(i, sn, ln):
    """position i carries the item of another position of the other side"""
    a = name_class(sn[i]) if i < len(sn) and sn[i] else None
    b = name_class(ln[i]) if i < len(ln) and ln[i] else None
    if a is None or b is None or a == b:
        return False
    return a in [name_class(x) for j, x in enumerate(ln) if j != i and x] or b in [name_class(x) for j, x in enumerate(sn) if j != i and x]


def check_registration(P, E, C):
    """classes behind an archived polymorphic pointer are registered with the
    archive before it is used"""
    bases = {}
    sf = ser_functions(P)
    for r in P.recs:
        for f in r.fields:
            t = f["ty"]
            if t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<"):
                inner = t[t.index("<") + 1:].split(",")[0].rstrip("> ")
                b = inner.split("<")[0].rsplit("::", 1)[-1]
                if r.id in sf:
                    for br in P.recs:
                        if br.n == b and br.abstract and br.id in sf:
                            bases[br.n] = br
    concrete = {}
    for b in bases.values():
        for r in P.recs:
            if r.n != b.n and not r.abstract and r.id in sf and derives(P, r, b):
                concrete.setdefault(r.n, r)
    save, load = stream_ops(P, E)
    for side, m in (("save", save), ("load", load)):
        for suf, lst in m.items():
            for f, var, toks in lst:
                if not any("Grain<" in (payload_type(E, t.c[1], E.root(f)) or "") for t in toks):
                    continue
                reg = set()
                for n in f.walk():
                    if n.k == "call" and short(n.a.get("q") or "") in ("register_type", "register_representations", "register_grain_types"):
                        reg |= registered(P, E, n)
                for cn, r in sorted(concrete.items()):
                    exported = any("guid_initializer" in (x or "") for x in ())
                    C.judge(cn in reg, "registered", f"{side}:{cn}", var.loc,
                            f"restart archive *{suf} ({side}): polymorphic class {cn} is registered with the archive")
    C.need("registered", 2)


def registered(P, E, n):
    out = set()
    txt = (n.a.get("targs") or "") + " " + (n.a.get("ty") or "")
    for x in n.walk():
        txt += " " + (x.a.get("ty") or "") + " " + (x.a.get("targs") or "")
    for t in P.targets(n):
        for x in t.walk():
            if x.k == "call" and short(x.a.get("q") or "") == "register_type":
                out |= registered(P, E, x)
            txt += ""
    import re
    out |= set(re.findall(r"(Representation[A-Za-z]+)", txt))
    return out


def derives(P, r, b, depth=0):
    if depth > 6:
        return False
    for bq, bid in r.bases:
        n = bq.split("<")[0].rsplit("::", 1)[-1]
        if n == b.n or bid == b.id:
            return True
        for x in P.rec_by_id.get(bid, ()):
            if derives(P, x, b, depth + 1):
                return True
        for x in P.recs:
            if x.n == n and x.id != r.id and derives(P, x, b, depth + 1):
                return True
    return False
