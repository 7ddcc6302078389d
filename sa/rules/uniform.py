"""Agreement between processes: collectives are entered by all of them (M03),
reported numbers are results of reductions (M04), shared files have a single
writer (M05)."""
import taint
from taint import *
from canon import canon

_T = {}


def ranks(P, E):
    if id(P) not in _T:
        _T.clear()
        _T[id(P)] = Ranks(P, E)
    return _T[id(P)]


SCOPE = ("include/", "src/", "applications/sintering/", "applications/structural/")


def ident(f):
    return f.q


def run_collectives(P, E, C):
    T = ranks(P, E)
    seen = set()
    for f, hits in T.hits.values():
        bad = {}
        for n, c in hits:
            bad.setdefault(id(n), (n, c))
        for n in f.find("call"):
            coll = is_collective(n) or any(T.sum(t).coll for t in P.targets(n))
            if not coll and id(n) not in bad:
                continue
            q = short(n.a.get("q") or "?")
            k = (n.f, n.l, q, id(n) in bad)
            if k in seen:
                continue
            seen.add(k)
            if id(n) in bad:
                c = bad[id(n)][1]
                how = {"if": "inside a branch", "loop": "inside a loop", "ret": "after an early exit",
                       "brk": "after leaving a loop", "cnt": "after skipping an iteration", "arg": "inside the callee, behind a branch"}.get(c[2], "under control flow")
                C.bad("entered-by-all", f"{f.q}::{q}", n.loc,
                      f"collective operation {q} in {f.q} is reached {how} that depends on process-local data (decided at {c[0]})")
            else:
                C.ok("entered-by-all", n.loc, f"{q} in {f.q}")
    C.need("entered-by-all", 250)
    seen = {}
    for f, cs in T.counts.values():
        for n, l in cs:
            k = (n.f, n.l, short(n.a.get("q") or "?"))
            seen[k] = (seen.get(k, (0, f, n))[0] or "R" in l, f, n)
    for bad, f, n in seen.values():
        q = short(n.a.get("q") or "?")
        C.judge(not bad, "same-count", f"{f.q}::{q}", n.loc,
                f"number of elements {f.q} hands to {q}" + (" depends on process-local data: the processes enter the collective with different sizes" if bad else ""))
    C.need("same-count", 10)


def run_reports(P, E, C):
    T = ranks(P, E)
    seen = set()
    for f, reps in T.reports.values():
        if not f.file.startswith(SCOPE):
            continue
        for n, bad, v in reps:
            k = (n.f, n.l, v.l, bad, repr(v)[:40])
            if k in seen:
                continue
            seen.add(k)
            C.judge(not bad, "global-value", f"{f.q}::{short(n.a.get('q') or '?')}::{describe(v)}", n.loc,
                    f"value {describe(v)} reported by {f.q}" + (" depends on the cells owned by the writing process: it was not reduced over all processes" if bad else ""))
    C.need("global-value", 300)


def describe(v):
    v = unwrap(v)
    if v is None:
        return "?"
    if v.k in ("ref", "mem"):
        return v.a.get("n") or "?"
    if v.k == "call":
        o = v.c[0] if v.c else None
        if v.a.get("op") in ("[]", "()", "*") and o is not None:
            return describe(o) + "[]"
        return short(v.a.get("q") or "?")
    if v.c:
        return "/".join(describe(x) for x in v.c[:2])
    return v.k


# ---- M05 ----------------------------------------------------------------------
def rank_atom(E, f, c, pol):
    """+1: holds on one process only, -1: holds on all but one, 0: other"""
    fr = E.root(f)
    x = unwrap(c)
    while x is not None and x.k == "cast" and x.c:
        x = unwrap(x.c[0])
    if x is None:
        return 0
    x, fr = E.origin(x, fr)
    if x is None:
        return 0
    if x.k == "un" and x.a.get("op") == "!":
        y, _ = E.origin(x.c[0], fr)
        if y is not None and is_rank(y):
            return 1 if pol else -1
        return 0
    if x.k == "bin" and x.a.get("op") in ("==", "!=", ">", "<"):
        l, _ = E.origin(x.c[0], fr)
        r, _ = E.origin(x.c[1], fr)
        op = x.a["op"]
        if is_rank(r) and not is_rank(l):
            l, r = r, l
            op = {"<": ">", ">": "<"}.get(op, op)
        if l is None or not is_rank(l):
            return 0
        if op in ("==", "!="):
            return 1 if (op == "==") == pol else -1
        v = literal(r)
        if op == ">" and v == "0":
            return -1 if pol else 1
        if op == "<" and v == "1":
            return 1 if pol else -1
    if is_rank(x):
        return -1 if pol else 1
    return 0


def is_rank(n):
    return n is not None and n.k == "call" and short(n.a.get("q") or "") == "this_mpi_process"


def single(P, E, f, n, depth=0, seen=()):
    """None: written by one process, otherwise the reason"""
    atoms = [rank_atom(E, f, c, p) for c, p in all_guards(n)]
    if any(a > 0 for a in atoms):
        return None
    if any(a < 0 for a in atoms):
        return f"at {n.loc} the branch of all processes but one is taken"
    if depth > 5 or f.id in seen:
        return None
    cs = [(g, m) for g, m in P.callers().get(f.id, ()) if g.id != f.id]
    if not cs or enclosing(n, "lambda") is not None:
        return f"{f.q} writes it on every process"
    for g, m in cs:
        r = single(P, E, g, m, depth + 1, seen + (f.id,))
        if r:
            return r
    return None


WRITERS = {"write_text", "write_vtk", "write_vtu", "write_gnuplot", "write_tex", "print_parameters", "write", "print",
           "write_xdmf_file", "write_pvtu_record"}


def run_files(P, E, C):
    T = ranks(P, E)
    seen = set()
    named = {}
    for f, opens in T.opens.values():
        for n, labels, causes in opens:
            named[id(n)] = labels
    for f in P.fns:
        if not f.file.startswith(SCOPE) or "throughput" in f.file:
            continue
        for v in f.find("var"):
            if "ofstream" not in (v.a.get("ty") or "") or is_ref_type(v.a.get("ty")):
                continue
            n = v
            labels = E0
            for x in v.walk():
                labels |= named.get(id(x), E0)
            k = (n.f, n.l)
            if k in seen:
                continue
            seen.add(k)
            if "R" in labels:
                C.ok("single-writer", n.loc, f"{f.q}: the name of {v.a.get('n')} differs between processes")
                continue
            # per-process names handed in by every caller
            if any(isinstance(l, int) and l >= 0 for l in labels) and per_process(P, E, T, f, labels):
                C.ok("single-writer", n.loc, f"{f.q}: every caller passes a per-process name")
                continue
            w = writes(P, E, f, v)
            if not w:
                C.note(f"no write to the file opened at {n.loc}")
                continue
            bad = None
            for x in w:
                bad = bad or single(P, E, f, x)
            for x in [] if bad else truncations(f, v):
                bad = single(P, E, f, x)
                if bad:
                    bad = "its content is discarded by every process that opens it: " + bad
                    break
            C.judge(not bad, "single-writer", f"{f.q}::{v.a.get('n')}", n.loc,
                    f"file {v.a.get('n')} opened in {f.q} has one writer" if not bad else
                    f"file {v.a.get('n')} opened in {f.q} has the same name on all processes, but {bad}")
    C.need("single-writer", 4)


def per_process(P, E, T, f, labels):
    return False


def truncations(f, v):
    """places at which the file of stream v is opened with its content discarded"""
    keeps = lambda n: any(y.k in ("ref", "mem") and y.a.get("n") in ("app", "ate", "in", "_S_app", "_S_in", "_S_ate") for x in n.c if x is not None for y in x.walk())
    out = []
    i = v.c[0] if v.c else None
    while i is not None and i.k == "cast":
        i = i.c[0]
    if i is not None and i.k == "ctor" and any(x is not None and x.k != "defarg" for x in i.c) and not keeps(i):
        out.append(v)
    for n in f.find("call"):
        if n.a.get("m") and short(n.a.get("q") or "") == "open":
            o = unwrap(obj_of(n))
            if o is not None and o.k == "ref" and o.a.get("id") == v.a["id"] and not keeps(n):
                out.append(n)
    return out


def writes(P, E, f, v):
    """output operations on stream v (or on archives built on it)"""
    ids = {v.a["id"]}
    for n in f.find("var"):
        if n.c and n.c[0] is not None and n.c[0].k == "ctor" and any(
                unwrap(x) is not None and unwrap(x).k == "ref" and unwrap(x).a.get("id") in ids for x in n.c[0].c):
            ids.add(n.a["id"])
    out = []
    for n in f.find("call"):
        x = n
        if n.a.get("op") in ("<<", "&") and n.c:
            x = unwrap(n.c[0])
            while x is not None and x.k == "call" and x.a.get("op") in ("<<", "&") and x.c:
                x = unwrap(x.c[0])
            if x is not None and x.k == "ref" and x.a.get("id") in ids:
                out.append(n)
        else:
            for y in args_of(n):
                y = unwrap(y)
                if y is not None and y.k == "ref" and y.a.get("id") in ids and not n.a.get("opc"):
                    out.append(n)
    return out


# ---- M06: replicated state -------------------------------------------------------
# classes whose members describe the global simulation; every process holds a copy
REPLICATED = {"Tracker", "Grain", "Segment", "RepresentationSpherical", "RepresentationElliptical",
              "RepresentationWavefront", "Ellipsoid", "Problem", "TimeIntegratorData", "AdvectionMechanism",
              "Motion", "Dynamics", "RemapGraph", "PeriodicityGraph", "SteppingWindow", "SimulationStats"}
# members that are local by design: one line of reason each
LOCAL_MEMBERS = {}


def run_replicated(P, E, C):
    T = ranks(P, E)
    seen = set()
    for r in P.recs:
        c = r.q.rsplit("::", 1)[-1].split("<")[0]
        if c not in REPLICATED or not r.file.startswith(SCOPE):
            continue
        for f in r.fields:
            k = (r.q.split("<")[0], f["n"])
            if k in seen or not carries(f["ty"]):
                continue
            seen.add(k)
            bad = (r.id, "." + f["n"]) in T.fieldn and (c, f["n"]) not in LOCAL_MEMBERS
            w = T.fieldw.get((r.id, "." + f["n"]))
            C.judge(not bad, "replicated", f"{k[0]}::{f['n']}", w[1] if bad and w else f"{r.file}:{f.get('l', r.l)}",
                    f"member {f['n']} of {c}" + (f" is the same on all processes by contract, but {w[0] if w else 'it'} stores a value that depends on the cells owned by the process" if bad else ""))
    C.need("replicated", 40)
