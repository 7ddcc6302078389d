#!/usr/bin/env python3
"""Run the fact extractor over hpsint's translation units (parallel, cached by
content hash of every input) and return the list of fact files."""
import concurrent.futures as cf
import hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SA = os.path.join(VERIF, "sa")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))
REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(SA, "tool/facts.cpp")
    exe = os.path.join(BUILD, "facts")
    stamp = exe + ".stamp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        tmp = exe + f".{os.getpid()}"
        r = sh(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w",
                "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
                "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        if r.returncode:
            raise AnalysisError("cannot build the fact extractor:\n" + r.stdout)
        os.replace(tmp, exe)
        open(stamp, "w").write(h)
    ov = os.path.join(BUILD, "overlay")
    gen = os.path.join(SA, "gen_overlay.py")
    h = hashlib.sha256(open(gen, "rb").read()).hexdigest()
    st = os.path.join(BUILD, "overlay.stamp")
    if not (os.path.exists(st) and open(st).read() == h):
        r = sh([sys.executable, gen, ov])
        if r.returncode:
            raise AnalysisError("cannot generate the declaration overlay:\n" + r.stdout)
        open(st, "w").write(h)
    return exe, ov


SYS = ["/usr/lib/x86_64-linux-gnu/openmpi/include",
       "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "/usr/include/petsc", "/usr/include/trilinos", "/usr/include/hdf5/openmpi",
       "/usr/include/scotch", "/usr/include/suitesparse",
       "/usr/include/opencascade", "/usr/include/slepc"]


def flags(ov):
    f = ["-w", "-std=gnu++20", "-DNDEBUG", "-DOUTPUT_FOLDER_SUFFIX=release",
         "-fno-color-diagnostics", "-ferror-limit=20"]
    for d in ("applications/sintering/include", "applications/structural/include",
              "include"):
        f.append("-I" + os.path.join(REPO, d))
    f += ["-isystem", ov]
    for s in SYS:
        f += ["-isystem", s]
    return f


S = "applications/sintering/"
TUS = [
    # name, source, defines
    ("generic2s", S + "sintering_generic.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2"]),
    ("generic2t", S + "sintering_generic.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2", "WITH_TENSORIAL_MOBILITY"]),
    ("gp2", S + "grand_potential_greenquist.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2"]),
    ("gg2", S + "grain_growth.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2"]),
    ("thr", S + "sintering_throughput.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2"]),
    ("gtthr", S + "grain_tracker_throughput.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2"]),
    ("particles", S + "sintering_print_particles.cc", ["SINTERING_DIM=2"]),
    ("instc", "@inst/instc.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2"]),
    ("instx", "@inst/instx.cc", []),
    ("insta", "@inst/insta.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2", "SA_EXACT"]),
    ("instb", "@inst/instb.cc", ["SINTERING_DIM=2", "MAX_SINTERING_GRAINS=2", "SA_EXACT"]),
    ("inst3", "@inst/inst3.cc", ["SINTERING_DIM=3", "MAX_SINTERING_GRAINS=2", "WITH_TENSORIAL_MOBILITY"]),
]


def all_tus():
    tus = list(TUS)
    for base in ("src", S + "src"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                if f.endswith(".cc"):
                    p = os.path.relpath(os.path.join(d, f), REPO)
                    tus.append((p.replace("/", "_"), p, ["MAX_SINTERING_GRAINS=2"]))
    for b in ("applications/structural", "applications/allen_cahn",
              "applications/cahn_hilliard", "applications/grand_potential"):
        d = os.path.join(REPO, b)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            if f.endswith(".cc") and f != "dummy.cc":
                p = b + "/" + f
                tus.append((p.replace("/", "_"), p, []))
    return tus


def repo_sources():
    out = []
    for base in ("include", "src", "applications", "inst.cc"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        for d, _, fs in os.walk(p):
            for f in fs:
                if f.endswith((".h", ".cc", ".hpp", ".cpp", ".in")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def content_key():
    h = hashlib.sha256()
    for p in repo_sources():
        h.update(os.path.relpath(p, REPO).encode())
        h.update(b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    for p in ["tool/facts.cpp", "gen_overlay.py", "extract.py"] + ["inst/" + x for x in sorted(os.listdir(os.path.join(SA, "inst"))) if x.endswith(".cc")]:
        h.update(open(os.path.join(SA, p), "rb").read())
    return h.hexdigest()[:24]


def run_one(exe, ov, name, src, defs, out):
    if src.startswith("@"):
        path = os.path.join(SA, src[1:])
    else:
        path = os.path.join(REPO, src)
    if not os.path.exists(path):
        return name, f"source file missing: {path}"
    tmp = out + f".{os.getpid()}.tmp"
    cmd = [exe, REPO, os.path.join(SA, "inst"), tmp, path, "--",
           "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + flags(ov) + \
          ["-D" + d for d in defs]
    for attempt in range(4):
        r = sh(cmd)
        if r.returncode >= 0:
            break
        # ended by a signal (memory): nothing it left is complete
        if os.path.exists(tmp):
            os.unlink(tmp)
        time.sleep(5 * (attempt + 1))
    if r.returncode < 0:
        return name, f"the fact extractor was ended by signal {-r.returncode}\n" + r.stdout[-4000:]
    errs = [l for l in r.stdout.split("\n") if " error: " in l or "fatal error" in l]
    if not os.path.exists(tmp) or any("fatal error" in l or "too many errors" in l for l in errs) \
            or len(errs) > 12:
        return name, r.stdout[-4000:] or f"the fact extractor failed with status {r.returncode}"
    if r.returncode:
        # the front end recovered: the facts stay usable, the errors are reported
        open(out + ".err", "w").write("\n".join(errs))
    os.replace(tmp, out)
    return name, None


def facts(only=None):
    """-> (dict name -> fact file, elapsed); units with one fact per
    instantiation are only loaded when asked for.  Raises AnalysisError when any
    translation unit cannot be type-checked."""
    t0 = time.time()
    exe, ov = build_tool()
    key = content_key()
    d = os.path.join(BUILD, "facts-" + key)
    os.makedirs(d, exist_ok=True)
    res, jobs = {}, []
    for name, src, defs in all_tus():
        if name not in only if only else "SA_EXACT" in defs:
            continue
        out = os.path.join(d, name + ".jsonl")
        res[name] = out
        if not os.path.exists(out):
            jobs.append((name, src, defs, out))
    errs, soft = [], []
    if jobs:
        with cf.ThreadPoolExecutor(8) as ex:
            for name, e in ex.map(lambda j: run_one(exe, ov, *j), jobs):
                if e:
                    errs.append((name, e))
    for name, e in errs:
        if name.startswith("inst") and not only and "signal" not in e:
            soft.append(f"[{name}] skipped: {e[-300:]}")
            res.pop(name)
        else:
            raise AnalysisError(f"translation unit {name} does not type-check:\n{e}")
    for name, out in res.items():
        if os.path.exists(out + ".err"):
            soft.append(f"[{name}] {open(out + '.err').read()[:600]}")
    facts.soft = soft
    # keep the cache small
    ds = sorted((os.path.getmtime(os.path.join(BUILD, x)), x) for x in os.listdir(BUILD)
                if x.startswith("facts-"))
    for _, x in ds[:-int(os.environ.get("SA_KEEP", 4))]:
        p = os.path.join(BUILD, x)
        if p != d:
            for f in os.listdir(p):
                os.unlink(os.path.join(p, f))
            os.rmdir(p)
    return res, key, time.time() - t0


if __name__ == "__main__":
    try:
        r, key, t = facts()
        print(len(r), "translation units,", key, f"{t:.1f}s")
    except AnalysisError as e:
        print(e)
        sys.exit(3)
