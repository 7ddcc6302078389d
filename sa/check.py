#!/usr/bin/env python3
"""Decide one property on /repo's current source.

  check.py <ID> [--tier quick|thorough]

exit 0  property held on every instance analysed (listed known findings are
        printed as KNOWN-FINDING lines)
exit 1  a violation that is not a listed finding
exit 2  the analysis itself failed (source not analysable, anchors vanished)
"""
import importlib, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "rules")]
VERIF = os.path.dirname(HERE)
from collections import Counter


def findings(pid):
    """lines 'finding: property=<id> rule=<rule> key=<key> :: <text>' of the
    committed file; 'fixed:' lines suppress nothing"""
    out = set()
    p = os.path.join(VERIF, "known_findings.txt")
    for ln in open(p) if os.path.exists(p) else ():
        m = re.match(r"finding: property=(\S+) rule=(\S+) key=(.*?) :: ", ln)
        if m and m.group(1) == pid:
            out.add((m.group(2), m.group(3)))
    return out


def main():
    from props import PROPS
    from engine import Engine
    from model import Prog, AnalysisError
    from common import Check
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    spec = PROPS[pid]
    C = Check(pid)
    P = Prog(only=spec["exact"]) if spec.get("exact") else Prog()
    E = Engine(P)
    C.tier = tier
    for mod, fn in spec["rules"]:
        getattr(importlib.import_module(mod), fn)(P, E, C)
    cnt = Counter(i[0] for i in C.inst)
    short = [(r, n, cnt.get(r, 0)) for r, n in C.minima if cnt.get(r, 0) < n]
    known = findings(pid)
    new, old = [], []
    for v in C.viol:
        (old if (v[0], v[1]) in known else new).append(v)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": spec["explanation"],
            "translation_units": len(P.tus),
            "functions_analysed": len(P.fns),
            "classes_analysed": len(P.recs),
            "instances": len(C.inst),
            "instances_by_rule": dict(cnt),
            "fewer_instances_than_expected": [list(x) for x in short],
            "undecided": C.notes[:60],
            "undecided_total": len(C.notes),
            "samples": [{"rule": r, "where": w, "what": t} for r, w, t in pick(C.inst)],
            "known_findings": [list(v) for v in old],
            "recovered_parse_errors": P.soft[:20],
            "extraction_s": round(P.extract_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(C.inst)} instances of {len(cnt)} rules over {len(P.fns)} functions, "
          f"{len(C.viol)} violated, {len(C.notes)} undecided, {time.time()-t0:.1f}s")
    for r, k, w, t in old:
        print(f"KNOWN-FINDING: property={pid} {t} [{w}]")
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for r, k, w, t in new:
                f.write(f"{w}: [{r}] {t}\n    instance: {k}\n")
        for r, k, w, t in new:
            print(f"  {w}: [{r}] {t}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    for r, n, k in short:
        print(f"UNDECIDED: rule {r} matched {k} instances, at least {n} were expected")
    if short and not C.inst:
        print("analysis error: nothing was analysed")
        return 2
    return 0


def pick(inst):
    seen = Counter()
    out = []
    for i in inst:
        seen[i[0]] += 1
        if seen[i[0]] <= 6 or i[2].startswith("VIOLATED"):
            out.append(i)
    return out[:80]


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
