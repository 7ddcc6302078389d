"""Scalar functions of time: interpolation and continuation, decided for
every order type of the argument among the given points."""
from absint import *


def run(P, E, C):
    fs = [f for f in P.fns if f.cls and f.cls.split("::")[-1] == "Function1DPiecewise" and not f.dep]
    val = next((f for f in fs if f.n == "value"), None)
    add = next((f for f in fs if f.n == "add_pair"), None)
    cts = [f for f in fs if f.isctor]
    if val is None:
        C.note("no piecewise function")
        return

    def build(I, n, lin, perm, how):
        xs, ys = [atom(f"x{i}") for i in range(n)], [atom(f"y{i}") for i in range(n)]
        c = next(f for f in cts if ("map" in f.params[0][2]) == (how == "map"))
        o = Obj((c.clsid, c.cargs))
        if how == "map":
            I.call_fn(c, [Box([Obj("std::pair", {"first": x, "second": y}) for x, y in zip(xs, ys)]), lin], o)
        else:
            I.call_fn(c, [lin], o)
            for i in perm:
                I.call_fn(add, [xs[i], ys[i]], o)
        return o, xs, ys

    perms = {0: [()], 1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 1, 0), (1, 2, 0), (1, 0, 2)]}
    for n in (0, 1, 2, 3):
        for lin in (False, True):
            for how in [("map", perms[n][0])] + [("add", p) for p in perms[n]]:
                if how[0] == "add" and add is None or not any(("map" in f.params[0][2]) == (how[0] == "map") for f in cts):
                    continue
                for r in range(2 * n + 1):        # before, at and between the points
                    I = Abs(P, E)
                    I.order = {f"x{i}": Fr(2 * i + 1) for i in range(n)}
                    I.order["x"] = Fr(r)
                    what = f"{n} points, {'linear' if lin else 'constant'} continuation, " + ("argument at point %d" % (r // 2) if r % 2 else "argument in interval %d" % (r // 2))
                    where = val.loc
                    try:
                        o, xs, ys = build(I, n, lin, how[1], how[0])
                        x = xs[r // 2] if r % 2 else atom("x")
                        if r % 2:
                            I.order.pop("x")
                        v = unbox(I.call_fn(val, [x], o))
                    except OutOfRange as u:
                        C.bad("piecewise", f"value:{n}:{int(lin)}:{'end' if r in (0, 2 * n) else 'inner'}", where, f"a point which does not exist is read ({what}): {u}")
                        continue
                    except Undecided as u:
                        C.note(f"{what}: {u}")
                        continue
                    if n == 0:
                        want = None
                    elif r % 2:
                        want = ys[r // 2]
                    elif n == 1:
                        want = ys[0]
                    else:
                        k = r // 2
                        if k in (0, n) and not lin:
                            want = ys[0] if k == 0 else ys[-1]
                        else:
                            i = min(max(k - 1, 0), n - 2)
                            want = ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
                    if want is None:
                        C.ok("piecewise", where, "no points: no access")
                        continue
                    good = isinstance(v, (int, Rat)) and same(rat(v), want)
                    C.judge(good, "piecewise", f"value:{int(lin)}:{'point' if r % 2 else 'end' if r in (0, 2 * n) else 'inner'}", where,
                            f"value of the piecewise linear interpolant ({what}, {how[0]} {how[1]})" if good else
                            f"the value is not that of the piecewise linear interpolant ({what}, points given by {how[0]} {how[1]})")
    C.need("piecewise", 8)
