"""N02: Python saturation / wrapping is exact, and warnings are raised exactly when a value does not fit."""
import time
import numpy as np
from fxv import ref, harness as H

PID = "N02"


def units():
    us = []
    small = ref.small_formats(6 if not H.THOROUGH else 8)
    for a in small:
        for S in (0, 1):
            for Ib in range(-a[2], 7):
                us.append(("s", a, (S, Ib, a[2])))
    for a in ref.small_formats(3):
        for S in (0, 1):
            for w in (8, 31, 32, 33, 52, 53, 54, 63, 64, 65, 130):
                us.append(("s", a, (S, w - S - a[2], a[2])))
    for a in ref.edge_formats(splits=("mid", "int", "frac", "neg_i", "neg_f")):
        w = ref.width(a)
        for S in (0, 1):
            ns = {0, 1, 2, a[1] + a[2] - 2, a[1] + a[2] - 1, a[1] + a[2], a[1] + a[2] + 1, 31, 32, 33, 51, 52, 53, 54, 62, 63, 64, 65, (a[1] + a[2]) // 2}
            for n in sorted(ns):
                if n >= 0:
                    us.append(("e", a, (S, n - a[2], a[2])))
    return us


def work(us):
    from fxv import pyimpl as I, pycheck as C
    R = H.Result()
    for kind, a, r in us:
        vals = ref.all_values(a) if kind == "s" else ref.corner_values(a, targets=(r,))
        v = ref.arr(vals, max(ref.width(a), ref.width(r)) + 3)
        oor = ref.out_of_range(v, r)
        inside = v[~oor]
        data, din = I.enc(v, a), (I.enc(inside, a) if inside.size else None)
        R.states += len(vals) * 4
        for s in ref.SAT:
            exp = ref.saturate_int(v, r, s)
            warns = s in ("Warn_s", "SatWarn_s")
            case = {"call": "cl_fix_saturate", "a_fmt": a, "r_fmt": r, "sat": s}
            args = (I.fmt(a), I.fmt(r), I.sat(s))
            C.run(R, "cl_fix_saturate", case, I.P.cl_fix_saturate, (data,) + args, exp, r, warn=warns and bool(oor.any()), sample=True)
            if din is not None and oor.any():
                C.run(R, "cl_fix_saturate(in range)", dict(case, values="in range only"), I.P.cl_fix_saturate, (din,) + args, inside, r, warn=False)
            # each bound separately: exactly one offending element among fitting ones
            pick = []
            below, above = v[v < ref.vmin(r)], v[v > ref.vmax(r)]
            if below.size:
                pick += [int(below[-1]), int(below[0])]
            if above.size:
                pick += [int(above[0]), int(above[-1])]
            pick = pick[::2] if (kind == "s" and not H.THOROUGH) else pick
            if inside.size:
                pick += [int(inside[0]), int(inside[-1])]
            if kind == "e":
                pick += C.spread(vals, 5)
            for x in dict.fromkeys(pick):
                e = ref.saturate_int(int(x), r, s)
                w = warns and bool(ref.out_of_range(int(x), r))
                for nm, sc in C.forms(x, a)[:(2 if (kind == "e" or H.THOROUGH) else 1)]:
                    C.run(R, "cl_fix_saturate " + nm, dict(case, a=x, form=nm), I.P.cl_fix_saturate, (sc,) + args, e, r, warn=w)
                if inside.size and w:
                    mix = ref.arr([int(inside[0]), x, int(inside[-1])], ref.width(a) + 3)
                    C.run(R, "cl_fix_saturate mixed", dict(case, a=[int(i) for i in mix]), I.P.cl_fix_saturate, (I.enc(mix, a),) + args, ref.saturate_int(mix, r, s), r, warn=True)
    return R


def main():
    t0 = time.time()
    res = H.pool_map("checks.N02", "work", H.chunks(units(), 64))
    return H.finish(PID, res, t0, True, ["saturation warnings are warnings issued through the warnings module other than precision notices"],
                    "all values of every format of width<=%d (I,F in [-3,4]) x every target S,I x 4 modes; boundary alphabets at widths up to 256" % (8 if H.THOROUGH else 6))
