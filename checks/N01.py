"""N01: Python rounding is exact in every mode, for every width."""
import time
import numpy as np
from fxv import ref, harness as H

PID = "N01"


def units():
    us = []
    small = ref.small_formats(7 if not H.THOROUGH else 9)
    for f in small:
        lo, hi = (-6, 7) if not H.THOROUGH else (-10, 10)
        us += [("s", f, rF) for rF in range(lo, hi + 1)]
    # long cuts of small formats (result far coarser / finer than the input)
    for f in ref.small_formats(3):
        us += [("s", f, f[2] + d) for d in (-70, -54, -53, -33, -32, -20, 40, 52, 53, 60)]
    gaps = (1, 2, 3, 5, 8, 15, 16, 17, 29, 30, 31, 32, 33, 51, 52, 53, 54, 62, 63, 64, 65, 100, 128)
    for f in ref.edge_formats(splits=("mid", "int", "frac", "neg_i", "neg_f") if H.THOROUGH else ("mid", "neg_i", "neg_f")):
        w = ref.width(f)
        for g in gaps:
            if g <= w + 2:
                us.append(("e", f, f[2] - g))
        us += [("e", f, f[2] - w), ("e", f, f[2] - w + 1), ("e", f, f[2]), ("e", f, f[2] + 1), ("e", f, f[2] + 11)]
    # results straddling the narrow/wide representation boundary
    return us


def work(us):
    from fxv import pyimpl as I
    R = H.Result()
    for kind, f, rF in us:
        cut = f[2] - rF
        vals = ref.all_values(f) if kind == "s" else ref.corner_values(f, cuts=(cut,))
        bits = ref.width(f) + max(0, -cut) + max(0, cut) + 4
        v = ref.arr(vals, bits)
        data = I.enc(v, f)
        R.states += len(vals) * 7
        for rnd in ref.RND:
            r = ref.round_fmt(f, rF, rnd)
            if not exponent_ok(r):
                continue
            exp = ref.round_int(v, f[2], rF, rnd)
            case = {"call": "cl_fix_round", "a_fmt": f, "r_fmt": r, "rnd": rnd}
            try:
                rf = I.P.cl_fix_round_fmt(I.fmt(f), rF, I.rnd(rnd))
                out, _, _ = I.call(I.P.cl_fix_round, data, I.fmt(f), rf, I.rnd(rnd))
            except Exception as e:
                R.bad("exc", "cl_fix_round %s->%s %s raised %s" % (f, r, rnd, e), dict(case, error=str(e)))
                continue
            d = I.compare(out, exp, I.tup(rf)) if I.tup(rf)[2] == rF else ("format", I.tup(rf), r)
            R.transitions += len(vals)
            R.traces += 1
            if d is not None:
                x = dict(case, diff=d)
                if d[0] == "value":
                    x["a"] = vals[d[1]]; x["expected"] = exp[d[1]]
                R.bad("value", "cl_fix_round %s->%s %s: %s (input integer %s)" % (f, r, rnd, d, x.get("a")), x)
            elif len(R.samples) < 1 and cut > 0:
                R.samples.append(dict(case, a=vals[len(vals) // 3], result=str(np.asarray(out)[len(vals) // 3])))
        # scalar and zero-dimensional inputs take different code paths in numpy
        for rnd in ref.RND:
            r = ref.round_fmt(f, rF, rnd)
            if not exponent_ok(r):
                continue
            pick = [vals[0], vals[-1], vals[len(vals) // 2], vals[len(vals) // 3]]
            if kind == "e":
                pick += vals[1:len(vals):max(1, len(vals) // 6)]
            if kind == "s" and not H.THOROUGH:
                pick = pick[:2]
            for x in pick:
                e = int(ref.round_int(int(x), f[2], rF, rnd))
                sc = I.enc(int(x), f)
                forms = (sc, np.array(sc, dtype=object) if ref.is_wide(f) else np.array(sc))
                for form in forms:
                    R.transitions += 1
                    R.traces += 1
                    try:
                        rf = I.P.cl_fix_round_fmt(I.fmt(f), rF, I.rnd(rnd))
                        out, _, _ = I.call(I.P.cl_fix_round, form, I.fmt(f), rf, I.rnd(rnd))
                        d = I.compare(out, e, r)
                    except I.ImplError as ex:
                        d = ("exc", str(ex))
                    if d is not None:
                        R.bad("scalar", "cl_fix_round scalar %s(int %d) %s->%s %s: %s" % (type(form).__name__, x, f, r, rnd, d),
                              {"call": "cl_fix_round", "a_fmt": f, "r_fmt": r, "rnd": rnd, "a": x, "expected": e, "diff": d,
                               "form": type(form).__name__})
    return R


def exponent_ok(r):
    return abs(r[1]) < 900 and abs(r[2]) < 900


def main():
    t0 = time.time()
    us = units()
    res = H.pool_map("checks.N01", "work", H.chunks(us, 64))
    return H.finish(PID, res, t0, True, ["reference rounding written on integers with floor division (fxv/ref.py)"],
                    "all values of every format of width<=%d with I,F in [-3,4] x every result F in range x 7 modes; boundary alphabets at %d widths up to 256 bits" % (9 if H.THOROUGH else 7, len(ref.EDGE_WIDTHS)))
