"""N06: Python real/integer conversions: exact, half-up, saturating, with warnings exactly out of range; round trips."""
import time, random
from fractions import Fraction
import numpy as np
from fxv import ref, reals, harness as H

PID = "N06"


def units():
    us = []
    for f in ref.small_formats(6 if not H.THOROUGH else 8, -4, 5, -4, 5):
        us.append(("s", f))
    for f in ref.small_formats(3):
        for g in (60, -60, 33, -33):
            us.append(("s", (f[0], f[1] + g, f[2] - g)))
    sp = ("mid", "int", "frac", "neg_i", "neg_f")
    for f in ref.edge_formats(splits=sp):
        us.append(("e", f))
    if H.THOROUGH:
        for w in range(9, 140):
            us += [("e", f) for f in ref.edge_formats(widths=(w,), splits=sp)]
    return us


def work(us):
    from fxv import pyimpl as I, pycheck as C
    P = I.P
    R = H.Result()
    for kind, f in us:
        lo, hi = ref.vmin(f), ref.vmax(f)
        bits = ref.width(f) + 4
        lsb = Fraction(2) ** (-f[2])
        # ---- real -> fixed
        xs = reals.real_alphabet(f, kind == "s")
        q = [reals.half_up(x, f[2]) for x in xs]
        exp_l = [max(lo, min(hi, v)) for v in q]
        oor = [Fraction(x) < lo * lsb or Fraction(x) > hi * lsb for x in xs]
        X = np.array(xs)
        E = ref.arr(exp_l, bits)
        R.states += len(xs)
        F = I.fmt(f)
        for s in ("Sat_s", "SatWarn_s"):
            case = {"call": "cl_fix_from_real", "r_fmt": f, "sat": s}
            C.run(R, "cl_fix_from_real", case, P.cl_fix_from_real, (X, F, I.sat(s)), E, f, warn=s == "SatWarn_s" and any(oor), sample=True)
            inside = [i for i in range(len(xs)) if not oor[i]]
            if inside and s == "SatWarn_s":
                C.run(R, "cl_fix_from_real(in range)", case, P.cl_fix_from_real, (X[inside], F, I.sat(s)), E[inside], f, warn=False)
            picks = range(len(xs)) if (H.THOROUGH and len(xs) < 400) else sorted({int(round(i)) for i in np.linspace(0, len(xs) - 1, 14)} | near(oor))
            for i in picks:
                w = s == "SatWarn_s" and oor[i]
                c = dict(case, a=xs[i].hex())
                C.run(R, "cl_fix_from_real scalar", c, P.cl_fix_from_real, (float(xs[i]), F, I.sat(s)), int(exp_l[i]), f, warn=w)
                C.run(R, "cl_fix_from_real 0-d", c, P.cl_fix_from_real, (np.array(xs[i]), F, I.sat(s)), int(exp_l[i]), f, warn=w)
        C.run(R, "cl_fix_from_real(default)", {"call": "cl_fix_from_real", "r_fmt": f}, P.cl_fix_from_real, (X, F), E, f, warn=any(oor))
        C.run(R, "cl_fix_from_real(list)", {"call": "cl_fix_from_real", "r_fmt": f, "form": "list"}, P.cl_fix_from_real, (list(xs), F), E, f, warn=any(oor))
        for s in ("None_s", "Warn_s"):          # wrapping is documented as unsupported: it must be refused, not mis-done
            R.transitions += 1; R.traces += 1
            try:
                P.cl_fix_from_real(np.array([0.0]), F, I.sat(s))
                R.bad("accept", "cl_fix_from_real accepted %s" % s, {"r_fmt": f, "sat": s})
            except NotImplementedError:
                pass
            except Exception as e:
                R.bad("exc", "cl_fix_from_real %s raised %r" % (s, e), {"r_fmt": f, "sat": s})
        # ---- fixed -> real
        vals = ref.all_values(f) if kind == "s" else ref.corner_values(f)
        V = ref.arr(vals, bits)
        D = I.enc(V, f)
        R.states += len(vals)
        nd = [reals.nearest_double(v, f[2]) for v in vals]
        if all(d is not None for d in nd):
            real_out(R, I, {"call": "cl_fix_to_real", "a_fmt": f}, (D, F), np.array(nd), vals, f)
            for v in C.spread(vals, 4):
                for nm, sc in C.forms(v, f):
                    real_out(R, I, {"call": "cl_fix_to_real", "a_fmt": f, "a": v, "form": nm}, (sc, F), reals.nearest_double(v, f[2]), [v], f)
            if ref.is_wide(f):          # the bound from which doubles become inexact, one number at a time
                for v in sorted({sg * (2 ** k + d) for sg in (1, -1) for k in (52, 53, 54, 55, 60) for d in (-1, 0, 1, 2, 3)}):
                    if lo <= v <= hi:
                        dv = reals.nearest_double(v, f[2])
                        for nm, sc in C.forms(v, f):
                            real_out(R, I, {"call": "cl_fix_to_real", "a_fmt": f, "a": v, "form": nm}, (sc, F), dv, [v], f)
                        x = I.enc(ref.arr([0, v], bits), f)
                        real_out(R, I, {"call": "cl_fix_to_real", "a_fmt": f, "a": v, "form": "array"}, (x, F), np.array([0.0, dv]), [0, v], f)
            # ---- round trip through real where a double can hold the value
            ok = [i for i, v in enumerate(vals) if Fraction(nd[i]) == Fraction(v) * lsb]
            if ok:
                C.run(R, "from_real(to_real(x))", {"call": "round trip real", "fmt": f}, lambda d, g: P.cl_fix_from_real(P.cl_fix_to_real(d, g), g, I.sat("Sat_s")),
                      (I.enc(V[ok], f), F), V[ok], f)
        # ---- integers
        VI = V if V.dtype == object else V
        C.run(R, "cl_fix_from_integer", {"call": "cl_fix_from_integer", "fmt": f}, P.cl_fix_from_integer, (VI, F), V, f)
        if ref.width(f) <= 62 and V.dtype == object:
            C.run(R, "cl_fix_from_integer int64", {"call": "cl_fix_from_integer", "fmt": f, "form": "int64"}, P.cl_fix_from_integer, (np.array(vals, dtype=np.int64), F), V, f)
        int_out(R, I, {"call": "cl_fix_to_integer", "fmt": f}, (D, F), vals)
        for v in C.spread(vals, 4):
            C.run(R, "cl_fix_from_integer scalar", {"call": "cl_fix_from_integer", "fmt": f, "a": v}, P.cl_fix_from_integer, (int(v), F), int(v), f)
            for nm, sc in C.forms(v, f):
                int_out(R, I, {"call": "cl_fix_to_integer", "fmt": f, "form": nm}, (sc, F), int(v))
        for bad in (lo - 1, hi + 1, lo - 2, hi + 2, 2 * hi + 2, 2 * lo - 1, hi * 4 + 7, -(hi * 4) - 9):
            forms = [int(bad)]
            if abs(bad) < 2 ** 62:
                forms += [np.array([0, bad], dtype=np.int64), np.array([bad], dtype=np.int64)]
            for x in forms:
                R.transitions += 1; R.traces += 1
                try:
                    out = P.cl_fix_from_integer(x, F)
                    R.bad("range", "cl_fix_from_integer(%s, %s) accepted -> %s" % (x, f, out), {"fmt": f, "a": bad})
                except ValueError:
                    pass
                except Exception as e:
                    R.bad("exc", "cl_fix_from_integer(%s, %s) raised %r" % (x, f, e), {"fmt": f, "a": bad})
        input_forms(R, I, C, f, lo, hi)
        # ---- extremes, zeros, random
        C.run(R, "cl_fix_max_value", {"call": "cl_fix_max_value", "fmt": f}, P.cl_fix_max_value, (F,), hi, f)
        C.run(R, "cl_fix_min_value", {"call": "cl_fix_min_value", "fmt": f}, P.cl_fix_min_value, (F,), lo, f)
        for shape in ((), (1,), (3, 2), 4):
            C.run(R, "cl_fix_zeros", {"call": "cl_fix_zeros", "fmt": f, "shape": shape}, P.cl_fix_zeros, (shape, F), np.zeros(shape, dtype=object) if shape != () else 0, f)
            try:
                r = np.asarray(P.cl_fix_random(shape, F))
                e = I.check_repr(r, f)
                t = np.ldexp(r, f[2]) if not ref.is_wide(f) else r
                want = (shape,) if isinstance(shape, int) else shape
                if e or r.shape != want or any(int(x) != x or not (lo <= int(x) <= hi) for x in np.asarray(t).reshape(-1)):
                    R.bad("random", "cl_fix_random %s %s -> %s %s" % (shape, f, r, e), {"fmt": f, "shape": shape})
            except Exception as e:
                R.bad("exc", "cl_fix_random %s %s raised %r" % (shape, f, e), {"fmt": f, "shape": shape})
            R.transitions += 1; R.traces += 1
        if ref.width(f) <= 3:
            # the whole representable range is drawn (2000 draws over at most 8 values)
            np.random.seed(H.SEED); random.seed(H.SEED)
            R.transitions += 1; R.traces += 1
            try:
                got = {int(x) for x in np.ldexp(np.asarray(P.cl_fix_random((2000,), F), dtype=float), f[2])}
            except Exception as e:
                R.bad("exc", "cl_fix_random %s raised %r" % (f, e), {"fmt": f})
                continue
            if got != set(range(lo, hi + 1)):
                R.bad("random", "cl_fix_random %s draws only %s" % (f, sorted(got)), {"fmt": f, "values": sorted(got)})
    return R


INTS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "object", ">i4", "<u2", ">i8")
REALS = ("int8", "uint8", "int16", "int32", "uint32", "int64", "float32", ">f4", ">f8", "<f8", "bool")


def input_forms(R, I, C, f, lo, hi):
    """Every numpy element type (and byte order) a caller may hold integers or reals in, as array, strided array, 0-d, numpy scalar."""
    P, F = I.P, I.fmt(f)
    lsb = Fraction(2) ** (-f[2])

    def containers(vals, dt):
        d = np.dtype(dt)
        a = np.array(vals, dtype=d)
        e = np.empty(len(vals), dtype=object); e[:] = [int(v) if d.kind not in "f" else v for v in vals]
        yield "array", a, e
        if d.kind != "O":
            z = np.zeros(2 * len(vals), dtype=d); z[::2] = a
            yield "strided", z[::2], e
            yield "2d", a.reshape(1, -1, 1), e.reshape(1, -1, 1)
            for v in {vals[0], vals[-1]}:
                yield "0-d", np.array(v, dtype=d), v
                yield "numpy scalar", d.type(v), v

    for dt in INTS:
        d = np.dtype(dt)
        a, b = (lo, hi) if d.kind == "O" else (np.iinfo(d).min, np.iinfo(d).max)
        vals = sorted({v for v in (lo, lo + 1, a, -1, 0, 1, b, hi - 1, hi, lo // 2, hi // 2, hi // 3) if lo <= v <= hi and a <= v <= b})
        if not vals:
            continue
        for nm, x, e in containers(vals, dt):
            e = e if isinstance(e, np.ndarray) else int(e)
            C.run(R, "cl_fix_from_integer(%s %s)" % (dt, nm), {"call": "cl_fix_from_integer", "fmt": f, "dtype": dt, "form": nm}, P.cl_fix_from_integer, (x, F), e, f)
        for bad in (lo - 1, hi + 1, a, b):
            if a <= bad <= b and not lo <= bad <= hi:
                for x in (np.array([vals[0], bad], dtype=d), d.type(bad)) if d.kind != "O" else (np.array([vals[0], bad], dtype=object),):
                    R.transitions += 1; R.traces += 1
                    try:
                        out = P.cl_fix_from_integer(x, F)
                        R.bad("range", "cl_fix_from_integer(%r, %s) accepted -> %s" % (x, f, out), {"fmt": f, "a": bad, "dtype": dt})
                    except ValueError:
                        pass
                    except Exception as ex:
                        R.bad("exc", "cl_fix_from_integer(%r, %s) raised %r" % (x, f, ex), {"fmt": f, "a": bad, "dtype": dt})
    if not ref.is_wide(f):
        vals = sorted({lo, lo // 2, 0, hi // 2, hi})
        V = ref.arr(vals, ref.width(f) + 4)
        C.run(R, "cl_fix_from_integer(list)", {"call": "cl_fix_from_integer", "fmt": f, "form": "list"}, P.cl_fix_from_integer, ([int(v) for v in vals], F), V, f)
    for dt in REALS:
        d = np.dtype(dt)
        if d.itemsize == 4 and d.kind == "f" and abs(f[2]) > 60:
            continue                # the scaled value need not fit a 32-bit float
        if d.kind == "f":
            mx = Fraction(float(np.finfo(d).max))
            cand = [Fraction(k) * lsb / 4 for k in (4 * lo - 6, 4 * lo, 4 * lo + 2, -3, -2, -1, 0, 1, 2, 3, 4 * hi - 2, 4 * hi, 4 * hi + 1, 4 * hi + 9)]
            vals = sorted({float(d.type(float(c))) for c in cand if abs(c) < min(mx, Fraction(2) ** 1000)})
        elif d.kind == "b":
            vals = [0, 1]
        else:
            i = np.iinfo(d)
            vals = sorted({v for v in (i.min, i.min + 1, -3, -1, 0, 1, 2, 77, i.max - 1, i.max) if i.min <= v <= i.max and abs(v) <= 2 ** 53})
        q = {v: max(lo, min(hi, reals.half_up(float(v), f[2]))) for v in vals}
        o = {v: not lo * lsb <= Fraction(v) <= hi * lsb for v in vals}
        for nm, x, e in containers(vals, dt):
            ee = ref.arr([q[v] for v in vals], ref.width(f) + 4).reshape(e.shape) if isinstance(e, np.ndarray) else q[e]
            w = any(o.values()) if isinstance(e, np.ndarray) else o[e]
            C.run(R, "cl_fix_from_real(%s %s)" % (dt, nm), {"call": "cl_fix_from_real", "fmt": f, "dtype": dt, "form": nm, "a": vals},
                  P.cl_fix_from_real, (x, F, I.sat("SatWarn_s")), ee, f, warn=w)
    for v in (-5, -1, 0, 1, 3, 1000):
        q = max(lo, min(hi, reals.half_up(float(v), f[2])))
        C.run(R, "cl_fix_from_real(Python int)", {"call": "cl_fix_from_real", "fmt": f, "a": v}, P.cl_fix_from_real, (v, F, I.sat("Sat_s")), q, f, warn=False)


def near(oor):
    """Indices at both edges of the out-of-range regions."""
    s = set()
    for i in range(1, len(oor)):
        if oor[i] != oor[i - 1]:
            s |= {i - 1, i}
    return s


def real_out(R, I, case, args, exp, vals, f):
    R.transitions += np.size(exp); R.traces += 1
    try:
        out, _, ws = I.call(I.P.cl_fix_to_real, *args)
    except I.ImplError as e:
        R.bad("exc", "%s raised %s" % (case, e), case)
        return
    o = np.asarray(out)
    if o.dtype != np.float64 or o.shape != np.shape(exp) or (o != exp).any():
        i = int(np.flatnonzero(np.asarray(o != exp).reshape(-1))[0]) if o.shape == np.shape(exp) and o.dtype == np.float64 else 0
        R.bad("to_real", "%s: %s expected %s (int %s)" % (case, o.reshape(-1)[i], np.asarray(exp).reshape(-1)[i], vals[i]), dict(case, a=vals[i]))
    elif not ws:
        # silence promises exactness
        for d, v in zip(o.reshape(-1), vals):
            if Fraction(float(d)) * Fraction(2) ** f[2] != v:
                R.bad("precision", "%s: %s lost precision silently (int %s)" % (case, d, v), dict(case, a=v))
                break


def int_out(R, I, case, args, exp):
    R.transitions += np.size(exp); R.traces += 1
    try:
        out, _, _ = I.call(I.P.cl_fix_to_integer, *args)
    except I.ImplError as e:
        R.bad("exc", "%s raised %s" % (case, e), case)
        return
    o = np.asarray(out, dtype=object) if type(out) is int else np.asarray(out)
    if o.dtype not in (np.int64, object) or o.shape != np.shape(exp) or [int(x) for x in o.reshape(-1)] != [int(x) for x in np.asarray(exp, dtype=object).reshape(-1)]:
        R.bad("to_integer", "%s: %s expected %s" % (case, o, exp), case)


def main():
    t0 = time.time()
    res = H.pool_map("checks.N06", "work", H.chunks(units(), 64))
    return H.finish(PID, res, t0, True, ["finite reals whose scaled value stays within the double exponent range"],
                    "every quarter-LSB point (and both float neighbours) across and beyond the range of every small format; boundary reals of formats up to 256 bits")
