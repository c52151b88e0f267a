"""N04: Python arithmetic is exact, then quantised exactly once into the requested format."""
import time
import numpy as np
from fxv import ref, harness as H

PID = "N04"
BIN = ("add", "sub", "addsub", "mult")
UN = ("neg", "abs")


def full_fmt(I, op, a, b):
    P = I.P
    g = {"neg": lambda: P.cl_fix_neg_fmt(I.fmt(a)), "abs": lambda: P.cl_fix_abs_fmt(I.fmt(a)),
         "add": lambda: P.cl_fix_add_fmt(I.fmt(a), I.fmt(b)), "sub": lambda: P.cl_fix_sub_fmt(I.fmt(a), I.fmt(b)),
         "addsub": lambda: P.cl_fix_addsub_fmt(I.fmt(a), I.fmt(b)), "mult": lambda: P.cl_fix_mult_fmt(I.fmt(a), I.fmt(b))}
    return I.tup(g[op]())


def targets(m, kind):
    """Result formats derived from the full-precision format m: itself, with bits removed/added everywhere."""
    S, I, F = m
    out = []
    for (s, di, df) in ((S, 0, 0), (S, 0, -1), (S, -1, -1), (1 - S, 0, -2), (1 - S, -1, 0), (S, 1, 1), (S, -2, 1), (0, -1, -3), (1, 2, -2)):
        f = (s, I + di, F + df)
        if f[1] + f[2] >= 0 and ref.width(f) >= 1 and f not in out:
            out.append(f)
    if kind == "e":
        w = ref.width(m)
        for t in (1, 30, 52, 53, 54, 64, 65):     # reduce to/through the representation frontier, mostly from the bottom or top
            f = (S, I, F - (w - t))
            if f[1] + f[2] >= 0 and abs(f[2]) < 800:
                out.append(f)
            f = (S, I - (w - t), F)
            if f[1] + f[2] >= 0:
                out.append(f)
    return out


def units():
    us = []
    A = ref.small_formats(3, -2, 3, -2, 3)
    B = A
    k = 0
    for a in A:
        for b in B:
            us.append(("s", a, b, k)); k += 1
        us.append(("su", a, None, k)); k += 1
    for a in ref.small_formats(6, -3, 4, -3, 4):
        us.append(("su", a, None, k)); k += 1
        for b in ((0, 1, 0), (1, 0, 0), (1, 0, 1), (1, -1, 2), (0, 3, -2)):
            us.append(("s", a, b, k)); k += 1
            us.append(("s", b, a, k)); k += 1
    ew = (5, 20, 25, 26, 27, 28, 31, 32, 33, 51, 52, 53, 54, 55, 63, 64, 65, 100, 128)
    E = ref.edge_formats(widths=ew, splits=("mid", "neg_i", "neg_f") if H.THOROUGH else ("mid",))
    for a in E:
        us.append(("eu", a, None, k)); k += 1
        for b in ref.edge_formats(widths=(1, 2, 21, 22, 27, 28, 30, 33, 51, 52, 53, 54, 64, 65) if not H.THOROUGH else (1, 2, 3, 10, 21, 22, 26, 27, 28, 30, 31, 33, 51, 52, 53, 54, 64, 65, 128), splits=("mid",) if not H.THOROUGH else ("mid", "neg_i", "neg_f")):
            us.append(("e", a, b, k)); k += 1
    for a in ref.edge_formats(widths=ew, splits=("mid", "int", "frac", "neg_i", "neg_f")):
        us.append(("eu", a, None, k)); k += 1
    return us


def work(us):
    from fxv import pyimpl as I, pycheck as C
    P = I.P
    R = H.Result()
    for kind, a, b, k in us:
        small = kind[0] == "s"
        va = ref.all_values(a) if small else ref.corner_values(a)
        if not small and b is not None:
            va = C.spread(va, 14) + [x for x in (-1, 0, 1) if ref.vmin(a) <= x <= ref.vmax(a)]
        if b is not None:
            vb = ref.all_values(b) if small else C.spread(ref.corner_values(b), 12) + [x for x in (-1, 0, 1) if ref.vmin(b) <= x <= ref.vmax(b)]
            pa = [x for x in va for _ in vb]
            pb = [y for _ in va for y in vb]
            ops = BIN
        else:
            pa, pb, ops = list(va), None, UN + ("shift",)
        bits = 2 * (ref.width(a) + (ref.width(b) if b else 0)) + (abs(a[2] - b[2]) if b else 0) + 40
        A = ref.arr(pa, bits)
        B = ref.arr(pb, bits) if b else None
        da = I.enc(A, a)
        db = I.enc(B, b) if b else None
        for op in ops:
            if op == "shift":
                shifts(R, I, C, kind, a, A, da, k)
                continue
            flag = None
            exact, F = None, None
            try:
                m = full_fmt(I, op, a, b)
            except Exception as e:
                R.bad("exc", "%s format %s %s raised %s" % (op, a, b, e), {"op": op, "a_fmt": a, "b_fmt": b})
                continue
            if op == "addsub":
                flag = (np.arange(A.size) % 3 != 1)
            exact, F = ref.op_exact(op, A, a, B, b, flag)
            fn = getattr(P, "cl_fix_" + op)
            opa = (da, I.fmt(a)) if b is None else ((da, I.fmt(a), db, I.fmt(b)) + ((flag,) if op == "addsub" else ()))
            case = {"call": "cl_fix_" + op, "a_fmt": a, "b_fmt": b}
            # no result format: exact (full precision), never a warning
            R.states += A.size
            C.run(R, "cl_fix_" + op, dict(case, r_fmt=None), fn, opa, ref.round_int(exact, F, m[2], "Trunc_s"), m, warn=False, sample=True)
            if op == "addsub":
                for fl in (True, False):
                    ex, _ = ref.op_exact("add" if fl else "sub", A, a, B, b)
                    for r in [m] + targets(m, kind[0])[1:4]:
                        C.run(R, "cl_fix_addsub scalar flag", dict(case, add=fl, r_fmt=r), fn, opa[:4] + (fl, I.fmt(r)),
                              ref.wrap(ref.round_int(ex, F, r[2], "Trunc_s"), r), r)
            ts = targets(m, kind[0])
            for j, r in enumerate(ts):
                R.states += A.size
                modes = [(rn, s) for rn in ref.RND for s in ref.SAT]
                # every mode on the narrow sub-alphabets, a rotating Latin selection on the rest (quick tier)
                sel = modes if (H.THOROUGH and small) else [modes[(k * 5 + j * 11 + t * 9) % 28] for t in range(3)]
                ex = exact
                if F < r[2]:
                    ex = exact.astype(object)
                for rn, s in sel:
                    q = ref.round_int(ex, F, r[2], rn)
                    # addsub computes both alternatives; a warning there may concern the one not selected
                    w = None if op == "addsub" else (s in ("Warn_s", "SatWarn_s") and bool(ref.out_of_range(q, r).any()))
                    C.run(R, "cl_fix_" + op, dict(case, r_fmt=r, rnd=rn, sat=s), fn, opa + (I.fmt(r), I.rnd(rn), I.sat(s)),
                          ref.saturate_int(q, r, s), r, warn=w)
                    if w:
                        # the operand pairs whose rounded result fits, alone: silent
                        ok = ~ref.out_of_range(q, r)
                        if ok.any():
                            sub = (I.enc(A[ok], a), I.fmt(a)) if b is None else (I.enc(A[ok], a), I.fmt(a), I.enc(B[ok], b), I.fmt(b))
                            C.run(R, "cl_fix_%s(in range)" % op, dict(case, r_fmt=r, rnd=rn, sat=s, values="result in range after rounding"), fn,
                                  sub + (I.fmt(r), I.rnd(rn), I.sat(s)), q[ok], r, warn=False)
            # the result format alone: truncate and wrap, silently
            for r in (ts[k % len(ts)], ts[(k + 4) % len(ts)]):
                q = ref.round_int(exact if F >= r[2] else exact.astype(object), F, r[2], "Trunc_s")
                C.run(R, "cl_fix_%s(default modes)" % op, dict(case, r_fmt=r, modes="default"), fn, opa + (I.fmt(r),), ref.wrap(q, r), r, warn=False)
            # scalar operands
            for i in range(0, A.size, max(1, A.size // (3 if small else 8))):
                x = int(A[i]); y = int(B[i]) if b else None
                e, _ = ref.op_exact(op if op != "addsub" else "sub", x, a, y, b)
                sargs = (I.enc(x, a), I.fmt(a)) if b is None else (I.enc(x, a), I.fmt(a), I.enc(y, b), I.fmt(b)) + ((False,) if op == "addsub" else ())
                C.run(R, "cl_fix_%s scalar" % op, dict(case, a=x, b=y, r_fmt=None), fn, sargs, int(ref.round_int(int(e), F, m[2], "Trunc_s")), m)
                r = ts[i % len(ts)]
                q = ref.round_int(int(e), F, r[2], "ConvEven_s")
                C.run(R, "cl_fix_%s scalar" % op, dict(case, a=x, b=y, r_fmt=r), fn, sargs + (I.fmt(r), I.rnd("ConvEven_s"), I.sat("Sat_s")), int(ref.clip(q, r)), r)
    return R


def shifts(R, I, C, kind, a, A, da, k):
    P = I.P
    base = {"call": "cl_fix_shift", "a_fmt": a}
    ss = (-70, -33, -5, -2, -1, 0, 1, 2, 3, 7, 31, 32, 40, 64) if kind[0] == "e" else (-60, -4, -3, -2, -1, 0, 1, 2, 3, 4, 33)
    AO = A.astype(object)
    for n in ss:
        m = (a[0], a[1] + n, a[2] - n)
        case = dict(base, shift=n)
        R.states += A.size
        C.run(R, "cl_fix_shift", dict(case, r_fmt=None), P.cl_fix_shift, (da, I.fmt(a), n, None), A, m, warn=False)
        for r in (a, (1 - a[0], a[1], a[2])):
            if ref.width(r) >= 1:
                C.run(R, "cl_fix_shift(default modes)", dict(case, r_fmt=r, modes="default"), P.cl_fix_shift, (da, I.fmt(a), n, I.fmt(r)), ref.wrap(ref.round_int(AO, m[2], r[2], "Trunc_s"), r), r, warn=False)
        for j, r in enumerate([a] + targets(m, kind[0]) + targets(a, "s")):
            if abs(r[1]) > 800 or abs(r[2]) > 800:
                continue
            modes = [(rn, s) for rn in ref.RND for s in ref.SAT]
            sel = modes if (H.THOROUGH and kind[0] == "s" and abs(n) < 5) else [modes[(k * 5 + j * 11 + t * 9 + n) % 28] for t in range(2)]
            for rn, s in sel:
                q = ref.round_int(AO, m[2], r[2], rn)
                w = s in ("Warn_s", "SatWarn_s") and bool(ref.out_of_range(q, r).any())
                R.states += A.size
                C.run(R, "cl_fix_shift", dict(case, r_fmt=r, rnd=rn, sat=s), P.cl_fix_shift, (da, I.fmt(a), n, I.fmt(r), I.rnd(rn), I.sat(s)), ref.saturate_int(q, r, s), r, warn=w)
                ok = ~ref.out_of_range(q, r)
                if w and ok.any():
                    C.run(R, "cl_fix_shift(in range)", dict(case, r_fmt=r, rnd=rn, sat=s, values="result in range after rounding"), P.cl_fix_shift, (I.enc(A[ok], a), I.fmt(a), n, I.fmt(r), I.rnd(rn), I.sat(s)), q[ok], r, warn=False)
    # per-element shifts: each element moved by its own amount, common full-precision format
    for pat in ((0, 1), (-2, 0, 3), (2, -1), (-3, -3), (1, 5, 2, 4), (-40, 35)):
        n = np.array([pat[i % len(pat)] for i in range(A.size)])
        if n.size == 0:
            continue
        lo, hi = int(n.min()), int(n.max())
        m = (a[0], a[1] + hi, a[2] - lo)
        exact = AO * (2 ** (n - lo).astype(object))          # at m's fraction bits
        R.states += A.size
        C.run(R, "cl_fix_shift(array)", dict(base, shift=pat, r_fmt=None), P.cl_fix_shift, (da, I.fmt(a), n, None), exact, m, warn=False)
        for r in (a, (1, m[1], m[2] - 2), (a[0], a[1] + 1, a[2] + 1)):
            if r[1] + r[2] < 0 or ref.width(r) < 1:
                continue
            q = ref.round_int(exact, m[2], r[2], "NonSymPos_s")
            C.run(R, "cl_fix_shift(array)", dict(base, shift=pat, r_fmt=r), P.cl_fix_shift, (da, I.fmt(a), n, I.fmt(r), I.rnd("NonSymPos_s"), I.sat("Sat_s")), ref.clip(q, r), r)


def main():
    t0 = time.time()
    res = H.pool_map("checks.N04", "work", H.chunks(units(), 96))
    return H.finish(PID, res, t0, True, ["warnings of the combined add/subtract operation are not judged when both alternatives are evaluated"],
                    "all operand pairs of every pair of formats of width<=3 plus boundary alphabets; full-precision and derived result formats")
