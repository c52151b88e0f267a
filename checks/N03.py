"""N03: Python resize == round then saturate, once each; the in-range query agrees with it."""
import time
import numpy as np
from fxv import ref, harness as H

PID = "N03"


def units():
    us = []
    A = ref.small_formats(4 if not H.THOROUGH else 5, -2, 4, -2, 4)
    Rf = ref.small_formats(4 if not H.THOROUGH else 6, -3, 4, -3, 4)
    for a in A:
        for r in Rf:
            us.append(("s", a, r))
    # narrow -> wide, wide -> narrow, wide -> wide and the 53/54-bit frontier in between
    wa = (5, 30, 31, 32, 33, 51, 52, 53, 54, 55, 62, 63, 64, 65, 66, 100, 128, 129)
    for a in ref.edge_formats(widths=wa, splits=("mid", "neg_i", "neg_f") if not H.THOROUGH else ("mid", "int", "frac", "neg_i", "neg_f")):
        w = ref.width(a)
        for dF in (-60, -33, -31, -12, -3, -2, -1, 0, 1, 2, 20) if H.THOROUGH else (-33, -3, -1, 0, 2, 20):
            rF = a[2] + dF
            ks = {ref.width(a) - a[0] + dF + dI for dI in (-30, -2, -1, 0, 1, 2)} | {0, 1, 31, 32, 52, 53, 54, 63, 64}
            for k in sorted(ks):
                for S in (0, 1):
                    if k >= 0 and S + k >= 1:
                        us.append(("e", a, (S, k - rF, rF)))
    return us


def work(us):
    from fxv import pyimpl as I, pycheck as C
    R = H.Result()
    for kind, a, r in us:
        cut = a[2] - r[2]
        vals = ref.all_values(a) if kind == "s" else ref.corner_values(a, cuts=(cut,), targets=(r,))
        v = ref.arr(vals, ref.width(a) + ref.width(r) + abs(cut) + 3)
        data = I.enc(v, a)
        for rnd in ref.RND:
            q = ref.round_int(v, a[2], r[2], rnd)
            oor = ref.out_of_range(q, r)
            for s in ref.SAT:
                if kind == "e" and not H.THOROUGH and (ref.RND.index(rnd) + ref.SAT.index(s)) % 2:
                    continue
                R.states += len(vals)
                case = {"call": "cl_fix_resize", "a_fmt": a, "r_fmt": r, "rnd": rnd, "sat": s}
                C.run(R, "cl_fix_resize", case, I.P.cl_fix_resize, (data, I.fmt(a), I.fmt(r), I.rnd(rnd), I.sat(s)),
                      ref.saturate_int(q, r, s), r, warn=s in ("Warn_s", "SatWarn_s") and bool(oor.any()), sample=True)
                if oor.any():
                    onset(R, I, C, case, v, q, oor, a, r, rnd, s, kind)
            # in-range query
            case = {"call": "cl_fix_in_range", "a_fmt": a, "r_fmt": r, "rnd": rnd}
            inr(R, I, C, case, (data, I.fmt(a), I.fmt(r), I.rnd(rnd)), ~oor, v)
            if kind == "e" or H.THOROUGH:
                for x in C.spread(vals, 3):
                    e = not bool(ref.out_of_range(ref.round_int(int(x), a[2], r[2], rnd), r))
                    for nm, sc in C.forms(x, a):
                        inr(R, I, C, dict(case, a=x, form=nm), (sc, I.fmt(a), I.fmt(r), I.rnd(rnd)), e, x)
                        s = ref.SAT[(ref.RND.index(rnd) + 2) % 4]
                        C.run(R, "cl_fix_resize " + nm, dict(case, call="cl_fix_resize", a=x, form=nm, sat=s), I.P.cl_fix_resize,
                              (sc, I.fmt(a), I.fmt(r), I.rnd(rnd), I.sat(s)), ref.saturate_int(ref.round_int(int(x), a[2], r[2], rnd), r, s), r,
                              warn=s in ("Warn_s", "SatWarn_s") and not e)
        # documented defaults: truncate, wrap; in-range defaults to truncation
        q = ref.round_int(v, a[2], r[2], "Trunc_s")
        C.run(R, "cl_fix_resize(defaults)", {"call": "cl_fix_resize", "a_fmt": a, "r_fmt": r}, I.P.cl_fix_resize, (data, I.fmt(a), I.fmt(r)), ref.wrap(q, r), r, warn=False)
        inr(R, I, C, {"call": "cl_fix_in_range", "a_fmt": a, "r_fmt": r}, (data, I.fmt(a), I.fmt(r)), ~ref.out_of_range(q, r), v)
    return R


def onset(R, I, C, case, v, q, oor, a, r, rnd, s, kind):
    """Warnings start exactly where the *rounded* value leaves the range: the values that round back in, then each nearest offender."""
    fa, fr, m, z = I.fmt(a), I.fmt(r), I.rnd(rnd), I.sat(s)
    ok = ~oor
    if ok.any():
        C.run(R, "cl_fix_resize(in range)", dict(case, values="in range after rounding"), I.P.cl_fix_resize, (I.enc(v[ok], a), fa, fr, m, z), q[ok], r, warn=False)
    if s not in ("Warn_s", "SatWarn_s") or (kind == "s" and not H.THOROUGH and s == "Warn_s"):
        return
    fits = v[ok]
    for side in (q < ref.vmin(r), q > ref.vmax(r)):
        if not side.any():
            continue
        bad = v[side]
        x = int(bad[-1] if int(q[side][0]) < ref.vmin(r) else bad[0])        # the offender nearest the range (values are sorted)
        mix = ([int(fits[0])] if fits.size else []) + [x] + ([int(fits[-1])] if fits.size else [])
        mv = ref.arr(mix, ref.width(a) + ref.width(r) + abs(a[2] - r[2]) + 3)
        C.run(R, "cl_fix_resize(one offender)", dict(case, a=mix), I.P.cl_fix_resize, (I.enc(mv, a), fa, fr, m, z),
              ref.saturate_int(ref.round_int(mv, a[2], r[2], rnd), r, s), r, warn=True)


def inr(R, I, C, case, args, e, v):
    R.transitions += np.size(e)
    R.traces += 1
    try:
        out, nw, _ = I.call(I.P.cl_fix_in_range, *args)
    except I.ImplError as ex:
        R.bad("exc", "cl_fix_in_range %s raised %s" % (case, ex), case)
        return
    o = np.asarray(out)
    if o.shape != np.shape(e) or o.dtype != np.bool_ or (o != e).any():
        bad = v if np.ndim(v) == 0 or o.shape != np.shape(e) else np.asarray(v)[o != e][:4].tolist()
        R.bad("in_range", "cl_fix_in_range %s wrong for %s" % (case, bad), dict(case, inputs=bad))


def main():
    t0 = time.time()
    res = H.pool_map("checks.N03", "work", H.chunks(units(), 64))
    return H.finish(PID, res, t0, True, [], "all values x every pair of small formats x 7 roundings x 4 saturations; boundary alphabets across the narrow/wide representation frontier")
