"""H03: VHDL arithmetic is exact, then quantised exactly once into the requested format."""
import numpy as np
from fxv import ref, vhdl as V, harness as H

PID = "H03"
BIN = ("add", "sub", "addsub1", "addsub0", "mult")


def units():
    us = []
    A = ref.small_formats(3, -1, 2, -1, 2) + ref.small_formats(2, -2, 3, -2, 3) if not H.THOROUGH else ref.small_formats(4, -1, 3, -1, 3) + ref.small_formats(3, -2, 3, -2, 3)
    A = list(dict.fromkeys(A))
    for a in A:
        us.append(("u", "s", a, None))
        for b in A:
            us.append(("b", "s", a, b))
    for a in ref.small_formats(6 if H.THOROUGH else 5, -3, 4, -3, 4):
        us.append(("u", "s", a, None))
        for b in ((0, 1, 0), (1, 0, 0), (1, -1, 2), (0, 3, -2)):
            us.append(("b", "s", a, b))
            us.append(("b", "s", b, a))
    ew = (8, 16, 29, 30, 31, 32, 33, 53, 54, 63, 64, 65, 100, 128)
    E = ref.edge_formats(widths=ew, splits=("mid", "neg_i", "neg_f") if H.THOROUGH else ("mid",))
    Bf = ref.edge_formats(widths=(1, 2, 17, 31, 32, 33, 64) if not H.THOROUGH else (1, 2, 17, 30, 31, 32, 33, 53, 64, 65), splits=("mid",) if not H.THOROUGH else ("mid", "neg_i", "neg_f"))
    for a in E:
        for b in Bf:
            us.append(("b", "e", a, b))
    for a in ref.edge_formats(widths=ew):
        us.append(("u", "e", a, None))
    return list(enumerate(us))


def spread(vals, n):
    step = max(1, len(vals) // n)
    return sorted(set(vals[::step]) | {vals[0], vals[-1]})


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    for k, (kind, size, a, b) in us:
        small = size == "s"
        va = V.pattern_values(a) if small else ref.corner_values(a)
        modes = [(m, s) for m in ref.RND for s in ref.SAT]
        if kind == "b":
            if small:
                vb = V.pattern_values(b)
            else:
                va = sorted(set(spread(va, 10)) | {x for x in (-1, 0, 1) if ref.vmin(a) <= x <= ref.vmax(a)})
                vb = sorted(set(spread(ref.corner_values(b), 8)) | {x for x in (-1, 0, 1) if ref.vmin(b) <= x <= ref.vmax(b)})
            pa = [x for x in va for _ in vb]
            pb = [y for _ in va for y in vb]
            ops = BIN
        else:
            pa, pb, ops = va, None, ("neg", "abs")
        bits = 2 * (ref.width(a) + (ref.width(b) if b else 0)) + (abs(a[2] - b[2]) if b else 0) + 40
        A = ref.arr(pa, bits)
        B = ref.arr(pb, bits) if b else None
        for oi, op in enumerate(ops):
            base = {"addsub1": "add", "addsub0": "sub"}.get(op, op)
            exact, F = ref.op_exact(base, A, a, B, b)
            m = ref.full_fmt({"addsub1": "addsub", "addsub0": "addsub"}.get(op, op), a, b)
            # Without a result format: full precision, independent of the add/subtract selector
            R.states += len(pa)
            cases.append(V.apply_case("d_" + op, a, pa, ref.round_int(exact, F, m[2], "Trunc_s"), r=m, b=b, vb=pb, allv=small, warn="none"))
            ts = ref.derived_targets(m, not small)
            for j, r in enumerate(ts):
                if j and not H.THOROUGH and (j + k + oi) % 5 and kind == "b":
                    continue
                nsel = 28 if (H.THOROUGH and small and ref.width(a) <= 2) else 2
                sel = modes if nsel == 28 else [modes[(k * 5 + j * 11 + t * 9 + oi * 3) % 28] for t in range(nsel)]
                ex = exact if F >= r[2] else exact.astype(object)
                for rn, s in sel:
                    q = ref.round_int(ex, F, r[2], rn)
                    w = list(ref.out_of_range(q, r)) if s in ("Warn_s", "SatWarn_s") else "none"
                    cases.append(V.apply_case(op, a, pa, ref.saturate_int(q, r, s), r=r, b=b, vb=pb, rnd=rn, sat=s, allv=small, warn=w, dir=(k + j) % 3))
                if j == k % len(ts):      # default modes: truncate, wrap with warning
                    q = ref.round_int(ex, F, r[2], "Trunc_s")
                    cases.append(V.apply_case("m_" + op, a, pa, ref.wrap(q, r), r=r, b=b, vb=pb, allv=small, warn=list(ref.out_of_range(q, r))))
        if kind == "u":
            ss = (-60, -4, -2, -1, 0, 1, 2, 3, 33) if small else (-70, -33, -31, -5, -1, 0, 1, 7, 31, 32, 64)
            AO = A.astype(object)
            for n in ss:
                m = (a[0], a[1] + n, a[2] - n)
                R.states += len(pa)
                for j, r in enumerate([a] + ref.derived_targets(m, not small) + ref.derived_targets(a)):
                    if abs(r[1]) > 800 or abs(r[2]) > 800:
                        continue
                    for t in range(2):
                        rn, s = modes[(k * 5 + j * 11 + t * 9 + n) % 28]
                        q = ref.round_int(AO, m[2], r[2], rn)
                        w = list(ref.out_of_range(q, r)) if s in ("Warn_s", "SatWarn_s") else "none"
                        cases.append(V.apply_case("shift", a, pa, ref.saturate_int(q, r, s), r=r, rnd=rn, sat=s, x=n, allv=small, warn=w, dir=(k + j) % 3))
                q = ref.round_int(AO, m[2], a[2], "Trunc_s")
                cases.append(V.apply_case("d_shift", a, pa, ref.wrap(q, a), r=a, x=n, allv=small, warn=list(ref.out_of_range(q, a))))
        if len(cases) > 3000:
            V.judge(R, exe, cases)
            cases = []
    V.judge(R, exe, cases)
    if cases:
        R.samples.append(dict(cases[-1].info, n=cases[-1].n))
    return R


def main():
    return V.main(PID, "checks.H03", units(), ["GHDL 4.1 executes the VHDL faithfully"],
                  "all operand pairs of every pair of formats of width<=%d, every unary operand up to 5 bits (thorough: 6), boundary alphabets up to 128 bits; "
                  "full-precision and derived result formats x rotating rounding/saturation modes" % (4 if H.THOROUGH else 3))
