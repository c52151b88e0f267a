"""H01: VHDL rounding is exact in every mode, for every width."""
from fxv import ref, vhdl as V, harness as H

PID = "H01"


def units():
    us = []
    small = ref.small_formats(6 if not H.THOROUGH else 9)
    lo, hi = (-6, 7) if not H.THOROUGH else (-10, 10)
    for f in small:
        us += [("s", f, rF) for rF in range(lo, hi + 1)]
    for f in ref.small_formats(3):
        us += [("s", f, f[2] + d) for d in (-70, -54, -33, -32, -31, -20, 20, 31, 32, 60)]
    gaps = (1, 2, 3, 8, 16, 30, 31, 32, 33, 52, 53, 64, 100)
    ew = ref.EDGE_WIDTHS if H.THOROUGH else (8, 16, 29, 30, 31, 32, 33, 53, 54, 63, 64, 65, 90, 128, 129)
    for f in ref.edge_formats(widths=ew, splits=("mid", "int", "frac", "neg_i", "neg_f") if H.THOROUGH else ("mid", "neg_i", "neg_f")):
        w = ref.width(f)
        us += [("e", f, f[2] - g) for g in gaps if g <= w + 2]
        us += [("e", f, f[2] - w), ("e", f, f[2] - w + 1), ("e", f, f[2]), ("e", f, f[2] + 1), ("e", f, f[2] + 11)]
    return list(enumerate(us))


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    for k, (kind, f, rF) in us:
        F = f[2]
        w = ref.width(f)
        vals = V.pattern_values(f) if kind == "s" else ref.corner_values(f, cuts=[F - rF, F - rF + 1])
        A = ref.arr(vals, w + abs(rF - F) + 4)
        R.states += len(vals)
        for m in ref.RND:
            r = ref.round_fmt(f, rF, m)
            if ref.width(r) < 1:
                continue
            q = ref.round_int(A, F, rF, m)
            cases.append(V.apply_case("round", f, vals, q, r=r, rnd=m, allv=kind == "s", warn="none", dir=(0, 1, 2, 3)[k % 4]))
            R.notes["roundings_" + m] = R.notes.get("roundings_" + m, 0) + len(vals)
            # format check off: any result format wide enough for the value gives the same number
            for dI, dS in ((1, 0), (0, 1 - r[0]), (-1, 0)):
                r2 = (r[0] + dS, r[1] + dI, rF)
                if ref.width(r2) < 1:
                    continue
                ok = ~ref.out_of_range(q, r2)
                sel = [j for j in range(len(vals)) if ok[j]]
                if sel and (k + dI) % 3 == 0:
                    cases.append(V.apply_case("round_nocheck", f, [vals[j] for j in sel], [q[j] for j in sel], r=r2, rnd=m, warn="none"))
        r = ref.round_fmt(f, rF, "Trunc_s")
        if ref.width(r) >= 1:
            cases.append(V.apply_case("d_round", f, vals, ref.round_int(A, F, rF, "Trunc_s"), r=r, allv=kind == "s"))
    V.judge(R, exe, cases)
    if cases:
        R.samples.append(dict(cases[0].info, n=cases[0].n))
    return R


def main():
    return V.main(PID, "checks.H01", units(),
                  ["GHDL 4.1 executes the VHDL faithfully", "default rounding mode of the VHDL functions is truncation",
                   "format check off is judged only where the value fits the result format"],
                  "all values of every format up to %d bits, every result resolution -6..7 and long cuts; boundary alphabets (extremes, ties of the cut +-1 LSB, powers of two) "
                  "for widths up to 256; 7 modes; 4 operand index-range/drive styles" % (9 if H.THOROUGH else 6))
