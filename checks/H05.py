"""H05: VHDL real/integer conversions: exact, half-up, saturating, with warnings exactly out of range; round trips."""
from fractions import Fraction
import math
from fxv import ref, reals, vhdl as V, harness as H

PID = "H05"


def units():
    us = [("s", f) for f in ref.small_formats(5 if not H.THOROUGH else 7, -4, 5, -4, 5)]
    for f in ref.small_formats(3):
        for g in (60, -60, 33, -33):
            us.append(("s", (f[0], f[1] + g, f[2] - g)))
    sp = ("mid", "int", "frac", "neg_i", "neg_f")
    us += [("e", f) for f in ref.edge_formats(splits=sp if H.THOROUGH else ("mid", "neg_i", "neg_f"))]
    if H.THOROUGH:
        for w in range(9, 130):
            us += [("e", f) for f in ref.edge_formats(widths=(w,), splits=sp)]
    return us


def group(x):
    """hi lo e with (hi * 2**26 + lo) * 2**e == x exactly."""
    if x == 0:
        return "0 0 0"
    m, e = math.frexp(x)
    n, e = int(m * 2 ** 53), e - 53
    return "%d %d %d" % (n >> 26, n & (2 ** 26 - 1), e)


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    for kind, f in us:
        lo, hi = ref.vmin(f), ref.vmax(f)
        w = ref.width(f)
        lsb = Fraction(2) ** (-f[2])
        xs = [x for x in reals.real_alphabet(f, kind == "s") if x == 0 or 2.0 ** -900 < abs(x) < 2.0 ** 900]
        if kind == "e" and not H.THOROUGH and len(xs) > 260:
            oorx = [i for i, x in enumerate(xs) if Fraction(x) < lo * lsb or Fraction(x) > hi * lsb]
            keep = set(range(0, len(xs), 3))
            for i in oorx:
                keep |= {i}
            for i in range(1, len(xs)):
                if (i in keep) != ((i - 1) in keep):
                    pass
            xs = [xs[i] for i in sorted(keep)]
        q = [reals.half_up(x, f[2]) for x in xs]
        exp = [max(lo, min(hi, v)) for v in q]
        oor = [Fraction(x) < lo * lsb or Fraction(x) > hi * lsb for x in xs]
        g = [group(x) for x in xs]
        R.states += len(xs)
        for s in ("Sat_s", "SatWarn_s"):
            cases.append(V.Case(V.line(90, r=f, sat=s, sep=1, n=len(g), groups=g), "fix", f, exp, oor if s == "SatWarn_s" else [False] * len(g),
                                "cl_fix_from_real", {"op": "from_real", "r": f, "sat": s, "inputs": [x.hex() for x in xs[:0]]}))
        cases.append(V.Case(V.line(90, r=f, x=1, sep=1, n=len(g), groups=g), "fix", f, exp, oor, "cl_fix_from_real(default)", {"op": "from_real default", "r": f}))
        vals = V.pattern_values(f) if kind == "s" else ref.corner_values(f)
        R.states += len(vals)
        cases.append(V.apply_case("to_real", f, vals, vals, r=f, kind="real", warn="none", allv=kind == "s", dir=w % 3))
        ok = [v for v in vals if V.exact_double(v)]
        cases.append(V.apply_case("rt_real", f, ok, ok, r=f, warn="none", dir=(w + 1) % 3))
        small = [v for v in vals if -2 ** 31 < v < 2 ** 31]
        if w <= (32 if f[0] else 31):
            cases.append(V.apply_case("to_integer", f, small, [str(v) for v in small], r=f, kind="text", warn="none", dir=w % 3))
            cases.append(V.apply_case("rt_int", f, small, small, r=f, warn="none"))
        cases.append(V.Case(V.line(91, r=f, n=len(small), groups=[str(v) for v in small]), "fix", f, small, "none", "cl_fix_from_integer", {"op": "from_integer", "r": f}))
    V.judge(R, exe, cases, chunk=300)
    if cases:
        R.samples.append(dict(cases[0].info, n=cases[0].n))
    return R


def main():
    return V.main(PID, "checks.H05", units(),
                  ["GHDL real is IEEE double and 2.0**n is exact", "values that no double can hold are judged to one unit in the last place",
                   "scaled magnitudes outside 2**+-900 and infinities / NaN are outside the domain"],
                  "quarter-LSB grid +-1 ulp over and beyond the range of every small format; boundary alphabets at the 30-bit chunk, 53-bit, 64-bit and 256-bit widths")
