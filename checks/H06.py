"""H06: VHDL comparisons order values numerically for every pair of formats; sign bit; extreme values."""
from fxv import ref, vhdl as V, harness as H

PID = "H06"


def units():
    A = ref.small_formats(3 if not H.THOROUGH else 4, -2, 3, -2, 3)
    us = [("s", a, b) for a in A for b in A]
    us += [("u", a, None) for a in ref.small_formats(6, -3, 4, -3, 4) + ref.edge_formats()]
    E = ref.edge_formats(widths=(8, 31, 32, 33, 53, 64, 65, 128), splits=("mid", "neg_i", "neg_f"))
    us += [("e", a, b) for a in E for b in ref.edge_formats(widths=(1, 2, 9, 31, 32, 33, 64), splits=("mid", "neg_f") if not H.THOROUGH else ("mid", "neg_i", "neg_f"))]
    return us


def cmp6(x, y):
    return "".join("1" if c else "0" for c in (x == y, x != y, x < y, x > y, x <= y, x >= y))


TABLE = {-1: cmp6(0, 1), 0: cmp6(0, 0), 1: cmp6(1, 0)}


def spread(vals, n):
    step = max(1, len(vals) // n)
    return sorted(set(vals[::step]) | {vals[0], vals[-1]})


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    for k, (kind, a, b) in enumerate(us):
        if kind == "u":
            small = ref.width(a) <= 7
            vals = V.pattern_values(a) if small else ref.corner_values(a)
            R.states += len(vals)
            for d in (0, 1, 2):
                cases.append(V.apply_case("sign", a, vals, ["1" if v < 0 else "0" for v in vals], kind="text", warn="none", allv=small, dir=d))
            w = ref.width(a)
            cases.append(V.Case(V.line(71, a=a), "fix", a, [ref.vmax(a)], "none", "cl_fix_max_value", {"op": "max_value", "a": a}))
            cases.append(V.Case(V.line(72, a=a), "fix", a, [ref.vmin(a)], "none", "cl_fix_min_value", {"op": "min_value", "a": a}))
            continue
        F = max(a[2], b[2])
        if kind == "s":
            va, vb = V.pattern_values(a), V.pattern_values(b)
        else:
            va = ref.corner_values(a, targets=(b,))
            vb = ref.corner_values(b)
            va = sorted(set(spread(va, 14)) | {x for x in range(-2, 3) if ref.vmin(a) <= x <= ref.vmax(a)})
            vb = sorted(set(spread(vb, 10)) | {x for x in range(-2, 3) if ref.vmin(b) <= x <= ref.vmax(b)})
            # values of b closest to those of a
            sh = b[2] - a[2]
            near = set()
            for x in va:
                y = x << sh if sh >= 0 else x >> -sh
                near |= {z for z in (y - 1, y, y + 1) if ref.vmin(b) <= z <= ref.vmax(b)}
            vb = sorted(set(vb) | set(spread(sorted(near), 10)) if near else set(vb))
        fa, fb = 2 ** (F - a[2]), 2 ** (F - b[2])
        pa = [x for x in va for _ in vb]
        pb = [y for _ in va for y in vb]
        exp = []
        for x, y in zip(pa, pb):
            p, q = x * fa, y * fb
            exp.append(TABLE[(p > q) - (p < q)])
        R.states += len(pa)
        cases.append(V.apply_case("compare", a, pa, exp, b=b, vb=pb, kind="text", allv=kind == "s", warn="none", dir=k % 3))
    V.judge(R, exe, cases)
    if cases:
        R.samples.append(dict(cases[0].info, n=cases[0].n))
    return R


def main():
    return V.main(PID, "checks.H06", units(), ["operands carry no metavalues"],
                  "all operand pairs of all pairs of formats of width<=%d x 6 relations; boundary pairs (equal and adjacent values) up to 128 bits" % (4 if H.THOROUGH else 3))
