"""H04: VHDL result-format functions: sufficient for every operand and minimal; recommended pipelining."""
from fxv import ref, vhdl as V, harness as H

PID = "H04"


def fmts(lo, hi):
    return [(S, i, f) for S in (0, 1) for i in range(lo, hi + 1) for f in range(lo, hi + 1) if i + f >= 0 and S + i + f >= 1]


BIG = ref.edge_formats(widths=(8, 31, 32, 33, 64, 128, 200)) + [(0, 1000, -999), (1, -900, 901), (1, 500, 500), (0, 0, 700), (1, 2000, -1990)]


def units():
    d = 5 if not H.THOROUGH else 9
    A = fmts(-d, d)
    us = [("pairs", a, "A") for a in A]
    us += [("pairs", a, "B") for a in BIG]
    us += [("unary", a, None) for a in A + BIG]
    us += [("pipe", a, None) for a in fmts(-3, 3)]
    return us


def s3(f):
    return "%d,%d,%d" % tuple(f)


def fc(op, exp, name, **k):
    info = dict(op=name, **{x: y for x, y in k.items()})
    return V.Case(V.line(op, **k), "text", None, [str(exp)], "none", name, info)


def pipe_round(a, rF, m):
    return 0 if (m == "Trunc_s" or rF >= a[2]) else 1


def pipe_sat(a, r, s):
    return 0 if (s in ("None_s", "Warn_s") or (r[1] >= a[1] and r[0] == a[0])) else 1


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    d = 5 if not H.THOROUGH else 9
    A = fmts(-d, d)
    small = fmts(-2, 2) + [(0, 40, -38), (1, -30, 31), (0, -30, 31)]
    for kind, a, which in us:
        if kind == "pairs":
            for b in (A if which == "A" else small + BIG[::5]):
                R.states += 1
                for op, code in (("add", 60), ("sub", 61), ("addsub", 62), ("mult", 63)):
                    cases.append(fc(code, s3(ref.full_fmt(op, a, b)), "cl_fix_%s_fmt" % op, a=a, b=b))
                if b[1] < 3:
                    cases.append(fc(69, s3(a if b[1] > 0 else b), "choose", a=a, b=b, x=b[1]))
        elif kind == "unary":
            R.states += 1
            cases.append(fc(64, s3(ref.full_fmt("neg", a)), "cl_fix_neg_fmt", a=a))
            cases.append(fc(65, s3(ref.full_fmt("abs", a)), "cl_fix_abs_fmt", a=a))
            cases.append(fc(70, ref.width(a), "cl_fix_width", a=a))
            for lo in (-40, -3, -1, 0, 1, 2, 33):
                cases.append(fc(67, s3((a[0], a[1] + lo, a[2] - lo)), "cl_fix_shift_fmt", a=a, x=lo))
                for hi in (lo, lo + 1, lo + 5, lo + 40):
                    cases.append(fc(66, s3((a[0], a[1] + hi, a[2] - lo)), "cl_fix_shift_fmt", a=a, x=lo, dir=hi))
            for m in ref.RND:
                for rF in sorted({a[2] + g for g in (-40, -9, -3, -2, -1, 0, 1, 5)} | {a[2] - ref.width(a) + g for g in (-2, -1, 0, 1)}):
                    cases.append(fc(68, s3(ref.round_fmt(a, rF, m)), "cl_fix_round_fmt", a=a, x=rF, rnd=m))
        else:
            for dF in range(-3, 3):
                for m in ref.RND:
                    rF = a[2] + dF
                    R.states += 1
                    cases.append(fc(77, pipe_round(a, rF, m), "cl_fix_recommended_pipelining(round)", a=a, x=rF, rnd=m))
                    for s in ref.SAT:
                        for S in (0, 1):
                            for dI in (-2, -1, 0, 1, 2):
                                r = (S, a[1] + dI, rF)
                                if r[1] + r[2] < 0 or ref.width(r) < 1:
                                    continue
                                q = ref.round_fmt(a, rF, m)
                                cases.append(fc(79, pipe_round(a, rF, m) + pipe_sat(q, r, s), "cl_fix_recommended_pipelining(resize)", a=a, r=r, rnd=m, sat=s))
                                if dF == 0 and m == "Trunc_s":
                                    cases.append(fc(78, pipe_sat(a, r, s), "cl_fix_recommended_pipelining(saturate)", a=a, r=r, sat=s))
    V.judge(R, exe, cases, chunk=40000)
    if cases:
        R.samples.append(dict(cases[0].info, expected=cases[0].exp[0]))
    return R


def main():
    return V.main(PID, "checks.H04", units(), ["the reference intervals are the exact operand extremes (validated by enumeration in N05)"],
                  "every ordered pair of formats with I,F in [-%d,%d]; wide and extreme formats; all rounding cuts, shift ranges and pipelining queries" % ((9, 9) if H.THOROUGH else (5, 5)))
