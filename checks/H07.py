"""H07: VHDL text forms of values, formats and modes are faithful and parse back to the same thing."""
from fxv import ref, vhdl as V, harness as H

PID = "H07"


def units():
    us = [("v", f) for f in ref.small_formats(6 if not H.THOROUGH else 8, -5, 6, -5, 6) + ref.edge_formats(widths=(8, 31, 32, 33, 64, 65, 128))]
    us += [("f", (S, i, f)) for S in (0, 1) for i in list(range(-12, 13)) + [-100, -99, 99, 100, 123, 1000, 2047] for f in list(range(-12, 13)) + [-100, 100, 101, 999, 1024]
           if i + f >= 0 and S + i + f >= 1]
    us += [("m", None)]
    return us


def text(v, f):
    w = ref.width(f)
    b = V.bits(v, w)
    S, I, F = f
    if S + I >= 0 and F >= 0:
        return b[:S + I] + "." + b[S + I:]
    if S + I < 0:
        return ".(" + ("1" if v < 0 else "0") * -(S + I) + ")" + b
    return b + "(" + "0" * -F + ")."


def tc(op, txt, exp, name):
    return V.Case(V.line(op) + " " + txt, "text", None, [exp], "none", name, {"op": name, "text": txt})


def casings(t):
    return [t, t.lower(), t.upper(), t.swapcase()] + ["".join(c.upper() if (i + k) % 3 == 0 else c.lower() for i, c in enumerate(t)) for k in range(3)]


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    for kind, f in us:
        if kind == "v":
            small = ref.width(f) <= 8
            vals = V.pattern_values(f) if small else ref.corner_values(f)
            R.states += len(vals)
            for d in (0, 1, 2):
                cases.append(V.apply_case("str", f, vals, [text(v, f) for v in vals], kind="text", allv=small, warn="none", dir=d))
        elif kind == "f":
            R.states += 1
            S, i, fr = f
            cases.append(V.Case(V.line(73, a=f), "text", None, ["(%d,%d,%d)" % f], "none", "to_string(format)", {"op": "to_string", "a": f}))
            cases.append(V.Case(V.line(74, a=f), "text", None, ["%d,%d,%d" % f], "none", "format round trip", {"op": "parse(to_string)", "a": f}))
            e = "%d,%d,%d" % f
            for t in ("(%d,%d,%d)", "(%d, %d, %d)", "(%d,  %d,   %d)", "FixFormat(%d, %d, %d)", "  (%d,%d,%d)  ", "x=(%d, %d, %d), y=(1,2,3)", "(%d ,%d ,%d )"):
                cases.append(tc(92, t % f, e, "cl_fix_format_from_string"))
        else:
            for m in ref.RND:
                cases.append(V.Case(V.line(75, rnd=m), "text", None, ["%s,%s,1" % (m, m)], "none", "round mode text", {"op": "to_string(round)", "rnd": m}))
                for t in casings(m):
                    cases.append(tc(93, t, m, "cl_fix_round_from_string"))
            for s in ref.SAT:
                cases.append(V.Case(V.line(76, sat=s), "text", None, ["%s,%s,1" % (s, s)], "none", "saturation mode text", {"op": "to_string(sat)", "sat": s}))
                for t in casings(s):
                    cases.append(tc(94, t, s, "cl_fix_saturate_from_string"))
            R.states += 11
    V.judge(R, exe, cases, chunk=20000)
    if cases:
        R.samples.append(dict(cases[-1].info, expected=cases[-1].exp[0]))
    return R


def main():
    return V.main(PID, "checks.H07", units(), ["format text contains the sign digit directly after the opening parenthesis"],
                  "all values of every format up to %d bits (including negative I or F); every format with |I|,|F|<=12 and large ones x 7 spellings; all modes x letter casings" % (8 if H.THOROUGH else 6))
