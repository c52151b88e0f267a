"""H02: VHDL saturation / wrapping / resize / in-range query are exact, and exactly the non-fitting values warn."""
from fxv import ref, vhdl as V, harness as H

PID = "H02"


def units():
    us = []
    small = ref.small_formats(5 if not H.THOROUGH else 7)
    for a in small:
        for S in (0, 1):
            for Ib in range(-a[2], 6):
                us.append(("ss", a, (S, Ib, a[2])))
    A = ref.small_formats(3 if not H.THOROUGH else 5, -2, 3, -2, 4)
    B = ref.small_formats(3 if not H.THOROUGH else 4, -3, 3, -3, 4)
    us += [("sr", a, r) for a in A for r in B]
    wa = (8, 29, 30, 31, 32, 33, 53, 54, 63, 64, 65, 100, 129)
    for a in ref.edge_formats(widths=wa, splits=("mid", "neg_i", "neg_f") if not H.THOROUGH else ("mid", "int", "frac", "neg_i", "neg_f")):
        n0 = a[1] + a[2]
        for S in (0, 1):
            for n in sorted({0, 1, 2, n0 - 2, n0 - 1, n0, n0 + 1, 30, 31, 32, 33, 62, 63, 64, 65}):
                if n >= 0 and n + S >= 1:
                    us.append(("es", a, (S, n - a[2], a[2])))
        for dF in (-33, -31, -3, -1, 2, 20):
            rF = a[2] + dF
            for k in sorted({n0 + dF + d for d in (-30, -2, -1, 0, 1, 2)} | {0, 1, 31, 32, 33}):
                for S in (0, 1):
                    if k >= 0 and S + k >= 1:
                        us.append(("er", a, (S, k - rF, rF)))
    return list(enumerate(us))


def work(arg):
    exe, us = arg
    R = H.Result()
    cases = []
    for k, (kind, a, r) in us:
        if ref.width(r) < 1:
            continue
        small = kind[0] == "s"
        cut = a[2] - r[2]
        vals = V.pattern_values(a) if small else ref.corner_values(a, cuts=(cut,), targets=(r,))
        v = ref.arr(vals, ref.width(a) + ref.width(r) + abs(cut) + 4)
        d = k % 3
        R.states += len(vals)
        if kind[1] == "s":
            oor = ref.out_of_range(v, r)
            for s in ref.SAT:
                w = list(oor) if s in ("Warn_s", "SatWarn_s") else "none"
                cases.append(V.apply_case("saturate", a, vals, ref.saturate_int(v, r, s), r=r, sat=s, allv=small, warn=w, dir=d))
            cases.append(V.apply_case("d_saturate", a, vals, ref.wrap(v, r), r=r, allv=small, warn=list(oor)))
            cases.append(V.apply_case("in_range", a, vals, ["0" if o else "1" for o in oor], r=r, allv=small, kind="text", dir=d, warn="none"))
        else:
            modes = [(m, s) for m in ref.RND for s in ref.SAT]
            sel = modes if small else [modes[(k * 5 + t * 9) % 28] for t in range(3)]
            for m in ref.RND:
                q = ref.round_int(v, a[2], r[2], m)
                oor = ref.out_of_range(q, r)
                for s in ref.SAT:
                    if (m, s) in sel:
                        w = list(oor) if s in ("Warn_s", "SatWarn_s") else "none"
                        cases.append(V.apply_case("resize", a, vals, ref.saturate_int(q, r, s), r=r, rnd=m, sat=s, allv=small, warn=w, dir=d))
                if small or ref.RND.index(m) == k % 7:
                    cases.append(V.apply_case("in_range", a, vals, ["0" if o else "1" for o in oor], r=r, rnd=m, allv=small, kind="text", dir=d, warn="none"))
            q = ref.round_int(v, a[2], r[2], "Trunc_s")
            oor = ref.out_of_range(q, r)
            cases.append(V.apply_case("d_resize", a, vals, ref.wrap(q, r), r=r, allv=small, warn=list(oor)))
            cases.append(V.apply_case("d_in_range", a, vals, ["0" if o else "1" for o in oor], r=r, allv=small, kind="text"))
    V.judge(R, exe, cases)
    if cases:
        R.samples.append(dict(cases[-1].info, n=cases[-1].n))
    return R


def main():
    return V.main(PID, "checks.H02", units(), ["GHDL 4.1 executes the VHDL faithfully"],
                  "saturate: all values of every format up to %d bits x every narrower/wider target x 4 modes; resize: all values x all pairs of small formats x 28 mode pairs; "
                  "boundary alphabets at widths up to 129; warnings attributed to single values" % (7 if H.THOROUGH else 5))
