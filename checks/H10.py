"""H10: what is synthesized is what is specified: netlists of every function, mode and component, made with ghdl --synth from VHDL-93,
give the reference results for every input pattern (functions) and follow the pipeline model for every history (components)."""
import itertools, time
from fractions import Fraction
from fxv import ref, synth, vhdl as V, harness as H
from checks import H08

PID = "H10"
MODES = [(m, s) for m in ref.RND for s in ref.SAT]
RELS = ("=", "!=", "<", ">", "<=", ">=")
A = [(1, 1, 1), (0, 1, 2), (1, 2, 0), (0, 3, 0), (1, 0, 2), (1, -1, 3), (0, 0, 3), (1, 3, -1), (0, -1, 3), (1, 2, 2), (0, 2, 2), (1, 0, 0), (0, 1, 0)]
B = [(1, 1, 1), (0, 1, 1), (1, 2, 0), (0, -1, 3), (1, 2, -1), (1, 0, 0), (0, 0, 1)]
WIDE = (31, 32, 33, 53, 54, 64, 65, 100)


def fits(R):
    """Formats with at least one bit and no negative number of magnitude bits; (1, 3, 1) if there are none."""
    return [r for r in R if r[1] + r[2] >= 0 and ref.width(r) >= 1] or [(1, 3, 1)]


def uses():
    """All uses of functions: (op, a, b, r, rnd, sat, x)."""
    us = []
    k = 0
    for a in A:
        for dF in (-3, -2, -1, 0, 1):
            for m in ref.RND:
                r = ref.round_fmt(a, a[2] + dF, m)
                us.append(("round", a, None, r, m, "None_s", 0))
        for S in (0, 1):
            for I in range(a[1] - 2, a[1] + 2):
                if I + a[2] >= 0 and S + I + a[2] >= 1:
                    for s in ref.SAT:
                        us.append(("saturate", a, None, (S, I, a[2]), "Trunc_s", s, 0))
        R = [(S, a[1] + dI, a[2] + dF) for S in (0, 1) for dI in (-1, 0, 1) for dF in (-2, -1, 1) if a[1] + dI + a[2] + dF >= 0 and S + a[1] + dI + a[2] + dF >= 1]
        for i, r in enumerate(R):
            for j, (m, s) in enumerate(MODES):
                if H.THOROUGH or (i + j) % 3 == k % 3:
                    us.append(("resize", a, None, r, m, s, 0))
            for m in ref.RND:
                if H.THOROUGH or (i + ref.RND.index(m)) % 2:
                    us.append(("in_range", a, None, r, m, "None_s", 0))
        us.append(("sign", a, None, None, "Trunc_s", "None_s", 0))
        for op in ("abs", "neg"):
            full = ref.full_fmt(op, a)
            us.append(("d_" + op, a, None, full, "Trunc_s", "None_s", 0))
            for i, (m, s) in enumerate(MODES):
                r = fits([(1, full[1] - 1, full[2] - 1), (0, full[1], full[2]), (0, full[1] - 1, full[2] + 1), (1, full[1], full[2] - 2)])
                us.append((op, a, None, r[i % len(r)], m, s, 0))
        for i, n in enumerate((-3, -1, 0, 1, 2)):
            for j, (m, s) in enumerate(MODES):
                if H.THOROUGH or (i + j + k) % 4 == 0:
                    us.append(("shift", a, None, (j % 2, a[1] + (i % 3) - 1 if a[1] + (i % 3) - 1 + a[2] >= 1 else 1 - a[2], a[2]), m, s, n))
        k += 1
    for i, (a, b) in enumerate(itertools.product(A, B)):
        for x in RELS:
            us.append(("compare", a, b, None, "Trunc_s", "None_s", x))
        for op in ("add", "sub", "addsub", "mult"):
            full = ref.full_fmt(op, a, b)
            if op != "addsub":
                us.append(("d_" + op, a, b, full, "Trunc_s", "None_s", 0))
            else:
                us.append(("d_addsub", a, b, full, "Trunc_s", "None_s", 0))
            R = fits([(1, full[1] - 1, full[2] - 1), (0, full[1], full[2] - 1), (1, full[1] - 2, full[2]), (0, full[1] - 1, full[2] + 1), (1, full[1] + 1, full[2] - 2)])
            for j, (m, s) in enumerate(MODES):
                if H.THOROUGH or (i + j) % 7 == 0:
                    us.append((op, a, b, R[(i // 7 + j) % len(R)], m, s, 0))
    return us


def constants():
    us = []
    for f in A + B + [(1, 20, 20), (0, 33, 0), (1, 31, 33)]:
        us.append(("max", None, None, f, "Trunc_s", "None_s", 0))
        us.append(("min", None, None, f, "Trunc_s", "None_s", 0))
        for s in ("Sat_s", "SatWarn_s"):
            for t in range(-9, 10):
                us.append(("from_real", None, None, f, "Trunc_s", s, repr(t / 4 * 2.0 ** (f[1] - 1))))
        for t in sorted({max(ref.vmin(f), -2 ** 31 + 1), min(ref.vmax(f), 2 ** 31 - 1), 0, min(1, ref.vmax(f)), min(5, ref.vmax(f))}):
            us.append(("from_integer", None, None, f, "Trunc_s", "None_s", t))
    return us


def wide():
    """(use, a values, b values) at the widths where representations change."""
    us = []
    for k, w in enumerate(WIDE if H.THOROUGH else WIDE):
        a, b = (1, w // 2, w - 1 - w // 2), (0, 3, w // 3)
        for j in range(4):
            m, s = MODES[(k * 5 + j * 9) % 28]
            us.append(("resize", a, None, (j % 2, a[1] - 2, a[2] - 3 - j), m, s, 0))
            us.append(("saturate", a, None, (j % 2, a[1] - 1 - j, a[2]), "Trunc_s", ref.SAT[j], 0))
            for op in ("add", "sub", "addsub", "mult"):
                full = ref.full_fmt(op, a, b)
                us.append((op, a, b, (1, full[1] - 2, full[2] - 5 - j), m, s, 0))
            us.append(("abs", a, None, (0, a[1], a[2] - 1), m, s, 0))
            us.append(("neg", a, None, (1, a[1] - 1, a[2] - 2), m, s, 0))
            us.append(("shift", a, None, a, m, s, (-33, -1, 7, 32)[j]))
        us += [("compare", a, b, None, "Trunc_s", "None_s", x) for x in RELS]
    return us


def expected(u, va, vb, c):
    """Bit strings of the reference for operand bit patterns va, vb and add flags c."""
    op, a, b, r, rnd, sat, x = u
    n = len(va)
    if op in ("max", "min"):
        return [V.bits(ref.vmax(r) if op == "max" else ref.vmin(r), ref.width(r))] * n
    if op == "from_real":
        q = (Fraction(float(x)) * Fraction(2) ** r[2] + Fraction(1, 2)).__floor__()
        return [V.bits(min(max(q, ref.vmin(r)), ref.vmax(r)), ref.width(r))] * n
    if op == "from_integer":
        return [V.bits(x, ref.width(r))] * n

    def num(p, f):
        w = ref.width(f)
        p &= (1 << w) - 1
        return p - (1 << w) if f[0] and p >> (w - 1) else p
    xa = [num(p, a) for p in va]
    xb = [num(p, b) for p in vb] if b else None
    va_ = ref.arr(xa, 400)
    vb_ = ref.arr(xb, 400) if b else None
    if op == "sign":
        return ["1" if p < 0 else "0" for p in xa]
    if op == "compare":
        k = max(a[2], b[2])
        f = {"=": int.__eq__, "!=": int.__ne__, "<": int.__lt__, ">": int.__gt__, "<=": int.__le__, ">=": int.__ge__}[x]
        return ["1" if f(int(p) << (k - a[2]), int(q) << (k - b[2])) else "0" for p, q in zip(xa, xb)]
    base = op[2:] if op[:2] == "d_" else op
    if base in ("round", "saturate", "resize", "in_range"):
        exact, F = va_, a[2]
    elif base == "shift":
        exact, F = va_, a[2] - x
    elif base == "addsub":
        e1, F = ref.op_exact("add", va_, a, vb_, b)
        e0, _ = ref.op_exact("sub", va_, a, vb_, b)
        exact = ref.arr([p if q else z for p, z, q in zip(e1, e0, c)], 400)
    else:
        exact, F = ref.op_exact(base, va_, a, vb_, b)
    exact = exact.astype(object)
    if base == "in_range":
        return ["0" if o else "1" for o in ref.out_of_range(ref.round_int(exact, F, r[2], rnd), r)]
    q = ref.round_int(exact, F, r[2], rnd)
    e = ref.saturate_int(q, r, sat)
    return [V.bits(z, ref.width(r)) for z in e]


def units():
    us = uses()
    us.sort(key=lambda u: (u[2] is not None, u[0]))
    out = [("f", c) for c in H.chunks([u for u in us if u[2] is None], max(1, len([u for u in us if u[2] is None]) // 60))]
    out += [("f", c) for c in H.chunks([u for u in us if u[2] is not None], max(1, len([u for u in us if u[2] is not None]) // 60))]
    cs = constants()
    out += [("f", c) for c in H.chunks(cs, max(1, len(cs) // 200))]
    w = wide()
    out += [("w", [u for u in w if u[1] == a]) for a in dict.fromkeys(u[1] for u in w)]
    groups = {}
    for u in H08.units():
        if u[6] > 0:
            groups.setdefault((u[1], u[6], u[0]), []).append(u)
    for g in groups.values():
        out += [("c", c) for c in H.chunks(g, max(1, len(g) // 24))]
    return out


def work(us):
    R = H.Result()
    todo = [(k, p, 0) for k, p in us]
    while todo and len(R.viol) <= 5:
        kind, part, n = todo.pop()
        try:
            (components if kind == "c" else functions)(R, kind, part)
        except V.BuildError as e:
            if len(part) > 1:            # find out which one
                todo += [(kind, part[:len(part) // 2], n + 1), (kind, part[len(part) // 2:], n + 1)]
            elif isinstance(e, synth.NetlistText):
                R.notes["uses not judged, netlist text refused"] = R.notes.get("uses not judged, netlist text refused", 0) + 1
                print("H10: not judged (netlist text refused): %s %s" % (part[0], str(e)[-300:]))
            else:
                R.bad("synthesis", "%s cannot be synthesized: %s" % (part[0], str(e)[-300:]), {"use": list(part[0]), "output": str(e)[-2000:]})
    return R


def functions(R, kind, us):
    if kind == "w":
        a, bs = us[0][1], [u[2] for u in us if u[2]]
        wa, wb = ref.width(a), ref.width(bs[0]) if bs else 1
        pa = [p & ((1 << wa) - 1) for p in ref.corner_values(a, cuts=(1, 3))]
        pb = [p & ((1 << wb) - 1) for p in ref.corner_values(bs[0])] if bs else [0]
        pa, pb = pa[::max(1, len(pa) // 24)] + pa[-1:], pb[::max(1, len(pb) // 10)] + pb[-1:]
    else:
        wa = max([ref.width(u[1]) for u in us if u[1]] + [2])
        wb = max([ref.width(u[2]) for u in us if u[2]] + [2])
        pa, pb = range(1 << wa), range(1 << wb if any(u[2] for u in us) else 1)
    cs = (0, 1) if any(u[0].endswith("addsub") for u in us) else (1,)
    stim = [(x, y, c) for x in pa for y in pb for c in cs]
    out = synth.simulate(us, stim, wa, wb)
    va, vb, vc = [s[0] for s in stim], [s[1] for s in stim], [s[2] for s in stim]
    for i, u in enumerate(us):
        exp = expected(u, va, vb, vc)
        R.states += 1
        R.traces += 1
        R.transitions += len(stim)
        for s, row, e in zip(stim, out, exp):
            if row[i] != e:
                R.bad("value", "synthesized %s for a=%s b=%s add=%d: got %s expected %s" % (synth.call(u), V.bits(s[0], wa), V.bits(s[1], wb), s[2], row[i], e), {"use": list(u), "a": s[0], "b": s[1], "add": s[2], "got": row[i], "expected": e})
                break
    if not R.samples:
        R.samples.append({"use": synth.call(us[0]), "patterns": len(stim)})


def components(R, kind, us):
    seq = H08.stimuli(us[0])
    for u, lines in zip(us, synth.simulate_components(us, seq)):
        H08.judge(R, u, seq, lines, dict(H08.describe(u), synthesized=True))
        R.traces += 1


def main():
    t0 = time.time()
    us = units()
    us.sort(key=lambda u: (u[0] != "c", u[1][0][2] is None if u[0] != "c" else False))
    R = H.pool_map("checks.H10", "work", [[u] for u in us])
    return H.finish(PID, R, t0, True, ["ghdl --synth stands for the synthesis tools", "data and metadata of components are judged while valid"],
                    "%d uses of functions with every input pattern (formats to 5 bits, corner values to %d bits), %d components with every control window" %
                    (sum(len(u[1]) for u in us if u[0] != "c"), max(WIDE), sum(len(u[1]) for u in us if u[0] == "c")))
