"""N07: the narrow and the wide number classes are the same arithmetic; operators and comparisons included."""
import copy, re, time
import numpy as np
from fxv import ref, reals, harness as H

PID = "N07"
CMP = ("==", "!=", "<", "<=", ">", ">=")


def units():
    us = []
    A = ref.small_formats(3, -2, 3, -2, 3)
    for k, a in enumerate(A):
        us.append(("un", "s", a, None, k))
        for j, b in enumerate(A):
            us.append(("bin", "s", a, b, k * 31 + j))
    for k, a in enumerate(ref.small_formats(6, -3, 4, -3, 4)):
        us.append(("un", "s", a, None, k))
    E = ref.edge_formats(widths=(10, 20, 26, 27, 31, 32, 33, 50, 51, 52, 53, 54, 63, 64, 65, 128), splits=("mid", "neg_i", "neg_f") if H.THOROUGH else ("mid",))
    for k, a in enumerate(E):
        us.append(("un", "e", a, None, k))
        for j, b in enumerate(ref.edge_formats(widths=(1, 2, 21, 26, 27, 33, 50, 52, 53, 64, 100), splits=("mid",) if not H.THOROUGH else ("mid", "neg_i", "neg_f"))):
            us.append(("bin", "e", a, b, k * 17 + j))
    return us


def cmp(op, x, y):
    return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def objs(I, V, f):
    """The same numbers as objects of each class that can hold the format."""
    out = [("WideFix", I.WideFix(I.enc_wide(V), I.fmt(f)))]
    if not ref.is_wide(f):
        n = I.NarrowFix(I.enc_narrow(V, f), I.fmt(f))
        out.append(("NarrowFix", n))
        out.append(("from_narrowfix", I.WideFix.from_narrowfix(n)))
    return out


def check_obj(R, I, case, cls, o, exp, r):
    """o: resulting NarrowFix / WideFix; exp ints; r format."""
    R.transitions += exp.size
    if type(o).__name__ != ("NarrowFix" if cls == "NarrowFix" else "WideFix"):
        R.bad("class", "%s %s returned %s" % (cls, case, type(o).__name__), case)
        return
    if I.tup(o.fmt) != tuple(r):
        R.bad("fmt", "%s %s has format %s, expected %s" % (cls, case, I.tup(o.fmt), r), case)
        return
    d = o.data
    e = I.enc_narrow(exp, r) if cls == "NarrowFix" else I.enc_wide(exp)
    if np.shape(d) != np.shape(e) or np.asarray(d != e).any():
        i = int(np.flatnonzero(np.asarray(d != e).reshape(-1))[0]) if np.shape(d) == np.shape(e) else -1
        R.bad("value", "%s %s: got %s expected %s" % (cls, case, np.asarray(d).reshape(-1)[i], np.asarray(e).reshape(-1)[i]), dict(case, cls=cls, index=i))
    if cls != "NarrowFix" and np.size(d) and type(np.asarray(d, dtype=object).reshape(-1)[0]) is not int:
        R.bad("repr", "%s %s holds %s" % (cls, case, type(np.asarray(d).reshape(-1)[0])), case)


def attempt(R, I, case, cls, fn):
    R.traces += 1
    try:
        return I.call(fn)[0]
    except I.ImplError as e:
        R.bad("exc", "%s %s raised %s" % (cls, case, e), dict(case, cls=cls, error=str(e)))
        return None


def warned(R, I, case, cls, fn, exp, r, w):
    """A call of a class method: result and the presence of a saturation warning."""
    R.traces += 1
    try:
        o, nw, _ = I.call(fn)
    except I.ImplError as e:
        R.bad("exc", "%s %s raised %s" % (cls, case, e), dict(case, cls=cls, error=str(e)))
        return
    check_obj(R, I, case, cls, o, exp, r)
    if w is not None and (nw > 0) != bool(w):
        R.bad("warn", "%s %s: %d saturation warnings, expected %s" % (cls, case, nw, "one" if w else "none"), dict(case, cls=cls, warnings=nw))


def defaults(R, I, case, cls, fn, exact, m, k):
    """Result format given, modes left out: truncate and wrap silently, as the functions do."""
    for r in rsel(m, k + 1):
        if cls == "NarrowFix" and (ref.is_wide(r) or ref.is_wide(ref.round_fmt(m, r[2], "Trunc_s"))):
            continue
        ex = exact if m[2] >= r[2] else exact.astype(object)
        q = ref.round_int(ex, m[2], r[2], "Trunc_s")
        warned(R, I, dict(case, r_fmt=r, modes="default"), cls, lambda: fn(I.fmt(r)), ref.wrap(q, r), r, False)


def from_real(R, I, case, f, kind):
    """Reals enter both classes identically."""
    lo, hi = ref.vmin(f), ref.vmax(f)
    lsb = reals.Fraction(2) ** (-f[2])
    xs = reals.real_alphabet(f, kind == "s" and ref.width(f) <= 3)
    E = ref.arr([max(lo, min(hi, reals.half_up(x, f[2]))) for x in xs], ref.width(f) + 4)
    out = np.array([not (lo * lsb <= reals.Fraction(x) <= hi * lsb) for x in xs])
    X = np.array(xs)
    for K, cls in ((I.WideFix, "WideFix"),) + (() if ref.is_wide(f) else ((I.NarrowFix, "NarrowFix"),)):
        for s in ("SatWarn_s", "Sat_s", None):
            a = () if s is None else (I.sat(s),)
            c = dict(case, op="from_real", sat=s)
            warned(R, I, c, cls, lambda: K.from_real(X, I.fmt(f), *a), E, f, s != "Sat_s" and out.any())
            if (~out).any():
                warned(R, I, dict(c, values="in range"), cls, lambda: K.from_real(X[~out], I.fmt(f), *a), E[~out], f, False)
            for side in (X < 0, X > 0):
                b = X[out & side]
                if b.size:
                    x = float(b[np.argmin(abs(b))])
                    e = np.array(max(lo, min(hi, reals.half_up(x, f[2]))), dtype=object)
                    warned(R, I, dict(c, a=x.hex()), cls, lambda: K.from_real(x, I.fmt(f), *a), e, f, s != "Sat_s")


FMT = re.compile(r"\(\s*(-?\d+)\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*\)")
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def text(R, I, case, cls, x, V, f):
    """str() and repr() name the format and show every value (with numpy asked for full precision), and do not warn."""
    if abs(f[1]) > 900 or abs(f[2]) > 900:
        return
    want = [float(int(v) / 2 ** f[2]) if f[2] >= 0 else float(int(v) * 2 ** -f[2]) for v in V.reshape(-1)]
    for nm in ("str", "repr"):
        R.transitions += 1
        R.traces += 1
        c = dict(case, op=nm)
        try:
            with np.printoptions(precision=17, threshold=10 ** 6, floatmode="unique", suppress=False):
                t, nw, ws = I.call(str if nm == "str" else repr, x)
        except I.ImplError as e:
            R.bad("exc", "%s %s raised %s" % (cls, c, e), dict(c, error=str(e)))
            continue
        m = FMT.search(t)
        if not m or tuple(int(i) for i in m.groups()) != tuple(f):
            R.bad("text", "%s %s does not name the format: %s" % (cls, c, t[:80]), c)
        elif [float(i) for i in NUM.findall(t[m.end():].split("dtype")[0])] != want:
            R.bad("text", "%s %s shows other values: %s" % (cls, c, t[:200]), c)
        elif ws:
            R.bad("text", "%s %s warns" % (cls, c), c)


def rsel(m, k):
    """Two derived result formats."""
    c = [(m[0], m[1] - 1, m[2] - 1), (1 - m[0], m[1], m[2] - 1), (m[0], m[1] + 1, m[2] + 1), (1, m[1] - 1, m[2]), (0, m[1], m[2] - 2), (m[0], m[1] - 2, m[2] + 1)]
    c = [f for f in c if f[1] + f[2] >= 0 and ref.width(f) >= 1]
    return [c[k % len(c)], c[(k + 3) % len(c)]]


def work(us):
    from fxv import pyimpl as I, pycheck as C
    P = I.P
    R = H.Result()
    modes = [(rn, s) for rn in ref.RND for s in ref.SAT]
    for what, kind, a, b, k in us:
        if b is None:
            vals = ref.all_values(a) if kind == "s" else ref.corner_values(a, cuts=(1, 2, 5, 30))
            V = ref.arr(vals, ref.width(a) + 12)
            R.states += V.size
            from_real(R, I, {"a_fmt": a}, a, kind)
            for cls, x in objs(I, V, a):
                case = {"cls": cls, "a_fmt": a}
                check_obj(R, I, dict(case, op="data"), cls, x, V, a)
                for op, fm in (("neg", ref_fmt(I, "neg", a)), ("abs", ref_fmt(I, "abs", a))):
                    if cls == "NarrowFix" and ref.is_wide(fm):
                        continue
                    exact = -V if op == "neg" else abs(V)
                    o = attempt(R, I, dict(case, op=op), cls, lambda: getattr(x, op)())
                    if o is not None:
                        check_obj(R, I, dict(case, op=op), cls, o, exact, fm)
                    if op == "neg":
                        o = attempt(R, I, dict(case, op="-x"), cls, lambda: -x)
                        if o is not None:
                            check_obj(R, I, dict(case, op="-x"), cls, o, exact, fm)
                    for j, r in enumerate(rsel(fm, k)):
                        rn, s = modes[(k * 3 + j * 13) % 28]
                        if cls == "NarrowFix" and (ref.is_wide(r) or ref.is_wide(ref.round_fmt(fm, r[2], rn))):
                            continue
                        q = ref.round_int(exact, fm[2], r[2], rn)
                        c = dict(case, op=op, r_fmt=r, rnd=rn, sat=s)
                        o = attempt(R, I, c, cls, lambda: getattr(x, op)(I.fmt(r), I.rnd(rn), I.sat(s)))
                        if o is not None:
                            check_obj(R, I, c, cls, o, ref.saturate_int(q, r, s), r)
                    defaults(R, I, dict(case, op=op), cls, lambda *t: getattr(x, op)(*t), exact, fm, k)
                defaults(R, I, dict(case, op="resize"), cls, lambda *t: x.resize(*t), V, a, k)
                for j, r in enumerate(rsel(a, k) + rsel(a, k + 2)):
                    rn, s = modes[(k * 5 + j * 11) % 28]
                    if cls == "NarrowFix" and (ref.is_wide(r) or ref.is_wide(ref.round_fmt(a, r[2], rn))):
                        continue
                    q = ref.round_int(V if a[2] >= r[2] else V.astype(object), a[2], r[2], rn)
                    w = ref.out_of_range(q, r)
                    c = dict(case, op="resize", r_fmt=r, rnd=rn, sat=s)
                    warned(R, I, c, cls, lambda: x.resize(I.fmt(r), I.rnd(rn), I.sat(s)), ref.saturate_int(q, r, s), r, s in ("Warn_s", "SatWarn_s") and w.any())
                    if w.any() and not w.all():
                        xi = (I.NarrowFix(I.enc_narrow(V[~w], a), I.fmt(a)) if cls == "NarrowFix" else I.WideFix(I.enc_wide(V[~w]), I.fmt(a)))
                        warned(R, I, dict(c, values="in range after rounding"), cls, lambda: xi.resize(I.fmt(r), I.rnd(rn), I.sat(s)), q[~w], r, False)
                if cls != "from_narrowfix":
                    K = I.NarrowFix if cls == "NarrowFix" else I.WideFix
                    o = attempt(R, I, dict(case, op="from_integer"), cls, lambda: K.from_integer(V, I.fmt(a)))
                    if o is not None:
                        check_obj(R, I, dict(case, op="from_integer"), cls, o, V, a)
                    for bad in (ref.vmin(a) - 1, ref.vmax(a) + 1):
                        R.traces += 1
                        try:
                            K.from_integer(np.array([0, bad], dtype=object if abs(bad) > 2 ** 52 else np.int64), I.fmt(a))
                            R.bad("range", "%s.from_integer accepted %d for %s" % (cls, bad, a), dict(case, a=bad))
                        except ValueError:
                            pass
                        except Exception as e:
                            R.bad("exc", "%s.from_integer(%d) %s raised %r" % (cls, bad, a, e), dict(case, a=bad))
                for dF in (-3, -1, 0, 2):
                    rF = a[2] + dF
                    for rn in ref.RND:
                        r = ref.round_fmt(a, rF, rn)
                        if cls == "NarrowFix" and ref.is_wide(r):
                            continue
                        o = attempt(R, I, dict(case, op="round", r_fmt=r, rnd=rn), cls, lambda: x.round(I.fmt(r), I.rnd(rn)))
                        if o is not None:
                            check_obj(R, I, dict(case, op="round", r_fmt=r, rnd=rn), cls, o, ref.round_int(V, a[2], rF, rn), r)
                for S in (0, 1):
                    for dI in (-2, -1, 0, 1):
                        r = (S, a[1] + dI, a[2])
                        if r[1] + r[2] < 0 or ref.width(r) < 1 or (cls == "NarrowFix" and ref.is_wide(r)):
                            continue
                        for s in ref.SAT:
                            warned(R, I, dict(case, op="saturate", r_fmt=r, sat=s), cls, lambda: x.saturate(I.fmt(r), I.sat(s)), ref.saturate_int(V, r, s), r,
                                   s in ("Warn_s", "SatWarn_s") and ref.out_of_range(V, r).any())
                        if cls == "NarrowFix":
                            for rn in ref.RND:
                                r2 = (S, a[1] + dI, a[2] - 1)
                                if r2[1] + r2[2] < 0 or ref.width(r2) < 1 or ref.is_wide(ref.round_fmt(a, r2[2], rn)):
                                    continue
                                o = attempt(R, I, dict(case, op="in_range", r_fmt=r2, rnd=rn), cls, lambda: x.in_range(I.fmt(r2), I.rnd(rn)))
                                e = ~ref.out_of_range(ref.round_int(V, a[2], r2[2], rn), r2)
                                R.transitions += e.size
                                if o is not None and (np.shape(o) != e.shape or (np.asarray(o) != e).any()):
                                    R.bad("in_range", "NarrowFix.in_range %s -> %s %s" % (a, r2, rn), dict(case, r_fmt=r2, rnd=rn))
                for n in (-3, -1, 0, 1, 4):
                    m = (a[0], a[1] + n, a[2] - n)
                    for nm, fn in (("shift", lambda: x.shift(n)), ("<<", lambda: x << n)):
                        o = attempt(R, I, dict(case, op=nm, n=n), cls, fn)
                        if o is not None:
                            check_obj(R, I, dict(case, op=nm, n=n), cls, o, V, m)
                    defaults(R, I, dict(case, op="shift", n=n), cls, lambda *t: x.shift(n, *t), V, m, k)
                na = np.array([(-1, 2, 0)[i % 3] for i in range(V.size)])
                m = (a[0], a[1] + int(na.max()), a[2] - int(na.min()))
                if not (cls == "NarrowFix" and ref.is_wide(m)):
                    o = attempt(R, I, dict(case, op="shift array"), cls, lambda: x.shift(na))
                    if o is not None:
                        check_obj(R, I, dict(case, op="shift array"), cls, o, V * 2 ** (na - na.min()).astype(V.dtype), m)
                R.transitions += 1
                if len(x) != V.size:
                    R.bad("len", "%s len" % cls, case)
                if V.size % 2 == 0:
                    # several dimensions: the length is that of the data, and every operation keeps the shape
                    sh = (V.size // 2, 2) if V.size != 4 else (1, 4)
                    x2 = attempt(R, I, dict(case, op="two dimensions"), cls, lambda: type(x)(x.data.reshape(sh), I.fmt(a)))
                    if x2 is not None:
                        for nm, fn in (("itself", lambda: x2), ("resize", lambda: x2.resize(I.fmt(a))), ("<<", lambda: x2 << 1)):
                            o = attempt(R, I, dict(case, op=nm, dims=sh), cls, fn)
                            if o is not None and (len(o) != sh[0] or o.data.shape != sh):
                                R.bad("len", "%s of shape %s (%s): length %s, shape %s" % (cls, sh, nm, len(o), o.data.shape), case)
                # data / fmt are copies
                d = x.data
                d[...] = 0 * d + (1 if cls != "NarrowFix" else 1.0)
                g = x.fmt
                g.I += 7
                check_obj(R, I, dict(case, op="data after external modification"), cls, x, V, a)
                # constructor copies by default
                src = I.enc_narrow(V, a) if cls == "NarrowFix" else I.enc_wide(V)
                sf = I.fmt(a)
                y = (I.NarrowFix if cls == "NarrowFix" else I.WideFix)(src, sf)
                src[...] = src * 0
                sf.F += 3
                check_obj(R, I, dict(case, op="construct then modify source"), cls, y, V, a)
                # copies, and the text forms
                for nm, fn in (("copy", copy.copy), ("deepcopy", copy.deepcopy)):
                    z = attempt(R, I, dict(case, op=nm), cls, lambda: fn(x))
                    if z is not None:
                        check_obj(R, I, dict(case, op=nm), cls, z, V, a)
                text(R, I, case, cls, x, V, a)
                # extremes
                K = I.NarrowFix if cls == "NarrowFix" else I.WideFix
                for nm, e in (("max_value", ref.vmax(a)), ("min_value", ref.vmin(a))):
                    o = attempt(R, I, dict(case, op=nm), cls, lambda: getattr(K, nm)(I.fmt(a)))
                    if o is not None:
                        ee = np.empty((), dtype=object); ee[()] = e
                        check_obj(R, I, dict(case, op=nm), cls, o, ee, a)
                if cls != "NarrowFix" and ref.width(a) <= 52:
                    o = attempt(R, I, dict(case, op="to_real"), cls, lambda: x.to_real())
                    if o is not None and (np.asarray(o) != I.enc_narrow(V, a)).any():
                        R.bad("to_real", "WideFix.to_real %s" % (a,), case)
                if cls == "NarrowFix":
                    o = attempt(R, I, dict(case, op="to_integer"), cls, lambda: x.to_integer())
                    if o is not None and [int(i) for i in o] != vals:
                        R.bad("to_integer", "NarrowFix.to_integer %s" % (a,), case)
            continue
        # ---------------- binary
        va = ref.all_values(a) if kind == "s" else C.spread(ref.corner_values(a), 12)
        vb = ref.all_values(b) if kind == "s" else C.spread(ref.corner_values(b), 12)
        if kind == "e":
            # numbers representable in both formats (equality must be able to hold)
            for v in (0, 1, 2, 3, -1, -2):
                for (f, l, g, l2) in ((a, va, b, vb),):
                    s = max(f[2], g[2])
                    t = v << 0
                    if f[2] >= g[2]:
                        x, y = t << (f[2] - g[2]), t
                    else:
                        x, y = t, t << (g[2] - f[2])
                    if ref.vmin(f) <= x <= ref.vmax(f) and ref.vmin(g) <= y <= ref.vmax(g):
                        l.append(x); l2.append(y)
        pa = [x for x in va for _ in vb]
        pb = [y for _ in va for y in vb]
        bits = 2 * (ref.width(a) + ref.width(b)) + abs(a[2] - b[2]) + 12
        A, B = ref.arr(pa, bits), ref.arr(pb, bits)
        R.states += A.size
        F = max(a[2], b[2])
        x0, y0 = A * 2 ** (F - a[2]), B * 2 ** (F - b[2])
        for cls, x in objs(I, A, a):
            for cls2, y in objs(I, B, b):
                if (cls == "NarrowFix") != (cls2 == "NarrowFix"):
                    continue
                if cls != cls2 and k % 3:
                    continue
                case = {"cls": cls, "a_fmt": a, "b_fmt": b}
                for op in CMP:
                    e = np.asarray(cmp(op, x0, y0), dtype=bool)
                    o = attempt(R, I, dict(case, op=op), cls, lambda: cmp2(op, x, y))
                    R.transitions += e.size
                    if o is not None and (np.shape(o) != e.shape or (np.asarray(o, dtype=bool) != e).any()):
                        i = int(np.flatnonzero(np.asarray(o, dtype=bool) != e)[0]) if np.shape(o) == e.shape else 0
                        R.bad("compare", "%s %s %s %s wrong for %s, %s" % (cls, a, op, b, pa[i], pb[i]), dict(case, op=op, a=pa[i], b=pb[i]))
                flag = np.arange(A.size) % 2 == 0
                for op, sym in (("add", lambda p, q: p + q), ("sub", lambda p, q: p - q), ("mult", lambda p, q: p * q), ("addsub", None)):
                    m = ref_fmt(I, op, a, b)
                    if cls == "NarrowFix" and ref.is_wide(m):
                        continue
                    ex, eF = ref.op_exact(op, A, a, B, b, flag)
                    if op == "addsub":
                        fns = [("addsub", lambda *t: x.addsub(y, flag, *t))]
                    else:
                        fns = [(op, lambda *t: getattr(x, op)(y, *t))]
                    for nm, fn in fns:
                        o = attempt(R, I, dict(case, op=nm), cls, lambda: fn())
                        if o is not None:
                            check_obj(R, I, dict(case, op=nm), cls, o, ex, m)
                        if eF == m[2]:
                            defaults(R, I, dict(case, op=nm), cls, fn, ex, m, k)
                        for j, r in enumerate(rsel(m, k)):
                            rn, s = modes[(k * 3 + j * 13) % 28]
                            if cls == "NarrowFix" and (ref.is_wide(r) or ref.is_wide(ref.round_fmt(m, r[2], rn))):
                                continue
                            q = ref.round_int(ex if eF >= r[2] else ex.astype(object), eF, r[2], rn)
                            c = dict(case, op=nm, r_fmt=r, rnd=rn, sat=s)
                            o = attempt(R, I, c, cls, lambda: fn(I.fmt(r), I.rnd(rn), I.sat(s)))
                            if o is not None:
                                check_obj(R, I, c, cls, o, ref.saturate_int(q, r, s), r)
                    if op == "addsub":          # one selector for all elements, as a scalar and as an array
                        for sel in (True, False, np.ones(A.shape, bool), np.zeros(A.shape, bool), np.bool_(True)):
                            w = bool(np.all(sel))
                            e1, eF1 = ref.op_exact("add" if w else "sub", A, a, B, b)
                            c = dict(case, op="addsub", select="%s %s" % (type(sel).__name__, w))
                            o = attempt(R, I, c, cls, lambda: x.addsub(y, sel))
                            if o is not None:
                                check_obj(R, I, c, cls, o, ref.round_int(e1 if eF1 >= m[2] else e1.astype(object), eF1, m[2], "Trunc_s"), m)
                            r = rsel(m, k)[0]
                            if not (cls == "NarrowFix" and (ref.is_wide(r) or ref.is_wide(ref.round_fmt(m, r[2], "SymInf_s")))):
                                q = ref.round_int(e1 if eF1 >= r[2] else e1.astype(object), eF1, r[2], "SymInf_s")
                                o = attempt(R, I, dict(c, r_fmt=r), cls, lambda: x.addsub(y, sel, I.fmt(r), I.rnd("SymInf_s"), I.sat("Sat_s")))
                                if o is not None:
                                    check_obj(R, I, dict(c, r_fmt=r), cls, o, ref.saturate_int(q, r, "Sat_s"), r)
                    if sym:
                        o = attempt(R, I, dict(case, op=op + " operator"), cls, lambda: sym(x, y))
                        if o is not None:
                            check_obj(R, I, dict(case, op=op + " operator"), cls, o, ex, m)
                # operands are not modified by any of this
                check_obj(R, I, dict(case, op="left operand afterwards"), cls, x, A, a)
                check_obj(R, I, dict(case, op="right operand afterwards"), cls2, y, B, b)
                if len(R.samples) < 1:
                    R.samples.append(dict(case, a=pa[-1], b=pb[-1], checked=list(CMP) + ["add", "sub", "mult", "addsub"]))
        if k % 4 == 0:
            # align_binary_points keeps values and gives one common resolution, wherever the finest operand stands
            mid = ((1, 2, F + 1), (0, 3, F - 1), (1, 0, 0), (0, 2, -1))[k // 4 % 4]
            mid = mid if mid[1] + mid[2] >= 0 and ref.width(mid) > 0 else (1, 1, 0)
            C3 = ref.arr([ref.vmax(mid), ref.vmin(mid), 0], 300)
            ops = [(A, a), (B, b), (C3, mid)]
            for perm in ((0, 1), (0, 1, 2), (2, 0, 1), (0, 2, 1), (1, 2, 0, 2), (1,)):
                ins = [(ops[i][0], ops[i][1], I.WideFix(I.enc_wide(ops[i][0]), I.fmt(ops[i][1]))) for i in perm]
                arg = [x[2] for x in ins]
                c = {"op": "align", "fmts": [x[1] for x in ins]}
                o = attempt(R, I, c, "WideFix", lambda: I.WideFix.align_binary_points(arg))
                if o is None:
                    continue
                FF = max(x[1][2] for x in ins)
                if len(o) != len(ins) or any(p is not q[2] for p, q in zip(arg, ins)):
                    R.bad("align", "align_binary_points %s changed the caller's list" % c, c)
                    continue
                for p, (v, f, obj) in zip(o, ins):
                    check_obj(R, I, c, "WideFix", p, v.astype(object) * 2 ** (FF - f[2]), (f[0], f[1], FF))
                    check_obj(R, I, dict(c, what="operand afterwards"), "WideFix", obj, v, f)
    return R


def cmp2(op, x, y):
    if op == "==":
        return x == y
    if op == "!=":
        return x != y
    if op == "<":
        return x < y
    if op == "<=":
        return x <= y
    if op == ">":
        return x > y
    return x >= y


def ref_fmt(I, op, a, b=None):
    P = I.P
    args = (I.fmt(a),) if b is None else (I.fmt(a), I.fmt(b))
    return I.tup(getattr(P, "cl_fix_%s_fmt" % op)(*args))


def main():
    t0 = time.time()
    res = H.pool_map("checks.N07", "work", H.chunks(units(), 96))
    return H.finish(PID, res, t0, True, ["narrow class calls whose intermediate format exceeds 53 bits are outside its domain"],
                    "all operand pairs of every pair of formats of width<=3, boundary alphabets up to 128 bits, in every class that can hold the format")
