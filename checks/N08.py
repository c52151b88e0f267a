"""N08: elementwise and shape-preserving for every array layout; no argument is modified, results do not alias
arguments; every call history gives the same answers (no hidden state)."""
import time, itertools
import numpy as np
from fxv import ref, harness as H

PID = "N08"
FM = [(0, 2, 1), (1, 1, 2), (1, 3, -1), (0, -1, 4), (1, 26, 26), (0, 30, 23), (1, 27, 26), (1, 40, 30), (0, 64, 0), (1, -3, 70), (1, 0, 129)]


def layouts(I, f, n=24):
    """Yield (name, data, int array of the same shape): every array layout numpy can hand us."""
    base = ref.corner_values(f)
    base = (base * (n // len(base) + 1))[:n] if len(base) < n else [base[(i * 7) % len(base)] for i in range(n)]
    V = np.empty(n, dtype=object); V[:] = base

    def e(v):
        return np.asarray(I.enc(v, f)) if v.shape != () else I.enc(v[()], f)
    yield "1d", e(V), V
    yield "one element", e(V[:1]), V[:1]
    yield "2d", e(V.reshape(4, 6)), V.reshape(4, 6)
    yield "3d", e(V.reshape(2, 3, 4)), V.reshape(2, 3, 4)
    yield "column", e(V.reshape(24, 1)), V.reshape(24, 1)
    yield "row", e(V.reshape(1, 24)), V.reshape(1, 24)
    yield "singleton axes", e(V[:6].reshape(1, 6, 1)), V[:6].reshape(1, 6, 1)
    yield "fortran", np.asfortranarray(e(V.reshape(4, 6))), V.reshape(4, 6)
    yield "transposed", e(V.reshape(4, 6)).T, V.reshape(4, 6).T
    yield "strided", e(V)[::2], V[::2]
    yield "reversed", e(V)[::-1], V[::-1]
    yield "2d strided", e(V.reshape(4, 6))[1:4:2, ::3], V.reshape(4, 6)[1:4:2, ::3]
    ro = e(V).copy(); ro.setflags(write=False)
    yield "read-only", ro, V
    yield "column slice", e(V.reshape(4, 6))[:, 2:3], V.reshape(4, 6)[:, 2:3]
    yield "4d reversed", e(V.reshape(2, 2, 2, 3))[::-1, :, ::-1], V.reshape(2, 2, 2, 3)[::-1, :, ::-1]
    yield "swapped axes", np.swapaxes(e(V.reshape(2, 3, 4)), 0, 1), np.swapaxes(V.reshape(2, 3, 4), 0, 1)
    yield "broadcast", np.broadcast_to(e(V[:6]), (4, 6)), np.broadcast_to(V[:6], (4, 6))
    if not ref.is_wide(f):
        big_ = np.zeros(n, dtype=[("p", "i1"), ("x", "f8")])       # unaligned field of a record array
        big_["x"] = e(V)
        yield "record field", big_["x"], V
    z = np.empty((), dtype=object if ref.is_wide(f) else float); z[()] = I.enc(base[1], f)
    zi = np.empty((), dtype=object); zi[()] = base[1]
    yield "0-d", z, zi
    yield "scalar", I.enc(base[2], f), base[2]


def menu(I, f):
    """(name, fn(data, other_data) , oracle(int array, other) -> (ints, fmt)) for one operand format."""
    P, F = I.P, I.fmt(f)
    m = []
    r = (f[0], f[1] - 1, f[2] - 1)
    if r[1] + r[2] < 0 or ref.width(r) < 1:
        r = (1, f[1], f[2])
    RF = I.fmt(r)
    q = ref.round_fmt(f, f[2] - 1, "ConvEven_s")
    s = (1 - f[0], f[1], f[2]) if ref.width((1 - f[0], f[1], f[2])) > 0 else (1, f[1], f[2])
    sv = (f[0], max(f[1] - 2, -f[2] + (1 - f[0])), f[2])
    g = I.tup(P.cl_fix_neg_fmt(F)); ab = I.tup(P.cl_fix_abs_fmt(F))
    b = (1, 2, 2)
    B = I.fmt(b)
    fa, fs, fas, fmu = (I.tup(getattr(P, "cl_fix_%s_fmt" % o)(F, B)) for o in ("add", "sub", "addsub", "mult"))
    m.append(("round", lambda x, y: P.cl_fix_round(x, F, I.fmt(q), I.rnd("ConvEven_s")), lambda v, w: (ref.round_int(v, f[2], q[2], "ConvEven_s"), q), None))
    m.append(("saturate", lambda x, y: P.cl_fix_saturate(x, F, I.fmt(sv), I.sat("Sat_s")), lambda v, w: (ref.clip(v, sv), sv), None))
    m.append(("wrap", lambda x, y: P.cl_fix_saturate(x, F, I.fmt(s), I.sat("None_s")), lambda v, w: (ref.wrap(v, s), s), None))
    m.append(("resize", lambda x, y: P.cl_fix_resize(x, F, RF, I.rnd("SymInf_s"), I.sat("Sat_s")), lambda v, w: (ref.clip(ref.round_int(v, f[2], r[2], "SymInf_s"), r), r), None))
    m.append(("resize same", lambda x, y: P.cl_fix_resize(x, F, F), lambda v, w: (v, f), None))
    m.append(("neg", lambda x, y: P.cl_fix_neg(x, F), lambda v, w: (-v, g), None))
    m.append(("abs", lambda x, y: P.cl_fix_abs(x, F), lambda v, w: (abs(v), ab), None))
    m.append(("shift", lambda x, y: P.cl_fix_shift(x, F, 2, None), lambda v, w: (v, (f[0], f[1] + 2, f[2] - 2)), None))

    def bo(op, mf):
        def o(v, w):
            e, eF = ref.op_exact(op, v, f, w, b)
            return ref.round_int(e, eF, mf[2], "Trunc_s"), mf
        return o
    m.append(("add", lambda x, y: P.cl_fix_add(x, F, y, B), bo("add", fa), b))
    m.append(("sub", lambda x, y: P.cl_fix_sub(x, F, y, B), bo("sub", fs), b))
    m.append(("mult", lambda x, y: P.cl_fix_mult(x, F, y, B), bo("mult", fmu), b))
    m.append(("rev sub", lambda x, y: P.cl_fix_sub(y, B, x, F, I.tup_fmt(fas), I.rnd("Trunc_s"), I.sat("Sat_s")),
              lambda v, w: (ref.clip(ref.round_int(-ref.op_exact("sub", v, f, w, b)[0], max(f[2], b[2]), fas[2], "Trunc_s"), fas), fas), b))
    m.append(("addsub", lambda x, y: P.cl_fix_addsub(x, F, y, B, np.ones(np.shape(x), dtype=bool)), bo("add", fas), b))
    m.append(("addsub0", lambda x, y: P.cl_fix_addsub(x, F, y, B, False), bo("sub", fas), b))
    m.append(("integer round trip", lambda x, y: P.cl_fix_from_integer(P.cl_fix_to_integer(x, F), F), lambda v, w: (v, f), None))
    m.append(("in_range", lambda x, y: P.cl_fix_in_range(x, F, RF, I.rnd("NonSymPos_s")), lambda v, w: (~ref.out_of_range(ref.round_int(v, f[2], r[2], "NonSymPos_s"), r), None), None))
    if ref.width(f) <= 50:
        m.append(("real round trip", lambda x, y: P.cl_fix_from_real(P.cl_fix_to_real(x, F), F), lambda v, w: (v, f), None))
    else:
        m.append(("to_real", lambda x, y: np.sign(np.asarray(P.cl_fix_to_real(x, F))), lambda v, w: (np.sign(v) if isinstance(v, np.ndarray) else (v > 0) - (v < 0), None), None))
    return m


def more(I, f, data, v):
    """Further calls for the histories: (name, fn, oracle value, oracle format or None, objects that must survive)."""
    P, b = I.P, (1, 2, 2)
    g = I.tup(P.cl_fix_add_fmt(I.fmt(f), I.fmt(b)))
    o = [("max", lambda x, y: P.cl_fix_max_value(I.fmt(f)), ref.vmax(f), f), ("min", lambda x, y: P.cl_fix_min_value(I.fmt(f)), ref.vmin(f), f),
         ("max of sum", lambda x, y: P.cl_fix_max_value(I.fmt(g)), ref.vmax(g), g), ("min of sum", lambda x, y: P.cl_fix_min_value(I.fmt(g)), ref.vmin(g), g)]
    F, B = I.fmt(f), I.fmt(b)           # format objects kept over the whole history
    for op in ("add", "sub", "addsub", "mult"):
        o.append((op + "_fmt", lambda x, y, op=op: getattr(P, "cl_fix_%s_fmt" % op)(F, B), I.tup(getattr(P, "cl_fix_%s_fmt" % op)(I.fmt(f), I.fmt(b))), "fmt"))
    for op in ("neg", "abs"):
        o.append((op + "_fmt", lambda x, y, op=op: getattr(P, "cl_fix_%s_fmt" % op)(F), I.tup(getattr(P, "cl_fix_%s_fmt" % op)(I.fmt(f))), "fmt"))
    o.append(("round_fmt", lambda x, y: P.cl_fix_round_fmt(F, f[2], I.rnd("Trunc_s")), f, "fmt"))
    o.append(("shift_fmt", lambda x, y: P.cl_fix_shift_fmt(F, 0), f, "fmt"))
    o.append(("union_fmt", lambda x, y: P.cl_fix_union_fmt(F, F), f, "fmt"))
    C = P.WideFix if ref.is_wide(f) else P.NarrowFix
    a = C(np.asarray(data), I.fmt(f))
    for nm, fn, e, ef in (("object", lambda x, y: a, v, f), ("object data", lambda x, y: a.data, v, f), ("object neg", lambda x, y: -a, -v, I.tup(P.cl_fix_neg_fmt(I.fmt(f)))),
                          ("class max", lambda x, y: C.max_value(I.fmt(f)), ref.vmax(f), f), ("class min", lambda x, y: C.min_value(I.fmt(f)), ref.vmin(f), f),
                          ("object abs", lambda x, y: a.abs(), abs(v), I.tup(P.cl_fix_abs_fmt(I.fmt(f))))):
        if ref.is_wide(ef) == ref.is_wide(f):         # the narrow class refuses results of more than 53 bits
            o.append((nm, fn, e, ef))
    return [("%s %s" % (nm, f), fn, None, None, e, ef) for nm, fn, e, ef in o]


def spoil(I, out):
    """What a caller may do with a result: write into every part of it that can be written."""
    if isinstance(out, np.ndarray):
        if out.flags.writeable and out.size:
            out[...] = 12345 if out.dtype == object else True if out.dtype == bool else 0.375
    elif isinstance(out, I.FixFormat):
        out.S, out.I, out.F = 1, out.I + 7, out.F + 3
    elif isinstance(out, (I.WideFix, I.NarrowFix)):
        spoil(I, out.data)
        spoil(I, out.fmt)


SIZES = (2, 3, 7, 16, 31, 64, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 4099, 10007, 65536, 65537)


def big(R, I, f, n):
    """Long arrays: element i of the result is what element i alone would give, whatever the length."""
    base = ref.corner_values(f)
    base = base[:12] + base[-12:]
    pairs = [(a, -16 + (5 * (i + 3 * j)) % 32) for j in range(4) for i, a in enumerate(base)]
    v, w = ref.arr([p[0] for p in pairs], 300), ref.arr([p[1] for p in pairs], 300)
    # a single unusual element at the end (and one in the middle) of otherwise equal ones, and a full mix
    for pat in ("mix", "last", "first"):
        idx = (np.arange(n) * 7) % len(pairs)
        if pat != "mix":
            idx[:] = len(pairs) // 2
            idx[-1 if pat == "last" else 0] = len(pairs) - 1
        data, od = I.enc(v, f)[idx], I.enc(w, (1, 2, 2))[idx]
        shapes = [(n,)] + ([(n // 4, 4)] if n % 4 == 0 and pat == "mix" else [])
        for op, fn, oracle, second in menu(I, f):
            if n > 5000 and ref.is_wide(f) and pat != "mix":
                continue
            e, fm = oracle(v, w)
            for sh in shapes:
                R.states += 1; R.transitions += n; R.traces += 1
                case = {"op": op, "fmt": f, "length": n, "pattern": pat, "shape": sh}
                try:
                    out, _, _ = I.call(fn, data.reshape(sh), od.reshape(sh))
                except I.ImplError as x:
                    R.bad("exc", "%s raised %s" % (case, x), dict(case, error=str(x)))
                    continue
                ee = np.asarray(e)[idx].reshape(sh)
                if fm is None:
                    d = judge(I, out, ee, fm)
                else:
                    want = np.asarray(I.enc(e, fm))[idx].reshape(sh)
                    o = np.asarray(out)
                    d = ("shape", o.shape) if o.shape != want.shape else I.check_repr(out, fm)
                    if d is None and (o != want).any():
                        i = int(np.flatnonzero((o != want).reshape(-1))[0])
                        d = ("value", i, o.reshape(-1)[i], want.reshape(-1)[i])
                if d is not None:
                    R.bad("big", "%s: %s" % (case, d), dict(case, diff=d))


def conversions(R, I, f):
    """Results of conversions and constants belong to the caller: writing to them changes neither input nor later answers."""
    P, F = I.P, I.fmt(f)
    C = I.WideFix if ref.is_wide(f) else I.NarrowFix
    for nm, data, v in layouts(I, f):
        if not isinstance(data, np.ndarray) or nm == "broadcast":
            continue
        real = np.ldexp(np.asarray(v).astype(np.float64), -f[2]) if ref.width(f) <= 53 else np.asarray(v, dtype=object).astype(np.float64) * 2.0 ** -f[2]
        ints = np.array(v, dtype=object) if ref.is_wide(f) else np.array(np.asarray(v), dtype=np.int64)
        for cn, fn, x in (("to_real", lambda x: P.cl_fix_to_real(x, F), data), ("to_integer", lambda x: P.cl_fix_to_integer(x, F), data),
                          ("from_real", lambda x: P.cl_fix_from_real(x, F), real), ("from_integer", lambda x: P.cl_fix_from_integer(x, F), ints),
                          ("resize", lambda x: P.cl_fix_resize(x, F, F), data), ("round", lambda x: P.cl_fix_round(x, F, F, I.rnd("Trunc_s")), data),
                          ("saturate", lambda x: P.cl_fix_saturate(x, F, F, I.sat("None_s")), data), ("shift 0", lambda x: P.cl_fix_shift(x, F, 0, F), data),
                          ("shift 0 default", lambda x: P.cl_fix_shift(x, F, 0, None), data), ("abs", lambda x: P.cl_fix_abs(x, F, F), data),
                          ("class copy", lambda x: C(x, F).data, data), ("class from_real", lambda x: C.from_real(x, F).data, real), ("class from_integer", lambda x: C.from_integer(x, F).data, ints),
                          ("class round", lambda x: C(x, F, copy=False).round(F, I.rnd("Trunc_s")).data, data), ("class saturate", lambda x: C(x, F, copy=False).saturate(F, I.sat("None_s")).data, data),
                          ("class resize", lambda x: C(x, F, copy=False).resize(F).data, data), ("class shift 0", lambda x: (C(x, F, copy=False) << 0).data, data),
                          ("class neg", lambda x: (-C(x, F, copy=False)).data, data), ("class add", lambda x: (C(x, F, copy=False) + C(x, F, copy=False)).data, data),
                          ("class mult", lambda x: (C(x, F, copy=False) * C(x, F, copy=False)).data, data), ("class abs", lambda x: C(x, F, copy=False).abs(F).data, data),
                          ("class align", lambda x: I.WideFix.align_binary_points([I.WideFix(x, F, copy=False), I.WideFix(x, F, copy=False)])[0].data if ref.is_wide(f) else x.copy(), data)):
            if cn in ("class neg", "class add", "class mult", "class abs") and 24 < ref.width(f) <= 53:
                continue        # the narrow class does not hold their intermediate results
            R.states += 1; R.transitions += 2; R.traces += 1
            case = {"call": cn, "fmt": f, "layout": nm}
            keep = x.copy()
            try:
                out, _, _ = I.call(fn, x)
                first = np.array(out, copy=True)
                spoil(I, out)
                if np.asarray(x != keep).any():
                    R.bad("alias", "%s: writing to the result changed the argument" % case, case)
                    x = keep.copy()
                again, _, _ = I.call(fn, x)
                if np.shape(again) != first.shape or np.asarray(np.asarray(again) != first).any():
                    R.bad("history", "%s: the second call gives another answer" % case, case)
                hold = np.array(again, copy=True)
                if x.flags.writeable and x.size:
                    x[...] = x.reshape(-1)[-1:].reshape((1,) * x.ndim) * 0
                    if np.asarray(np.asarray(again) != hold).any():
                        R.bad("alias", "%s: writing to the argument afterwards changed the result" % case, case)
                    x[...] = keep
            except I.ImplError as e:
                R.bad("exc", "%s raised %s" % (case, e), dict(case, error=str(e)))
        # a number object keeps its value whatever happens to the array it was made from
        u64 = None
        if ref.is_wide(f) and x_ok(data):
            import en_cl_fix_pkg.matlab_interface as M
            u64 = I.call(M.to_uint64_array, np.array(data, copy=True), F)[0]
        for cn, fn, x in (("constructor", lambda x: C(x, F), data), ("from_real", lambda x: C.from_real(x, F), real), ("from_integer", lambda x: C.from_integer(x, F), ints),
                          ("from_uint64_array", lambda x: C.from_uint64_array(x, F), np.ascontiguousarray(np.moveaxis(u64, -1, 0)) if u64 is not None else None),
                          ("resize of constructor", lambda x: C(x, F).resize(F), data), ("round of from_integer", lambda x: C.from_integer(x, F).round(F, I.rnd("Trunc_s")), ints)):
            if x is None or not x.flags.writeable or not x.size:
                continue
            R.states += 1; R.transitions += 2; R.traces += 1
            case = {"call": "class " + cn, "fmt": f, "layout": nm}
            keep = x.copy()
            try:
                o, _, _ = I.call(fn, x)
                hold = np.array(o.data, copy=True)
                x[...] = x.reshape(-1)[-1:].reshape((1,) * x.ndim) * 0
                if np.asarray(np.asarray(o.data) != hold).any():
                    R.bad("alias", "%s: writing to the argument afterwards changed the number" % case, case)
                spoil(I, o.data)
                if np.asarray(np.asarray(o.data) != hold).any():
                    R.bad("alias", "%s: writing to the data handed out changed the number" % case, case)
                x[...] = keep
            except I.ImplError as e:
                R.bad("exc", "%s raised %s" % (case, e), dict(case, error=str(e)))


def x_ok(x):
    return x.ndim > 0 and x.size > 0


def value(o, I):
    """What can be seen of a result."""
    if isinstance(o, (I.WideFix, I.NarrowFix)):
        d = o.data
        return (type(o).__name__, I.tup(o.fmt), np.shape(d), [int(x) if not isinstance(x, float) else float(x) for x in np.asarray(d).reshape(-1).tolist()])
    if isinstance(o, I.FixFormat):
        return I.tup(o)
    if isinstance(o, (list, tuple)):
        return [value(x, I) for x in o]
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, o.tolist())
    return o


def objects(R, I, f, cls):
    """Number objects: no sequence of method calls changes an operand, and each call keeps giving its first answer."""
    K = getattr(I, cls)
    N = cls == "NarrowFix"

    def obj(g, n, shape=None):
        b = ref.corner_values(g)
        v = ref.arr([b[(i * 5) % len(b)] for i in range(n)], ref.width(g) + 4)
        d = I.enc_narrow(v, g) if N else I.enc_wide(v)
        return K(d.reshape(shape) if shape else d, I.fmt(g))
    g = (1, 2, 3)
    pool = {"x": obj(f, 6), "y": obj(g, 6), "m": obj(f, 6, (2, 3))}
    fits = lambda t: not N or not ref.is_wide(t)
    lo = (f[0], f[1], f[2] - 2) if f[1] + f[2] - 2 >= 0 and ref.width(f) > 2 else f
    rf = ref.round_fmt(f, lo[2], "Trunc_s")
    up = (f[0], f[1], f[2] + 1)
    st = (1 - f[0], f[1] - 1, f[2]) if f[1] + f[2] >= 1 and ref.width((1 - f[0], f[1] - 1, f[2])) > 0 else (1, f[1], f[2])
    A = lambda o, *t: I.tup(getattr(I.P, "cl_fix_%s_fmt" % o)(*[I.fmt(x) for x in t]))
    M = []
    for n in ("x", "m"):
        M += [(n, "round", lambda o, p: o.round(I.fmt(rf), I.rnd("Trunc_s")), rf), (n, "saturate", lambda o, p: o.saturate(I.fmt(st), I.sat("Sat_s")), st),
              (n, "wrap", lambda o, p: o.saturate(I.fmt(st), I.sat("None_s")), st), (n, "resize", lambda o, p: o.resize(I.fmt(lo), I.rnd("Trunc_s"), I.sat("None_s")), lo),
              (n, "resize same", lambda o, p: o.resize(I.fmt(f)), f)]
    for rn in ref.RND:
        t = ref.round_fmt(f, lo[2], rn)
        M.append(("x", "round " + rn, lambda o, p, t=t, rn=rn: o.round(I.fmt(t), I.rnd(rn)), t))
    t = ref.round_fmt(f, up[2], "Trunc_s")
    M.append(("x", "round up", lambda o, p: o.round(I.fmt(t), I.rnd("Trunc_s")), t))
    M.append(("x", "round none", lambda o, p: o.round(I.fmt(f), I.rnd("Trunc_s")), f))
    M.append(("x", "saturate none", lambda o, p: o.saturate(I.fmt(f), I.sat("SatWarn_s")), f))
    M += [("x", "neg", lambda o, p: o.neg(), A("neg", f)), ("x", "-", lambda o, p: -o, A("neg", f)), ("x", "abs", lambda o, p: o.abs(), A("abs", f)),
          ("x", "<< 2", lambda o, p: o << 2, f), ("x", "shift 0", lambda o, p: o.shift(0), f),
          ("x", "shift array", lambda o, p: o.shift(np.array([0, 1, -1, 2, 0, 1])), (f[0], f[1] + 2, f[2] + 1)), ("x", "shift zeros", lambda o, p: o.shift(np.zeros(6, dtype=int)), f)]
    for op in ("add", "sub", "mult"):
        M.append(("x", op, lambda o, p, op=op: getattr(o, op)(p), A(op, f, g)))
        M.append(("x", op + " itself", lambda o, p, op=op: getattr(o, op)(o), A(op, f, f)))
    M += [("x", "addsub", lambda o, p: o.addsub(p, np.arange(6) % 2 == 0), A("addsub", f, g)), ("x", "addsub True", lambda o, p: o.addsub(p, True), A("addsub", f, g)),
          ("x", "addsub itself", lambda o, p: o.addsub(o, False), A("addsub", f, f))]
    for c in ("==", "!=", "<", "<=", ">", ">="):
        M.append(("x", c, lambda o, p, c=c: {"==": o.__eq__, "!=": o.__ne__, "<": o.__lt__, "<=": o.__le__, ">": o.__gt__, ">=": o.__ge__}[c](p), f))
    M += [("x", "data", lambda o, p: o.data, f), ("x", "fmt", lambda o, p: o.fmt, f), ("x", "repr", lambda o, p: repr(o), f), ("x", "str", lambda o, p: str(o), f), ("x", "len", lambda o, p: len(o), f)]
    if N:
        M += [("x", "to_integer", lambda o, p: o.to_integer(), f), ("x", "in_range", lambda o, p: o.in_range(I.fmt(lo), I.rnd("NonSymPos_s")), ref.round_fmt(f, lo[2], "NonSymPos_s")),
              ("x", "from_narrowfix", lambda o, p: I.WideFix.from_narrowfix(o), f)]
    else:
        M += [("x", "to_real", lambda o, p: o.to_real(), f), ("m", "to_uint64_array", lambda o, p: o.to_uint64_array(), f), ("x", "align", lambda o, p: K.align_binary_points([o, p]), f),
              ("x", "align same", lambda o, p: K.align_binary_points([o, o]), f), ("l", "align list", lambda o, p: K.align_binary_points(o), f)]
        pool["l"] = [pool["y"], pool["x"], obj((1, 3, f[2] + 3), 6)]
    M = [m for m in M if fits(m[3]) and (not m[1].startswith("shift array") or fits((f[0], f[1] + 2, f[2] + 1)))]
    before = {n: value(o, I) for n, o in pool.items()}
    first = {}
    for depth in (1, 2):
        for hist in itertools.product(range(len(M)), repeat=depth):
            R.states += 1; R.traces += 1
            for k, j in enumerate(hist):
                n, nm, fn, _ = M[j]
                R.transitions += 1
                case = {"class": cls, "fmt": f, "history": [M[i][1] for i in hist]}
                try:
                    out, _, _ = I.call(fn, pool[n], pool["y"])
                except I.ImplError as e:
                    R.bad("exc", "%s raised %s" % (case, e), dict(case, error=str(e)))
                    return
                got = value(out, I)
                if depth == 1:
                    first[j] = got
                elif got != first[j]:
                    R.bad("history", "%s: %s now gives %s, before %s" % (case, nm, str(got)[:200], str(first[j])[:200]), case)
                    return
                for o in out if isinstance(out, list) else [out]:
                    spoil(I, o)
                for q in pool:
                    if value(pool[q], I) != before[q]:
                        R.bad("mutate", "%s: %s changed an operand from %s to %s" % (case, nm, str(before[q])[:200], str(value(pool[q], I))[:200]), case)
                        return
    if len(R.samples) < 1:
        R.samples.append({"class": cls, "fmt": f, "calls": [m[1] for m in M]})


def surroundings(R):
    """Importing the package and every call leave the process-wide settings as they were; in a process of its own."""
    import json, os, subprocess, sys
    code = "import sys; sys.path.insert(0, %r); from fxv import surround; surround.main()" % H.VERIF
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ))
    line = [x for x in p.stdout.splitlines() if x.startswith("SURROUND ")]
    if p.returncode or not line:
        R.bad("exc", "the process that imports and calls the package ended with %s: %s" % (p.returncode, p.stdout[-400:]), {"output": p.stdout[-2000:]})
        return
    rep = json.loads(line[0][9:])
    R.states += rep["calls"]; R.transitions += rep["calls"]; R.traces += rep["calls"]
    for what, d in rep["bad"]:
        R.bad("surroundings", "%s changed the process: %s" % (what, "; ".join(d)), {"call": what, "changes": d})


def snapshot(x):
    if isinstance(x, np.ndarray):
        return (x.copy(), x.shape, x.strides, x.dtype)
    return x


def same(x, s):
    if isinstance(x, np.ndarray):
        return x.shape == s[1] and x.strides == s[2] and x.dtype == s[3] and bool(np.all(x == s[0]))
    return x == s


def judge(I, out, exp, fm):
    if fm == "fmt":
        return None if I.tup(out) == tuple(exp) else ("format", str(I.tup(out)), str(exp))
    if isinstance(out, (I.WideFix, I.NarrowFix)):
        if I.tup(out.fmt) != tuple(fm):
            return ("format", str(I.tup(out.fmt)), str(fm))
        d = out.data
        return I.compare(d if np.shape(exp) or not ref.is_wide(fm) else int(d), exp, fm)
    if fm is None:
        o = np.asarray(out)
        return None if o.shape == np.shape(exp) and not np.asarray(o != exp).any() else ("value", str(o), str(exp))
    return I.compare(out, exp, fm)


def work(us):
    from fxv import pyimpl as I
    I.tup_fmt = lambda f: I.fmt(f)
    R = H.Result()
    for u in us:
        if u[0] == "shape":
            f = u[1]
            b = (1, 2, 2)
            for nm, data, v in layouts(I, f):
                n = np.size(v)
                w = np.empty(n, dtype=object)
                w[:] = [(-16 + (5 * i) % 32) for i in range(n)]
                w = w.reshape(np.shape(v)) if np.shape(v) != () else (w[0] if not isinstance(v, np.ndarray) else w.reshape(()))
                wd = I.enc(w, b) if isinstance(w, np.ndarray) and w.shape != () else I.enc(int(w if not isinstance(w, np.ndarray) else w[()]), b)
                pairs = [(wd, w, "same shape")]
                if np.shape(v) != ():
                    pairs.append((I.enc(-7, b), -7, "scalar operand"))
                for op, fn, oracle, second in menu(I, f):
                    for od, ov, how in (pairs if second else pairs[:1]):
                        R.states += 1
                        R.transitions += n
                        R.traces += 1
                        s1, s2 = snapshot(data), snapshot(od)
                        case = {"op": op, "fmt": f, "layout": nm, "operands": how}
                        try:
                            vv = v if isinstance(v, np.ndarray) and v.shape != () else (v[()] if isinstance(v, np.ndarray) else v)
                            ovv = ov if isinstance(ov, np.ndarray) and ov.shape != () else (ov[()] if isinstance(ov, np.ndarray) else ov)
                            exp, fm = oracle(vv, ovv)
                            out, _, _ = I.call(fn, data, od)
                        except I.ImplError as e:
                            R.bad("exc", "%s raised %s" % (case, e), dict(case, error=str(e)))
                            continue
                        d = judge(I, out, exp, fm)
                        if d is not None:
                            R.bad("value", "%s: %s" % (case, d), dict(case, diff=d))
                        if not same(data, s1) or not same(od, s2):
                            R.bad("mutate", "%s modified its argument" % case, case)
                        if isinstance(out, np.ndarray) and isinstance(data, np.ndarray) and np.shares_memory(out, data):
                            R.bad("alias", "%s: result aliases its argument" % case, case)
                        if isinstance(out, np.ndarray) and isinstance(od, np.ndarray) and second and np.shares_memory(out, od):
                            R.bad("alias", "%s: result aliases its second argument" % case, case)
            # lists are accepted for narrow data
            if not ref.is_wide(f):
                vals = ref.corner_values(f)[:10]
                v = np.empty(len(vals), dtype=object); v[:] = vals
                for op, fn, oracle, second in menu(I, f):
                    if second or op in ("addsub", "addsub0"):
                        continue
                    R.states += 1; R.transitions += len(vals); R.traces += 1
                    data = [float(x) for x in I.enc(v, f)]
                    keep = list(data)
                    case = {"op": op, "fmt": f, "layout": "list"}
                    try:
                        exp, fm = oracle(v, None)
                        out, _, _ = I.call(fn, data, None)
                    except I.ImplError as e:
                        R.bad("exc", "%s raised %s" % (case, e), dict(case, error=str(e)))
                        continue
                    d = judge(I, out, exp, fm)
                    if d is not None or data != keep:
                        R.bad("list", "%s: %s" % (case, d), case)
            if len(R.samples) < 1:
                R.samples.append({"fmt": f, "layouts": [x[0] for x in layouts(I, f)], "operations": [x[0] for x in menu(I, f)]})
        elif u[0] == "conv":
            conversions(R, I, u[1])
        elif u[0] == "surround":
            surroundings(R)
        elif u[0] == "obj":
            objects(R, I, u[1], u[2])
        elif u[0] == "big":
            big(R, I, u[1], u[2])
        elif u[0] == "fmtargs":
            # format arguments are never modified, even when they coincide with one another
            P = I.P
            for a in FM:
                for b in FM:
                    for op in ("add", "sub", "addsub", "mult"):
                        A = I.fmt(a); B = A if a == b else I.fmt(b)
                        x, y = I.enc(1, a), I.enc(1, b)
                        R.states += 1; R.transitions += 1; R.traces += 1
                        try:
                            if op == "addsub":
                                P.cl_fix_addsub(x, A, y, B, True)
                                P.cl_fix_addsub(x, A, y, B, False, A)
                            else:
                                getattr(P, "cl_fix_" + op)(x, A, y, B)
                                getattr(P, "cl_fix_" + op)(x, A, y, B, A)
                            for o2 in ("neg", "abs"):
                                getattr(P, "cl_fix_" + o2)(x, A)
                                getattr(P, "cl_fix_" + o2)(x, A, B)
                            P.cl_fix_resize(x, A, B); P.cl_fix_in_range(x, A, B); P.cl_fix_shift(x, A, 1, None); P.cl_fix_shift(x, A, -2, A)
                        except Exception as e:
                            R.bad("exc", "%s %s %s raised %r" % (op, a, b, e), {"op": op, "a_fmt": a, "b_fmt": b})
                            continue
                        if I.tup(A) != a or I.tup(B) != b:
                            R.bad("mutate", "cl_fix_%s modified its format arguments: %s->%s %s->%s" % (op, a, I.tup(A), b, I.tup(B)), {"op": op, "a_fmt": a, "b_fmt": b})
        else:
            # all call histories of the menu up to depth 3: every answer equals the history-free answer
            P = I.P
            f1, f2 = u[1]
            items = []
            for f in (f1, f2):
                vals = ref.corner_values(f)[:5] + ref.corner_values(f)[-5:]
                v = np.empty(len(vals), dtype=object); v[:] = vals
                w = np.empty(len(vals), dtype=object); w[:] = [(-16 + 3 * i) for i in range(len(vals))]
                data, od = I.enc(v, f), I.enc(w, (1, 2, 2))
                for op, fn, oracle, second in menu(I, f):
                    if u[2] and op not in ("round", "saturate", "wrap", "add", "mult", "abs", "in_range"):
                        continue
                    items.append(("%s %s" % (op, f), fn, data, od) + oracle(v, w))
                items += [m for m in more(I, f, data, v) if not u[2] or m[0].startswith(("max ", "min ", "add_fmt", "object ("))]
            # calls that are refused also must not leave anything behind
            items.append(("refused round", lambda x, y: refuse(lambda: P.cl_fix_round(np.array([1.0]), P.FixFormat(0, 2, 2), P.FixFormat(0, 2, 1), I.rnd("SymInf_s"))), None, None, None, "refused"))
            items.append(("refused from_real", lambda x, y: refuse(lambda: P.cl_fix_from_real(np.array([1.0]), P.FixFormat(0, 2, 2), I.sat("None_s"))), None, None, None, "refused"))
            depth = 2
            for hist in itertools.product(range(len(items)), repeat=depth + (1 if u[2] else 0)):
                R.states += 1
                R.traces += 1
                for j in hist:
                    nm, fn, data, od, exp, fm = items[j]
                    R.transitions += 1
                    try:
                        out, _, _ = I.call(fn, data, od)
                    except I.ImplError as e:
                        R.bad("exc", "history %s: %s raised %s" % ([items[i][0] for i in hist], nm, e), {"history": [items[i][0] for i in hist]})
                        break
                    if fm == "refused":
                        continue
                    d = judge(I, out, exp, fm)
                    if d is not None:
                        R.bad("history", "history %s (results written to in between): %s gave %s" % ([items[i][0] for i in hist], nm, d), {"history": [items[i][0] for i in hist], "diff": d})
                        break
                    spoil(I, out)
    return R


def refuse(f):
    try:
        f()
    except Exception:
        return 0
    return 1


def main():
    t0 = time.time()
    us = [("shape", f) for f in FM + (ref.edge_formats(widths=(3, 8, 31, 32, 33, 52, 53, 54, 63, 64, 65, 128)) if H.THOROUGH else [])]
    us += [("fmtargs",), ("surround",)]
    more_f = ref.edge_formats(widths=(3, 8, 31, 32, 33, 52, 53, 54, 63, 64, 65, 128), splits=("mid",))
    us += [("conv", f) for f in FM + more_f]
    us += [("obj", f, c) for f in FM + [(1, 4, 3)] + (more_f if H.THOROUGH else []) for c in ("WideFix", "NarrowFix") if c == "WideFix" or not ref.is_wide(f)]
    us += [("big", f, n) for n in SIZES[::-1] + ((262147,) if H.THOROUGH else ()) for f in FM]
    pairs = [(FM[1], FM[2]), (FM[4], FM[6]), (FM[1], FM[9]), (FM[7], FM[8])]
    if H.THOROUGH:
        pairs = [(FM[i], FM[j]) for i in range(len(FM)) for j in range(i)]
    us += [("hist", p, False) for p in pairs] + [("hist", p, True) for p in (pairs[:4] if not H.THOROUGH else pairs)]
    res = H.pool_map("checks.N08", "work", [[u] for u in us])
    return H.finish(PID, res, t0, True, ["wide data is passed as integers or object arrays (Python lists only for narrow data)"],
                    "arrays of every length class up to 65537; every array layout (scalar, 0-d, 1..3-d, strided, transposed, read-only) x every operation x formats on both sides of every representation boundary; all call histories of depth 2 over the full menu and 3 over the core menu")
