"""V01: the Python model refuses every request outside its rules (and only those): it raises and returns nothing."""
import itertools, time
import numpy as np
from fxv import ref, harness as H

PID = "V01"


class Judge:
    def __init__(self, R, I):
        self.R, self.I = R, I

    def __call__(self, what, info, legal, fn, *a, **k):
        """fn(*a) must raise an ordinary exception iff the request is not legal."""
        R = self.R
        R.states += 1
        R.transitions += 1
        R.traces += 1
        err = None
        try:
            self.I.call(fn, *a, **k)
        except self.I.ImplError as e:
            err = str(e)
        if legal and err:
            R.bad("refused", "%s %s: a legal request was refused: %s" % (what, info, err[:200]), dict(info, call=what, error=err))
        if not legal and err is None:
            R.bad("accepted", "%s %s: an illegal request was answered" % (what, info), dict(info, call=what))

    def bad(self, what, info, fn, *a, **k):
        self(what, info, False, fn, *a, **k)


def edge(n):
    return ref.edge_formats(widths=(1, 2, 52, 53, 54, 64, 65, 128), splits=("mid", "int", "frac", "neg_i", "neg_f"))[::n]


def near(f, d):
    """Legal formats next to f."""
    for s in (0, 1):
        for i in range(-d, d + 1):
            for q in range(-d, d + 1):
                g = (s, f[1] + i, f[2] + q)
                if g[1] + g[2] >= 0 and sum(g) >= 1:
                    yield g


def units():
    T = H.THOROUGH
    F = ref.small_formats(6, -5, 6, -5, 6) if T else ref.small_formats(4, -3, 4, -3, 4)
    us = [("ctor", s) for s in (-2, -1, 0, 1, 2, 3, 0.5)]
    us += [("round", f, tuple(F)) for f in F] + [("round", f, tuple(near(f, 4 if T else 2))) for f in edge(1)]
    us += [("sat", f, tuple(F)) for f in F] + [("sat", f, tuple(near(f, 4 if T else 2))) for f in edge(1)]
    us += [("null", f) for f in F[::2] + edge(9)] + [("shiftfmt", f) for f in F + edge(3)]
    us += [("int", f) for f in F + edge(1)] + [("real", f) for f in F[::2] + edge(2)]
    us += [("kind", f) for f in F[::3] + edge(2)] + [("shape", f, g) for f, g in itertools.product(F[::9] + edge(17), repeat=2)]
    us += [("matlab", f) for f in F[::5] + edge(2)] + [("classes", f, g) for f, g in itertools.product(F[::11] + edge(29), repeat=2)] + [("modes", f) for f in F[::2] + edge(3)]
    return us


def work(us):
    from fxv import pyimpl as I, pycheck as C
    P = I.P
    R = H.Result()
    J = Judge(R, I)
    RND = [I.rnd(r) for r in ref.RND]
    SAT = [I.sat(s) for s in ref.SAT]

    def data(f, shape=(2,)):
        v = np.resize(np.array(C.spread(ref.corner_values(f), 4), dtype=object), shape)
        return I.enc(v, f)

    def scalar(f):
        return I.enc(int(ref.corner_values(f)[0]), f)

    def obj(f, cls=None):
        W = cls == "wide" or (cls is None and ref.is_wide(f))
        v = np.array(C.spread(ref.corner_values(f), 3), dtype=object)
        return P.WideFix(I.enc_wide(v), I.fmt(f)) if W else P.NarrowFix(I.enc_narrow(v, f), I.fmt(f))

    for u in us:
        k = u[0]
        if k == "ctor":
            for i, q in itertools.product(range(-9, 10), repeat=2):
                for w in (0, 60):
                    J("FixFormat", {"fmt": (u[1], i + w, q)}, u[1] in (0, 1) and i + w + q >= 0, P.FixFormat, u[1], i + w, q)
        elif k == "round":
            f, rs = u[1:]
            F = I.fmt(f)
            x, s = data(f), scalar(f)
            for r, m, name in ((r, m, n) for r in rs for m, n in zip(RND, ref.RND)):
                legal = r == ref.round_fmt(f, r[2], name)
                info = {"a_fmt": f, "r_fmt": r, "rnd": name}
                J("cl_fix_round", info, legal, P.cl_fix_round, x, F, I.fmt(r), m)
                J("cl_fix_round of a scalar", info, legal, P.cl_fix_round, s, F, I.fmt(r), m)
                J("WideFix.round", info, legal, lambda: obj(f, "wide").round(I.fmt(r), m))
                if not ref.is_wide(f) and (not legal or not ref.is_wide(r)):
                    J("NarrowFix.round", info, legal, lambda: obj(f, "narrow").round(I.fmt(r), m))
        elif k == "sat":
            f, rs = u[1:]
            F = I.fmt(f)
            x, s = data(f), scalar(f)
            for r, m, name in ((r, m, n) for r in rs for m, n in zip(SAT, ref.SAT)):
                legal = r[2] == f[2]
                info = {"a_fmt": f, "r_fmt": r, "sat": name}
                J("cl_fix_saturate", info, legal, P.cl_fix_saturate, x, F, I.fmt(r), m)
                J("cl_fix_saturate of a scalar", info, legal, P.cl_fix_saturate, s, F, I.fmt(r), m)
                J("WideFix.saturate", info, legal, lambda: obj(f, "wide").saturate(I.fmt(r), m))
                if not ref.is_wide(f) and (not legal or not ref.is_wide(r)):
                    J("NarrowFix.saturate", info, legal, lambda: obj(f, "narrow").saturate(I.fmt(r), m))
        elif k == "null":
            f = u[1]
            F = I.fmt(f)
            for i in range(-3, 4):
                z = (0, i, -i)
                Z = I.fmt(z)
                info = {"fmt": f, "null": z}
                for n in ("add", "sub", "addsub", "mult"):
                    fn = getattr(P, "cl_fix_%s_fmt" % n)
                    for a, b in ((F, Z), (Z, F), (Z, Z)):
                        J.bad("cl_fix_%s_fmt%s" % (n, (str(a), str(b))), info, fn, a, b)
                    J("cl_fix_%s_fmt" % n, {"fmt": f}, True, fn, F, F)
                for n, rest in (("neg", ()), ("abs", ()), ("shift", (1,)), ("shift", (0, 2))) + tuple(("round", (q, m)) for q in (-i - 1, -i, -i + 1) for m in RND):
                    J.bad("cl_fix_%s_fmt%s" % (n, (str(Z),) + rest), {"null": z}, getattr(P, "cl_fix_%s_fmt" % n), Z, *rest)
        elif k == "shiftfmt":
            F = I.fmt(u[1])
            for lo, hi in itertools.product(range(-4, 5), repeat=2):
                # only the order of the limits is judged; limits may also leave no format at all
                if lo > hi or u[1][1] + hi + u[1][2] - lo >= 0:
                    J("cl_fix_shift_fmt(%d, %d)" % (lo, hi), {"fmt": u[1]}, lo <= hi, P.cl_fix_shift_fmt, F, lo, hi)
        elif k == "int":
            f = u[1]
            F = I.fmt(f)
            lo, hi = ref.vmin(f), ref.vmax(f)
            ws = sorted({lo - 2 ** j for j in range(0, 8)} | {hi + 2 ** j for j in range(0, 8)} | {2 * lo, 2 * hi, 2 * lo - 1, 2 * hi + 1, 4 * hi + 4, lo, hi, -1, 0, 1} | ({2 ** ref.width(f), -2 ** ref.width(f)}))
            good = (lo + hi) // 2
            for v in ws:
                legal = lo <= v <= hi
                if not ref.is_wide(f) and abs(v) > 2 ** 53:
                    continue
                info = {"fmt": f, "value": v}
                J("cl_fix_from_integer", info, legal, P.cl_fix_from_integer, int(v), F)
                J("WideFix.from_integer", info, legal, P.WideFix.from_integer, int(v), F)
                for n, pos in ((1, 0), (3, 0), (3, 1), (3, 2), (9, 8)):
                    x = np.full(n, good, dtype=object)
                    x[pos] = v
                    x2 = x if ref.is_wide(f) else x.astype(np.int64)
                    J("cl_fix_from_integer of %d values, the one at %d" % (n, pos), info, legal, P.cl_fix_from_integer, x2, F)
                    J("WideFix.from_integer of %d values, the one at %d" % (n, pos), info, legal, P.WideFix.from_integer, x, F)
                    if not ref.is_wide(f):
                        J("NarrowFix.from_integer of %d values, the one at %d" % (n, pos), info, legal, P.NarrowFix.from_integer, x2, F)
        elif k == "real":
            f = u[1]
            F = I.fmt(f)
            for x in (0.0, np.array([0.0]), np.array([0.0, 2.0 ** f[1] * 4, -2.0 ** f[1] * 4])):
                for m, name in zip(SAT, ref.SAT):
                    legal = name in ("Sat_s", "SatWarn_s")
                    info = {"fmt": f, "sat": name, "a": str(x)}
                    J("cl_fix_from_real", info, legal, P.cl_fix_from_real, x, F, m)
                    J("WideFix.from_real", info, legal, P.WideFix.from_real, np.asarray(x), F, m)
                    if not ref.is_wide(f):
                        J("NarrowFix.from_real", info, legal, P.NarrowFix.from_real, x, F, m)
        elif k == "kind":
            f = u[1]
            F = I.fmt(f)
            wide = ref.is_wide(f)
            n = [0, 1] if f[0] == 0 else [0, -1]
            if wide:
                wrong = [("float array", np.array(n, dtype=float)), ("int64 array", np.array(n)), ("uint64 array", np.array([0, 1], dtype=np.uint64)), ("int8 array", np.array(n, dtype=np.int8)), ("float", 0.0), ("np.int64", np.int64(0)), ("np.float64", np.float64(1)), ("object array of floats", np.array([0.0, 1.0], dtype=object)),
                         ("None", None), ("bool array", np.array([True, False])), ("text", np.array(["1", "0"]))]
            else:
                wrong = [("object array", np.array(n, dtype=object)), ("int64 array", np.array(n)), ("uint8 array", np.array([0, 1], dtype=np.uint8)), ("float32 array", np.array(n, dtype=np.float32)), ("int", 0), ("np.int64", np.int64(0)), ("np.float32", np.float32(0)), ("complex array", np.array(n, dtype=complex)), ("bool array", np.array([True, False])), ("text", np.array(["1", "0"])), ("None", None)]
            t = (1 - f[0] if f[0] == 0 or f[1] + f[2] > 0 else 1, f[1], f[2])
            good, G = data(f), F
            other = (1, 40, 40) if not wide else (1, 3, 2)
            O = I.fmt(other)
            for label, x in wrong:
                info = {"fmt": f, "data": label}
                for m in (RND[0], RND[3]):
                    rf = P.cl_fix_round_fmt(F, f[2] - 1, m)
                    J.bad("cl_fix_round", info, P.cl_fix_round, x, F, rf, m)
                    J.bad("cl_fix_in_range", info, P.cl_fix_in_range, x, F, rf, m)
                    J.bad("cl_fix_resize", info, P.cl_fix_resize, x, F, O, m, SAT[2])
                for m in SAT:
                    J.bad("cl_fix_saturate", info, P.cl_fix_saturate, x, F, I.fmt(t), m)
                for fn in (P.cl_fix_abs, P.cl_fix_neg):
                    J.bad(fn.__name__, info, fn, x, F)
                    J.bad(fn.__name__ + " with a result format", info, fn, x, F, O, RND[1], SAT[3])
                J.bad("cl_fix_shift", info, P.cl_fix_shift, x, F, 1, None)
                J.bad("cl_fix_to_real" if wide else "cl_fix_to_integer", info, P.cl_fix_to_real if wide else P.cl_fix_to_integer, x, F)
                for y, Y in ((good, G), (data(other), O)):
                    for fn in (P.cl_fix_add, P.cl_fix_sub, P.cl_fix_mult):
                        J.bad(fn.__name__ + ", left operand", info, fn, x, F, y, Y)
                        J.bad(fn.__name__ + ", right operand", info, fn, y, Y, x, F)
                    for s in (True, False):
                        J.bad("cl_fix_addsub, left operand", info, P.cl_fix_addsub, x, F, y, Y, s)
                        J.bad("cl_fix_addsub, right operand", info, P.cl_fix_addsub, y, Y, x, F, s)
                if wide:
                    J.bad("WideFix", info, P.WideFix, x, F)
                else:
                    J.bad("NarrowFix", info, P.NarrowFix, x, F)
            if wide:
                J.bad("NarrowFix", {"fmt": f}, P.NarrowFix, np.array([0.0]), F)
                J.bad("NarrowFix of a scalar", {"fmt": f}, P.NarrowFix, 0.0, F)
                J.bad("NarrowFix of integers", {"fmt": f}, P.NarrowFix, good, F)
        elif k == "shape":
            f, g = u[1:]
            F, G = I.fmt(f), I.fmt(g)
            for p, q in itertools.product(((2,), (3,), (2, 1), (2, 2), (2, 3), (3, 2)), repeat=2):
                try:
                    np.broadcast_shapes(p, q)
                    legal = True
                except ValueError:
                    legal = False
                x, y = data(f, p), data(g, q)
                info = {"a_fmt": f, "b_fmt": g, "shapes": (p, q)}
                for fn in (P.cl_fix_add, P.cl_fix_sub, P.cl_fix_mult):
                    J(fn.__name__, info, legal, fn, x, F, y, G)
                for s in (True, False):
                    J("cl_fix_addsub", info, legal, P.cl_fix_addsub, x, F, y, G, s)
                # a selector array that does not fit the data
                if legal and p == q:
                    for t in ((2,), (3,), (2, 2), (3, 2)):
                        try:
                            np.broadcast_shapes(p, t)
                        except ValueError:
                            J.bad("cl_fix_addsub with selectors", dict(info, selector=t), P.cl_fix_addsub, x, F, y, G, np.full(t, True))
                            if np.prod(t) != np.prod(p):          # wide data takes counts of any shape with as many elements
                                J.bad("cl_fix_shift with counts", dict(info, count=t), P.cl_fix_shift, x, F, np.full(t, 1), None)
        elif k == "matlab":
            f = u[1]
            F = I.fmt(f)
            from en_cl_fix_pkg import matlab_interface as M
            if not ref.is_wide(f):
                J.bad("to_uint64_array", {"fmt": f}, M.to_uint64_array, np.array([0, 1], dtype=object), F)
                J.bad("to_uint64_array of a scalar", {"fmt": f}, M.to_uint64_array, 0, F)
                J.bad("to_uint64_array of float data", {"fmt": f}, M.to_uint64_array, np.array([0.0]), F)
                J.bad("from_uint64_array", {"fmt": f}, M.from_uint64_array, np.array([[0]], dtype=np.uint64), F)
            else:
                n = (ref.width(f) + 63) // 64
                for label, x in (("float array", np.array([0.0, 1.0])), ("int64 array", np.array([0, 1])), ("uint64 array", np.array([0, 1], dtype=np.uint64)), ("float", 0.0), ("np.int64", np.int64(0)), ("object array of floats", np.array([0.0, 1.0], dtype=object)), ("None", None)):
                    J.bad("to_uint64_array", {"fmt": f, "data": label}, M.to_uint64_array, x, F)
                for label, x in (("float array", np.zeros((2, n))), ("int64 array", np.zeros((2, n), dtype=np.int64)), ("uint32 array", np.zeros((2, n), dtype=np.uint32)), ("object array", np.zeros((2, n), dtype=object)), ("list", [[0] * n]), ("int", 0), ("None", None)):
                    J.bad("from_uint64_array", {"fmt": f, "data": label}, M.from_uint64_array, x, F)
                J("to_uint64_array", {"fmt": f}, True, M.to_uint64_array, data(f), F)
                J("from_uint64_array", {"fmt": f}, True, M.from_uint64_array, np.zeros((2, n), dtype=np.uint64), F)
        elif k == "classes":
            f, g = u[1:]
            if not ref.is_wide(f):
                x = obj(f, "narrow")
                others = [("float", 1.0), ("int", 1), ("array", np.array([1.0, 0.0])), ("text", "1"), ("None", None), ("WideFix", obj(g, "wide"))]
                for label, y in others:
                    for rel in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
                        J.bad("NarrowFix.%s with %s" % (rel, label), {"a_fmt": f, "b_fmt": g}, getattr(type(x), rel), x, y)
                if not ref.is_wide(g):
                    y = obj(g, "narrow")
                    if len(np.atleast_1d(x._data)) == len(np.atleast_1d(y._data)):
                        for rel in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
                            J("NarrowFix.%s" % rel, {"a_fmt": f, "b_fmt": g}, True, getattr(type(x), rel), x, y)
        else:
            f = u[1]
            F = I.fmt(f)
            for cls, n in ((P.FixRound, 7), (P.FixSaturate, 4)):
                for v in (-1, n, n + 1, 100, "Trunc", "", None, 0.5):
                    J.bad("%s(%r)" % (cls.__name__, v), {}, cls, v)
                for v in range(n):
                    J("%s(%r)" % (cls.__name__, v), {}, True, cls, v)
            rf = P.cl_fix_round_fmt(F, f[2] - 1, RND[1])
            for m in (0, 1, 6, "Trunc_s", "NonSymPos_s", None, SAT[0], SAT[2], True):
                info = {"fmt": f, "rnd": str(m)}
                J.bad("cl_fix_round with a mode that is no rounding mode", info, P.cl_fix_round, data(f), F, rf, m)
                J.bad("cl_fix_resize with a mode that is no rounding mode", info, P.cl_fix_resize, data(f), F, rf, m, SAT[2])
                J.bad("cl_fix_neg with a mode that is no rounding mode", info, P.cl_fix_neg, data(f), F, rf, m, SAT[2])
    return R


def main():
    t0 = time.time()
    res = H.pool_map("checks.V01", "work", H.chunks(units(), 128))
    return H.finish(PID, res, t0, True, ["data given to cl_fix_to_integer in a wide format, or to cl_fix_to_real in a narrow one, is passed through unchecked", "object arrays whose first element is an integer are not inspected further", "saturation modes that are no FixSaturate"],
                    "all pairs of small formats and all neighbours of formats at the representation frontier x modes x both classes; every wrong data type of every data argument; all shape pairs; integers on both sides of every range")
