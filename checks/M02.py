"""M02: every form in which the callers of the Python model (MATLAB bridge, scripts) pass the same argument gives the same answer."""
import array, itertools, os, re, time
import numpy as np
from fxv import ref, harness as H

PID = "M02"


def nested(v, t):
    return v if not isinstance(v, list) else t(nested(x, t) for x in v)


def data_forms(x, wide):
    """All forms of one array; the first is the native one."""
    out = [("array", x), ("Fortran order", np.asfortranarray(x))]
    if x.ndim == 2:
        out.append(("transposed", np.ascontiguousarray(x.T).T))
    if not wide:
        out += [("list", x.tolist()), ("tuple", nested(x.tolist(), tuple)), ("memory view", memoryview(x)), ("memory view, Fortran order", memoryview(np.asfortranarray(x))),
                ("read-only", frozen(x))]
        if x.ndim == 1:
            out.append(("array.array", array.array("d", x.tolist())))
    else:
        out.append(("read-only", frozen(x)))
    return out


def frozen(x):
    y = x.copy()
    y.setflags(write=False)
    return y


def scalar_forms(v, wide):
    if wide:
        z = np.empty((), dtype=object)
        z[()] = v
        return [("int", v), ("0-d", z)]
    return [("float", v), ("np.float64", np.float64(v)), ("0-d", np.array(v))]


def int_forms(k):
    return [("int", k)] + ([("np.int32", np.int32(k))] if abs(k) < 2**31 else []) + [("np.int64", np.int64(k)), ("float", float(k)), ("np.float64", np.float64(k)), ("0-d int", np.array(k)), ("0-d float", np.array(float(k)))]


def flag_forms(b):
    return [("bool", b), ("np.bool_", np.bool_(b)), ("int", int(b)), ("float", float(b)), ("0-d", np.array(b)), ("0-d float", np.array(float(b)))]


def units():
    F = ref.small_formats(3, -2, 3, -2, 3)
    W = ref.edge_formats(widths=(26, 27, 52, 53, 54, 55, 64, 65, 128), splits=("mid", "int", "frac", "neg_i", "neg_f") if H.THOROUGH else ("mid", "neg_i", "neg_f"))
    us = [("un", f) for f in F + W] + [("fmt", f) for f in F + W]
    us += [("bin", a, b) for a, b in itertools.product(F[::1 if H.THOROUGH else 3], F[1::2 if H.THOROUGH else 7])]
    us += [("bin", a, b) for a, b in itertools.product(W, W[::5] + F[::40])]
    us += [("misc",)]
    return us


def same(I, x, y):
    """None, or how x differs from y (data, shape, data type)."""
    if type(x) is not type(y) and not (np.ndim(x) == 0 and np.ndim(y) == 0):
        return "type %s instead of %s" % (type(x).__name__, type(y).__name__)
    a = np.asarray(x, dtype=object) if type(x) is int else np.asarray(x)
    b = np.asarray(y, dtype=object) if type(y) is int else np.asarray(y)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    if a.dtype != b.dtype:
        return "data type %s instead of %s" % (a.dtype, b.dtype)
    if a.dtype == object and {type(v) for v in a.reshape(-1)} - {int}:
        return "elements of type %s" % {type(v).__name__ for v in a.reshape(-1)}
    if not (a == b).all():
        i = int(np.flatnonzero(np.asarray(a != b, dtype=bool).reshape(-1))[0])
        return "%r instead of %r" % (a.reshape(-1)[i], b.reshape(-1)[i])
    return None


class Judge:
    def __init__(self, R, I):
        self.R, self.I = R, I

    def group(self, name, info, fn, variants):
        """variants: (label, args); all must give what the first one gives."""
        R, I = self.R, self.I
        first = None
        for label, args in variants:
            R.transitions += 1
            R.traces += 1
            try:
                out, nw, _ = I.call(fn, *args)
                got = (out, nw > 0)
            except I.ImplError as e:
                R.bad("form", "%s %s with %s raised %s" % (name, info, label, e), dict(info, call=name, form=label, error=str(e)))
                continue
            if first is None:
                first = got
                R.states += 1
                continue
            d = same(I, got[0], first[0])
            if d is None and got[1] != first[1]:
                d = "a warning" if got[1] else "no warning"
            if d:
                R.bad("form", "%s %s with %s gives %s" % (name, info, label, d), dict(info, call=name, form=label, diff=d))


def work(us):
    from fxv import pyimpl as I, pycheck as C
    P = I.P
    R = H.Result()
    J = Judge(R, I)
    for k, u in enumerate(us):
        if u[0] == "un":
            f = u[1]
            F = I.fmt(f)
            wide = ref.is_wide(f)
            vals = ref.all_values(f) if ref.width(f) <= 6 else C.spread(ref.corner_values(f), 14)
            one = I.enc(np.array(vals, dtype=object), f)
            two = np.resize(one, (2, (len(vals) + 1) // 2))
            targets = [None] + [t for t in ((f[0], f[1], f[2] - 1), (f[0], f[1] - 1, f[2]), (1 - f[0], f[1], f[2] - 1), (1, f[1] + 2, f[2] + 1)) if t[1] + t[2] >= 0 and ref.width(t) >= 1]
            for j, t in enumerate(targets):
                rn, sa = ref.RND[(k + j) % 7], ref.SAT[(k + 2 * j) % 4]
                m = (I.rnd(rn), I.sat(sa))
                T = None if t is None else I.fmt(t)
                info = {"a_fmt": f, "r_fmt": t, "rnd": rn, "sat": sa}
                xs = [data_forms(one, wide), data_forms(two, wide), data_forms(two.reshape(2, -1, 1), wide)] + [scalar_forms(one[i] if not wide else int(one[i]), wide) for i in (0, len(vals) - 1)]
                for forms in xs:
                    for name, fn, rest in (("cl_fix_abs", P.cl_fix_abs, (T,) + m), ("cl_fix_neg", P.cl_fix_neg, (T,) + m)):
                        J.group(name, info, fn, [(l, (x, F) + rest) for l, x in forms])
                    for s in (1, -2):
                        J.group("cl_fix_shift", dict(info, shift=s), P.cl_fix_shift, [(l, (x, F, s, T) + m) for l, x in forms])
                    if t is not None:
                        J.group("cl_fix_resize", info, P.cl_fix_resize, [(l, (x, F, T) + m) for l, x in forms])
                        J.group("cl_fix_in_range", info, P.cl_fix_in_range, [(l, (x, F, T, m[0])) for l, x in forms])
                        if t[2] == f[2]:
                            J.group("cl_fix_saturate", info, P.cl_fix_saturate, [(l, (x, F, T, m[1])) for l, x in forms])
                        rf = P.cl_fix_round_fmt(F, t[2], m[0])
                        J.group("cl_fix_round", info, P.cl_fix_round, [(l, (x, F, rf, m[0])) for l, x in forms])
                    if j == 0:
                        J.group("cl_fix_to_integer", info, P.cl_fix_to_integer, [(l, (x, F)) for l, x in forms])
                        J.group("cl_fix_to_real", info, P.cl_fix_to_real, [(l, (x, F)) for l, x in forms])
                        if not wide:
                            J.group("cl_fix_from_real", info, P.cl_fix_from_real, [(l, (x, F)) for l, x in forms])
                # the shift count
                for s in (0, 1, -1, 3, -3):
                    for l, x in (("array", two), ("scalar", one[0] if not wide else int(one[0]))):
                        J.group("cl_fix_shift", dict(info, shift=s, data=l), P.cl_fix_shift, [("shift count as " + q, (x, F, v, T) + m) for q, v in int_forms(s)])
                cnt = np.resize(np.array([0, 1, -2, 3]), two.shape)
                J.group("cl_fix_shift", dict(info, shift="array"), P.cl_fix_shift, [("shift counts as " + q, (two, F, v, T) + m) for q, v in
                        [("int64", cnt), ("int32", cnt.astype(np.int32)), ("Fortran order", np.asfortranarray(cnt))] + ([] if wide or ref.width((f[0], f[1] + 3, f[2] + 2)) > 53 else [("float64", cnt.astype(float))])])
                # modes by number
                if t is not None:
                    J.group("cl_fix_resize", dict(info, modes="by number"), P.cl_fix_resize, [("modes by name", (two, F, T) + m), ("modes by number", (two, F, T, P.FixRound(ref.RND.index(rn)), P.FixSaturate(ref.SAT.index(sa))))])
            # raw integers
            raw = np.array(vals, dtype=object)
            if wide:
                J.group("cl_fix_from_integer", {"fmt": f}, P.cl_fix_from_integer, [("array", (raw, F)), ("Fortran order", (np.asfortranarray(raw), F))])
            else:
                i64 = np.array(vals, dtype=np.int64)
                J.group("cl_fix_from_integer", {"fmt": f}, P.cl_fix_from_integer, [("int64", (i64, F)), ("list", ([int(v) for v in vals], F)), ("tuple", (tuple(int(v) for v in vals), F)), ("float64", (i64.astype(float), F)),
                        ("memory view", (memoryview(i64), F)), ("array.array", (array.array("q", i64.tolist()), F))])
                v = int(vals[-1])
                J.group("cl_fix_from_integer", {"fmt": f, "a": v}, P.cl_fix_from_integer, [(q, (x, F)) for q, x in int_forms(v)])
        elif u[0] == "bin":
            a, b = u[1:]
            A, B = I.fmt(a), I.fmt(b)
            wa, wb = ref.is_wide(a), ref.is_wide(b)
            va = C.spread(ref.corner_values(a), 4) if ref.width(a) > 3 else ref.all_values(a)
            vb = C.spread(ref.corner_values(b), 4) if ref.width(b) > 3 else ref.all_values(b)
            n = max(len(va), len(vb), 4)
            n += n % 2
            x1, y1 = np.resize(I.enc(np.array(va, dtype=object), a), n), np.resize(I.enc(np.array(vb, dtype=object), b), n)
            x2, y2 = x1.reshape(2, -1), y1.reshape(2, -1)
            rn, sa = ref.RND[k % 7], ref.SAT[k % 4]
            m = (I.rnd(rn), I.sat(sa))
            for t in (None, (1, max(a[1], b[1]), min(a[2], b[2]))):
                if t is not None and t[1] + t[2] < 0:
                    continue
                T = None if t is None else I.fmt(t)
                info = {"a_fmt": a, "b_fmt": b, "r_fmt": t, "rnd": rn, "sat": sa}
                sx, sy = scalar_forms(x1[0] if not wa else int(x1[0]), wa), scalar_forms(y1[0] if not wb else int(y1[0]), wb)
                for fx, fy in ((data_forms(x1, wa), data_forms(y1, wb)), (data_forms(x2, wa), data_forms(y2, wb)), (data_forms(x2, wa), sy), (sx, data_forms(y2, wb)), (sx, sy)):
                    pairs = [(lx + ", " + ly, x, y) for (lx, x), (ly, y) in itertools.product(fx, fy)]
                    for name, fn in (("cl_fix_add", P.cl_fix_add), ("cl_fix_sub", P.cl_fix_sub), ("cl_fix_mult", P.cl_fix_mult)):
                        J.group(name, info, fn, [(l, (x, A, y, B, T) + m) for l, x, y in pairs])
                    J.group("cl_fix_addsub", info, P.cl_fix_addsub, [(l, (x, A, y, B, k % 2 == 0, T) + m) for l, x, y in pairs])
                # the selector
                for s in (True, False):
                    J.group("cl_fix_addsub", dict(info, add=s), P.cl_fix_addsub, [("selector as " + q, (x2, A, y2, B, v, T) + m) for q, v in flag_forms(s)])
                    J.group("cl_fix_addsub", dict(info, add=s, data="scalars"), P.cl_fix_addsub, [("selector as " + q, (sx[0][1], A, sy[0][1], B, v, T) + m) for q, v in flag_forms(s)])
                sel = np.resize(np.array([True, False, False]), x2.shape)
                J.group("cl_fix_addsub", dict(info, add="array"), P.cl_fix_addsub, [("selector as " + q, (x2, A, y2, B, v, T) + m) for q, v in
                        (("bool", sel), ("uint8", sel.astype(np.uint8)), ("int64", sel.astype(np.int64)), ("float64", sel.astype(float)), ("list", sel.tolist()), ("tuple", nested(sel.tolist(), tuple)), ("Fortran order", np.asfortranarray(sel)))])
        elif u[0] == "fmt":
            f = u[1]

            def parts(*c):
                g = P.FixFormat(*c)
                return (g.S, g.I, g.F, type(g.S).__name__, type(g.I).__name__, type(g.F).__name__, str(g), hash_or_none(g), g.width)

            def hash_or_none(g):
                return None

            fm = [("int", int), ("np.int32", np.int32), ("np.int64", np.int64), ("float", float), ("np.float64", np.float64)]
            want = (f[0], f[1], f[2], "int", "int", "int", str(f).replace(" ", ""))
            for l, c in fm + [("bool sign", None)]:
                args = tuple(c(x) for x in f) if c else (bool(f[0]), f[1], f[2])
                R.transitions += 1
                R.traces += 1
                try:
                    got = parts(*args)
                except Exception as e:      # noqa
                    R.bad("format", "FixFormat%s with components as %s raised %r" % (f, l, e), {"fmt": f, "form": l})
                    continue
                if got[:6] != want[:6] or got[6].replace(" ", "") != want[6] or got[8] != ref.width(f):
                    R.bad("format", "FixFormat%s with components as %s has the parts %s" % (f, l, got), {"fmt": f, "form": l})
            R.states += 1
            F = I.fmt(f)
            tup = lambda g: (g.S, g.I, g.F, type(g.I).__name__, type(g.F).__name__)
            for lo, hi in ((0, 0), (-2, 1), (3, 3)):
                want = (f[0], f[1] + hi, f[2] - lo, "int", "int")
                for (l, x), (_, y) in zip(int_forms(lo), int_forms(hi)):
                    calls = [((F, x, y), "two counts")] + ([((F, x), "one count")] if lo == hi else [])
                    for args, how in calls:
                        R.transitions += 1
                        try:
                            got = tup(P.cl_fix_shift_fmt(*args))
                        except Exception as e:      # noqa
                            got = repr(e)
                        if got != want:
                            R.bad("format", "cl_fix_shift_fmt(%s, %s..%s) with %s as %s gives %s" % (f, lo, hi, how, l, got), {"fmt": f, "form": l})
            for rF in (f[2] - 2, f[2], f[2] + 1):
                for rn in ref.RND:
                    first = None
                    for l, x in int_forms(rF):
                        R.transitions += 1
                        try:
                            got = tup(P.cl_fix_round_fmt(F, x, I.rnd(rn)))
                        except Exception as e:      # noqa
                            got = repr(e)
                        first = first or got
                        if got != first or first != ref.round_fmt(f, rF, rn) + ("int", "int"):
                            R.bad("format", "cl_fix_round_fmt(%s, %s, %s) with the bits as %s gives %s" % (f, rF, rn, l, got), {"fmt": f, "form": l})
            g = (1, f[1] + 1, f[2] - 1) if f[1] + f[2] >= 0 else f
            G = I.fmt(g)
            first = None
            arr = np.empty(2, dtype=object)
            arr[:] = [F, G]
            for l, args in (("two arguments", (F, G)), ("list", ([F, G],)), ("tuple", ((F, G),)), ("array", (arr,))):
                R.transitions += 1
                try:
                    got = tup(P.cl_fix_union_fmt(*args))
                except Exception as e:      # noqa
                    got = repr(e)
                first = first or got
                if got != first or isinstance(got, str):
                    R.bad("format", "cl_fix_union_fmt(%s, %s) with %s gives %s" % (f, g, l, got), {"fmt": f, "form": l})
        else:
            # shapes
            for f in ((1, 3, 2), (0, 4, 0), (1, 40, 40)):
                F = I.fmt(f)
                for shape in ((3,), (2, 3), (1, 4), (4, 1), (2, 1, 3)):
                    forms = [("tuple", shape), ("list", list(shape)), ("int32 array", np.array(shape, dtype=np.int32)), ("array.array", array.array("i", shape)), ("memory view", memoryview(np.array(shape, dtype=np.int32)))]
                    if len(shape) == 1:
                        forms += [("int", shape[0]), ("np.int32", np.int32(shape[0])), ("0-d", np.array(shape[0]))]
                    J.group("cl_fix_zeros", {"fmt": f, "shape": shape}, P.cl_fix_zeros, [("shape as " + l, (s, F)) for l, s in forms])

                    def rand(s, F):
                        r = P.cl_fix_random(s, F)
                        ok = all(ref.vmin(f) <= v <= ref.vmax(f) and v == int(v) for v in np.asarray(r * 2 ** f[2] if not ref.is_wide(f) else r).reshape(-1).tolist())
                        return np.array([ok, I.check_repr(r, f) is None] + list(r.shape), dtype=np.int64)
                    J.group("cl_fix_random", {"fmt": f, "shape": shape}, rand, [("-", ((2, 3), F))][:0] + [("shape as " + l, (s, F)) for l, s in forms])
            # the numbers by which MATLAB names the modes
            path = os.path.join(H.REPO, "bittrue", "models", "matlab", "cl_fix_constants.m")
            seen = {"Fix" + kind: {} for kind in ("Round", "Saturate")}
            with open(path) as fh:
                for name, kind, num in re.findall(r"^\s*\w+\.(\w+)\s*=\s*py\.en_cl_fix_pkg\.(FixRound|FixSaturate)\((?:int\d+\()?(\d+)\)?\)", fh.read(), re.M):
                    seen[kind][name] = int(num)
            for kind, names in (("FixRound", ref.RND), ("FixSaturate", ref.SAT)):
                cls = getattr(P, kind)
                for nm in names:
                    R.transitions += 1
                    for l, num in ((x, y) for x, y in int_forms(seen[kind].get(nm, names.index(nm))) if "0-d" not in x):
                        try:
                            got = cls(num)
                        except Exception as e:      # noqa
                            got = e
                        if got is not cls[nm]:
                            R.bad("modes", "%s(%r) is %r, MATLAB's name for it is %s" % (kind, num, got, nm), {"kind": kind, "name": nm})
            R.states += 1
    return R


def main():
    t0 = time.time()
    R = H.pool_map("checks.M02", "work", H.chunks(units(), 256))
    return H.finish(PID, R, t0, True, ["MATLAB itself is not run: its side of the bridge (M01) is not covered", "forms outside the domain: Python lists of wide integers, list-valued shift counts, integer data types as narrow data"],
                    "all formats up to 3 bits and formats at the representation frontier, every argument form of every argument of every function, all pairs of forms of two operands")
