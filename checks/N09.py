"""N09: packing wide data into 64-bit words and back is the identity, and the words are the two's complement."""
import time
import numpy as np
from fxv import ref, harness as H

PID = "N09"


def words(v, w):
    u = v % (1 << w)
    return [(u >> (64 * i)) & (2 ** 64 - 1) for i in range((w + 63) // 64)]


def units():
    us = []
    for w in range(1, 54):                       # the wide class can hold narrow formats too
        for S in (0, 1):
            for F in (0, 2, w + 3, -2):
                if w - S >= 0:
                    us.append((S, w - S - F, F))
    ws = sorted(set(range(54, 70)) | set(range(120, 134)) | set(range(190, 196)) | {80, 96, 100, 160, 250, 255, 256, 257, 320, 400, 512, 513})
    if H.THOROUGH:
        ws = sorted(set(range(54, 400)) | set(ws) | {1023, 1024, 1025})
    for w in ws:
        for S in (0, 1):
            for F in (0, 3, w // 2, w + 5, -4):
                us.append((S, w - S - F, F))
    return us


def work(us):
    from fxv import pyimpl as I
    P = I.P
    R = H.Result()
    import en_cl_fix_pkg.matlab_interface as M
    for f in us:
        w = ref.width(f)
        vals = ref.corner_values(f)
        # words that are all-ones / zero in each position, sign word patterns
        n = (w + 63) // 64
        for i in range(n):
            for p in (2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 1, 2 ** 32, 2 ** 53 + 1):
                v = ref.wrap(p << (64 * i), f)
                vals.append(v)
        vals = sorted(set(vals))
        if len(vals) < 6:
            vals = (vals * 6)[:6]
        vals = vals[: (len(vals) // 6) * 6]
        V = np.empty(len(vals), dtype=object); V[:] = vals
        fm = I.fmt(f)
        arrs = [("1d", V), ("2d", V.reshape(6, -1)), ("3d", V.reshape(2, 3, -1)), ("one", V[:1]), ("strided", V[::2]), ("transposed", V.reshape(6, -1).T)]
        z = np.empty((), dtype=object); z[()] = vals[1]
        arrs += [("0-d", z), ("4d", V.reshape(1, 2, 3, -1)), ("5d", V.reshape(2, 1, 3, 1, -1)), ("column-major", np.asfortranarray(V.reshape(6, -1))), ("reversed", V[::-1]),
                 ("swapped axes", np.swapaxes(V.reshape(2, 3, -1), 0, 2)), ("two", V[:2]), ("as many as words", np.resize(V, n)), ("words x words", np.resize(V, (n, n))),
                 ("broadcast", np.broadcast_to(V[:3], (2, 3)))]
        if f[2] == 0:
            arrs += [("long", np.resize(V, 1025)), ("longer", np.resize(V[::-1], 4096))]
        ro = V.copy(); ro.setflags(write=False)
        arrs += [("read-only", ro)]
        wide = ref.is_wide(f)
        R.states += len(vals)
        for nm, a in arrs:
            case = {"fmt": f, "layout": nm}
            keep = a.copy()
            A1 = np.atleast_1d(a)
            exp_last = np.array([words(int(v), w) for v in A1.reshape(-1)], dtype=np.uint64).reshape(A1.shape + (n,))
            exp_first = np.array([words(int(v), w) for v in a.reshape(-1)], dtype=np.uint64).T.reshape((n,) + a.shape)
            R.transitions += 4 * a.size
            R.traces += 4
            try:
                p = I.call(P.to_uint64_array, a, fm)[0] if wide else exp_last.copy()
                if p.dtype != np.uint64 or p.shape != exp_last.shape or (p != exp_last).any():
                    R.bad("pack", "to_uint64_array %s: wrong words" % case, dict(case, first=str(p.reshape(-1)[:4])))
                keep_p = exp_last.copy()
                b = I.call(P.from_uint64_array, exp_last, fm)[0] if wide else A1
                if b.shape != A1.shape or (b != A1).any() or any(type(x) is not int for x in b.reshape(-1)):
                    R.bad("unpack", "from_uint64_array %s is not the inverse" % case, case)
                b = I.call(P.from_uint64_array, p, fm)[0] if wide else A1
                if np.shape(b) != A1.shape or (b != A1).any():
                    R.bad("roundtrip", "from(to(x)) %s" % case, case)
                # the words in any memory order
                for how, y in (("column-major words", np.asfortranarray(exp_last)), ("strided words", np.repeat(exp_last, 2, axis=-1)[..., ::2]),
                               ("reversed twice", exp_last[..., ::-1].copy()[..., ::-1])):
                    if wide:
                        R.transitions += a.size
                        b = I.call(P.from_uint64_array, y, fm)[0]
                        if b.shape != A1.shape or (b != A1).any():
                            R.bad("unpack", "from_uint64_array %s, %s, is not the inverse" % (case, how), case)
                for how, y in (("column-major words", np.asfortranarray(exp_first)), ("strided words", np.repeat(exp_first, 2, axis=0)[::2]), ("moved axis", np.moveaxis(np.ascontiguousarray(np.moveaxis(exp_first, 0, -1)), -1, 0))):
                    R.transitions += a.size
                    d = np.asarray(I.call(I.WideFix.from_uint64_array, y, fm)[0].data)
                    if d.shape != a.shape or (d != a).any():
                        R.bad("unpack", "WideFix.from_uint64_array %s, %s, is not the inverse" % (case, how), case)
                if (exp_last != keep_p).any():
                    R.bad("mutate", "from_uint64_array modified its input %s" % case, case)
                x = I.WideFix(a, fm)
                p = I.call(x.to_uint64_array)[0]
                p[...] = 7                       # the words belong to the caller
                p = I.call(x.to_uint64_array)[0]
                if (x.data != a).any():
                    R.bad("mutate", "WideFix.to_uint64_array changed the object %s" % case, case)
                if p.dtype != np.uint64 or p.shape != exp_first.shape or (p != exp_first).any():
                    R.bad("pack", "WideFix.to_uint64_array %s: wrong words" % case, case)
                if True:
                    o = I.call(I.WideFix.from_uint64_array, exp_first, fm)[0]
                    d = np.asarray(o.data)
                    if I.tup(o.fmt) != f or d.shape != a.shape or (d != a).any() or any(type(x) is not int for x in d.reshape(-1)):
                        R.bad("unpack", "WideFix.from_uint64_array %s is not the inverse" % case, case)
                if (a != keep).any():
                    R.bad("mutate", "packing modified its input %s" % case, case)
            except I.ImplError as e:
                R.bad("exc", "%s raised %s" % (case, e), case)
        for v in vals[::5] if wide else ():
            R.transitions += 1; R.traces += 1
            try:
                p = I.call(P.to_uint64_array, int(v), fm)[0]
                if p.shape != (1, n) or [int(x) for x in p[0]] != words(v, w):
                    R.bad("pack", "to_uint64_array scalar %s %s -> %s" % (f, v, p), {"fmt": f, "a": v})
            except I.ImplError as e:
                R.bad("exc", "to_uint64_array scalar %s raised %s" % (f, e), {"fmt": f, "a": v})
        if len(R.samples) < 1:
            R.samples.append({"fmt": f, "value": str(vals[-1]), "words": [hex(x) for x in words(vals[-1], w)]})
    return R


def main():
    t0 = time.time()
    res = H.pool_map("checks.N09", "work", H.chunks(units(), 32))
    return H.finish(PID, res, t0, True, [], "boundary values and word patterns of every wide width in the list, 17 array layouts and lengths to 4096, words in four memory orders, both packing interfaces")
