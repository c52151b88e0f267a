"""N05: result-format functions: sufficient for every operand, and minimal."""
import time
import numpy as np
from fxv import ref, harness as H

PID = "N05"


def interval(op, a, b):
    """Exact result range as integers at the exact result resolution."""
    la, ha = ref.vmin(a), ref.vmax(a)
    if op == "neg":
        return -ha, -la, a[2]
    if op == "abs":
        return (0 if a[0] else la), max(ha, -la), a[2]
    lb, hb = ref.vmin(b), ref.vmax(b)
    if op == "mult":
        c = [la * lb, la * hb, ha * lb, ha * hb]
        return min(c), max(c), a[2] + b[2]
    F = max(a[2], b[2])
    x, y = 2 ** (F - a[2]), 2 ** (F - b[2])
    add = (la * x + lb * y, ha * x + hb * y)
    sub = (la * x - hb * y, ha * x - lb * y)
    if op == "add":
        return add + (F,)
    if op == "sub":
        return sub + (F,)
    return min(add[0], sub[0]), max(add[1], sub[1]), F


def fmts(lo, hi):
    return [(S, i, f) for S in (0, 1) for i in range(lo, hi + 1) for f in range(lo, hi + 1) if i + f >= 0 and S + i + f >= 1]


def units():
    us = [("ctor",), ("union",), ("shift",), ("round",)]
    d = 9 if not H.THOROUGH else 14
    A = fmts(-d, d)
    us += [("pairs", A[i::24], A) for i in range(24)]
    big = [f for f in ref.edge_formats()] + [(0, 1000, -999), (1, -900, 901), (1, 500, 500), (0, 0, 700), (1, 2000, -1990)]
    small = fmts(-2, 2) + [(0, 40, -38), (1, -30, 31), (0, -30, 31)]
    us += [("pairs", big[i::24], small + big[::5]) for i in range(24)]
    us += [("pairs", small, big[::3])]
    us += [("enum", f) for f in ref.small_formats(4 if not H.THOROUGH else 5, -4, 4, -4, 4)]
    return us


def get(I, op, a, b):
    P, f = I.P, I.fmt
    fn = {"neg": "neg", "abs": "abs", "add": "add", "sub": "sub", "addsub": "addsub", "mult": "mult"}[op]
    A, B = f(a), (f(b) if b else None)
    args = (A,) if b is None else (A, B)
    r = I.tup(getattr(P, "cl_fix_%s_fmt" % fn)(*args))
    return r, (I.tup(A) == a and (b is None or I.tup(B) == b))


def judge(R, I, op, a, b):
    R.transitions += 1
    R.traces += 1
    case = {"call": "cl_fix_%s_fmt" % op, "a_fmt": a, "b_fmt": b}
    try:
        r, intact = get(I, op, a, b)
    except Exception as e:
        R.bad("exc", "%s raised %r" % (case, e), case)
        return None
    if not intact:
        R.bad("mutate", "%s modified its argument" % (case,), case)
    lo, hi, F = interval(op, a, b)
    S, n = ref.needed_format(lo, hi, F) if hi.bit_length() < 80 else needed_fast(lo, hi, F)
    if not (r[0] >= S and r[1] >= n and r[2] >= F):
        R.bad("insufficient", "%s -> %s cannot hold [%d,%d]*2**-%d" % (case, r, lo, hi, F), dict(case, result=r, needed=(S, n, F)))
    elif r[1] != n or r[2] != F:
        R.bad("wasteful", "%s -> %s, minimal is I=%d F=%d" % (case, r, n, F), dict(case, result=r, needed=(S, n, F)))
    elif op in ("add", "sub", "addsub", "mult") and r[0] != S:
        R.bad("sign", "%s -> %s, minimal sign bits %d" % (case, r, S), dict(case, result=r, needed=(S, n, F)))
    return r


def needed_fast(lo, hi, F):
    n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    return (1 if lo < 0 else 0), n - F


def work(us):
    from fxv import pyimpl as I
    R = H.Result()
    P = I.P
    for u in us:
        if u[0] == "pairs":
            for a in u[1]:
                for op in ("neg", "abs"):
                    judge(R, I, op, a, None)
                for b in u[2]:
                    R.states += 1
                    for op in ("add", "sub", "addsub", "mult"):
                        r = judge(R, I, op, a, b)
                    if len(R.samples) < 1:
                        R.samples.append({"a_fmt": a, "b_fmt": b, "mult_fmt": r})
        elif u[0] == "enum":
            # the interval oracle itself: exhaustive enumeration of operand values attains exactly its bounds
            a = u[1]
            va = np.array(ref.all_values(a))
            for op in ("neg", "abs"):
                e, F = ref.op_exact(op, va, a)
                assert (int(e.min()), int(e.max()), F) == interval(op, a, None)
            for b in ref.small_formats(3, -3, 3, -3, 3):
                vb = np.array(ref.all_values(b))
                x, y = va[:, None].astype(np.int64), vb[None, :].astype(np.int64)
                R.states += va.size * vb.size
                for op in ("add", "sub", "mult"):
                    e, F = ref.op_exact(op, x, a, y, b)
                    assert (int(e.min()), int(e.max()), F) == interval(op, a, b), (op, a, b)
                    r = judge(R, I, op, a, b)
                    if r:
                        q = ref.round_int(e, F, r[2], "Trunc_s")
                        if ref.out_of_range(q, r).any():
                            R.bad("insufficient", "%s %s %s -> %s" % (op, a, b, r), {"op": op, "a_fmt": a, "b_fmt": b})
        elif u[0] == "ctor":
            for S in (-2, -1, 0, 1, 2, 3):
                for i in range(-6, 7):
                    for f in range(-6, 7):
                        R.states += 1; R.transitions += 1; R.traces += 1
                        ok = S in (0, 1) and i + f >= 0
                        try:
                            x = P.FixFormat(S, i, f)
                            got = (x.S, x.I, x.F) == (S, i, f) and x.width == S + i + f and P.cl_fix_width(x) == S + i + f
                            if not ok or not got:
                                R.bad("ctor", "FixFormat(%d,%d,%d) accepted / wrong" % (S, i, f), {"fmt": (S, i, f)})
                            elif str(x).replace(" ", "") != "(%d,%d,%d)" % (S, i, f) or P.cl_fix_format_to_string(x) != str(x):
                                R.bad("str", "str(FixFormat%s) = %s" % ((S, i, f), x), {"fmt": (S, i, f)})
                            elif not (x == P.FixFormat(S, i, f)) or x == P.FixFormat(1 - S, i, f) or x == P.FixFormat(S, i + 1, f) or x == P.FixFormat(S, i, f + 1) or x == P.FixFormat(S, i + 1, f - 1):
                                R.bad("eq", "FixFormat equality %s" % ((S, i, f),), {"fmt": (S, i, f)})
                            elif P.cl_fix_is_wide(x) != (S + i + f > 53):
                                R.bad("wide", "cl_fix_is_wide %s" % ((S, i, f),), {"fmt": (S, i, f)})
                        except AssertionError:
                            if ok:
                                R.bad("ctor", "FixFormat(%d,%d,%d) rejected" % (S, i, f), {"fmt": (S, i, f)})
            # equality of every pair: exactly the same three numbers
            E = fmts(-4, 5) + ref.edge_formats(widths=(31, 32, 53, 54, 63, 64, 65, 128)) + [(1, -1, 1), (0, 0, 0), (0, -5, 5)]
            objs = [I.fmt(f) for f in E]
            for f, x in zip(E, objs):
                for g, y in zip(E, objs):
                    R.transitions += 1; R.traces += 1
                    if bool(x == y) != (f == g) or bool(x != y) != (f != g):
                        R.bad("eq", "%s == %s gives %s, != gives %s" % (f, g, x == y, x != y), {"a_fmt": f, "b_fmt": g})
            for f in ref.edge_formats():
                R.states += 1; R.transitions += 1; R.traces += 1
                if P.cl_fix_is_wide(I.fmt(f)) != (ref.width(f) > 53):
                    R.bad("wide", "cl_fix_is_wide %s" % (f,), {"fmt": f})
        elif u[0] == "union":
            A = fmts(-2, 2) + [(0, 60, -5), (1, -7, 80)]
            for a in A:
                for b in A:
                    for c in (None, (1, 3, -2), (0, -2, 9)):
                        R.states += 1; R.transitions += 1; R.traces += 1
                        l = [a, b] + ([c] if c else [])
                        objs = [I.fmt(x) for x in l]
                        try:
                            r = I.tup(P.cl_fix_union_fmt(*objs) if c is None else P.cl_fix_union_fmt(objs))
                            r2 = I.tup(P.cl_fix_union_fmt(objs))
                        except Exception as e:
                            R.bad("exc", "union %s raised %r" % (l, e), {"fmts": l})
                            continue
                        e = tuple(max(x[j] for x in l) for j in range(3))
                        if r != e or r2 != e or [I.tup(o) for o in objs] != l:
                            R.bad("union", "union %s -> %s (args now %s)" % (l, r, [I.tup(o) for o in objs]), {"fmts": l, "result": r})
        elif u[0] == "shift":
            for a in fmts(-3, 3) + ref.edge_formats(widths=(53, 54, 64), splits=("mid",)):
                for lo in range(-6, 7):
                    for hi in list(range(lo, 7)) + [None]:
                        R.states += 1; R.transitions += 1; R.traces += 1
                        A = I.fmt(a)
                        r = I.tup(P.cl_fix_shift_fmt(A, lo) if hi is None else P.cl_fix_shift_fmt(A, lo, hi))
                        h = lo if hi is None else hi
                        # a<<n for every n in lo..h: needs a.I+h integer bits and a.F-lo fraction bits, same sign
                        if r != (a[0], a[1] + h, a[2] - lo) or I.tup(A) != a:
                            R.bad("shift", "shift_fmt %s [%d,%d] -> %s" % (a, lo, h, r), {"a_fmt": a, "lo": lo, "hi": h, "result": r})
        elif u[0] == "round":
            for a in fmts(-4, 4) + ref.edge_formats():
                for rF in sorted(set(range(-6, 7)) | {a[2] + d for d in (-70, -54, -53, -33, -3, -1, 0, 1, 9, 60)}):
                    for rnd in ref.RND:
                        R.states += 1; R.transitions += 1; R.traces += 1
                        A = I.fmt(a)
                        case = {"call": "cl_fix_round_fmt", "a_fmt": a, "rF": rF, "rnd": rnd}
                        try:
                            r = I.tup(P.cl_fix_round_fmt(A, rF, I.rnd(rnd)))
                        except Exception as e:
                            R.bad("exc", "%s raised %r" % (case, e), case)
                            continue
                        lo = ref.round_int(ref.vmin(a), a[2], rF, rnd)
                        hi = ref.round_int(ref.vmax(a), a[2], rF, rnd)
                        if not (ref.vmin(r) <= lo and hi <= ref.vmax(r)):
                            R.bad("insufficient", "%s -> %s" % (case, r), dict(case, result=r))
                        elif r != ref.round_fmt(a, rF, rnd) or I.tup(A) != a:
                            R.bad("round_fmt", "%s -> %s, documented %s" % (case, r, ref.round_fmt(a, rF, rnd)), dict(case, result=r))
    return R


def main():
    t0 = time.time()
    res = H.pool_map("checks.N05", "work", H.chunks(units(), 64))
    return H.finish(PID, res, t0, True, ["negation and absolute value always carry a sign bit (as documented in the code); minimality there is judged on I and F"],
                    "every pair of formats with I,F in [-%d,%d] plus boundary formats; oracle intervals validated by enumerating all operand values of small formats" % ((14, 14) if H.THOROUGH else (9, 9)))
