"""Exact reference semantics of fixed-point formats.

A value is an unnormalised integer v together with a format (S, I, F); it stands for v * 2**-F.
Everything here is written directly from the prose definitions (README / comments), on integers, with
floor division -- no offsets-then-truncate, no floats.  Arrays may be int64 or object (Python int).
"""
import numpy as np

RND = ("Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s")
SAT = ("None_s", "Warn_s", "Sat_s", "SatWarn_s")


def width(f):
    return f[0] + f[1] + f[2]


def vmax(f):
    return 2 ** (f[1] + f[2]) - 1


def vmin(f):
    return -(2 ** (f[1] + f[2])) if f[0] else 0


def is_wide(f):
    return width(f) > 53


def round_fmt(a, rF, rnd):
    """Documented result format of rounding (README: +1 int bit for any non-truncating rounding that
    removes fraction bits, at least one bit wide)."""
    S, I, F = a
    if rF < F and rnd != "Trunc_s":
        I += 1
    if S + I + rF < 1:
        I = 1 - S - rF
    return (S, I, rF)


def _obj(v):
    return np.asarray(v, dtype=object)


def prom(v, bits):
    """Promote an int64 array to Python ints when constants of that many bits are about to be combined with it."""
    if isinstance(v, np.ndarray) and v.dtype != object and bits > 60:
        return v.astype(object)
    return v


def round_int(v, F, rF, rnd):
    """Round integer(s) v (at F fraction bits) to rF fraction bits."""
    v = prom(v, abs(F - rF) + 2) if abs(F - rF) > 58 else v
    if rF >= F:
        return v * 2 ** (rF - F)
    n = F - rF
    one = 1 << n
    q = v // one                       # floor
    rem = v - q * one                  # 0 <= rem < one
    if rnd == "Trunc_s":
        return q
    half = one >> 1
    if rnd == "NonSymPos_s":
        tie_up = (v == v)
    elif rnd == "NonSymNeg_s":
        tie_up = (v != v)
    elif rnd == "SymInf_s":            # away from zero: up for positive, down for negative
        tie_up = (v > 0)
    elif rnd == "SymZero_s":
        tie_up = (v < 0)
    elif rnd == "ConvEven_s":          # up if floor is odd
        tie_up = (q % 2 == 1)
    elif rnd == "ConvOdd_s":
        tie_up = (q % 2 == 0)
    else:
        raise ValueError(rnd)
    up = (rem > half) | ((rem == half) & tie_up)
    if isinstance(v, np.ndarray):
        return q + up.astype(v.dtype)
    return q + int(up)


def wrap(v, r):
    m = 2 ** width(r)
    v = prom(v, width(r) + 2)
    u = v % m
    if r[0]:
        h = m // 2
        if isinstance(v, np.ndarray):
            return np.where(u >= h, u - m, u).astype(v.dtype)
        return u - m if u >= h else u
    return u


def clip(v, r):
    lo, hi = vmin(r), vmax(r)
    v = prom(v, width(r) + 2)
    if isinstance(v, np.ndarray):
        return np.where(v > hi, hi, np.where(v < lo, lo, v)).astype(v.dtype)
    return max(lo, min(hi, v))


def out_of_range(v, r):
    v = prom(v, width(r) + 2)
    return np.asarray((v < vmin(r)) | (v > vmax(r)), dtype=bool)


def saturate_int(v, r, sat):
    return clip(v, r) if sat in ("Sat_s", "SatWarn_s") else wrap(v, r)


def resize_int(v, F, r, rnd, sat):
    """-> (result ints, out-of-range mask)"""
    q = round_int(v, F, r[2], rnd)
    return saturate_int(q, r, sat), out_of_range(q, r)


def arr(vals, bits):
    """Array of ints; int64 only if `bits` bits (all intermediates) are safe."""
    if bits <= 60:
        return np.array(vals, dtype=np.int64)
    out = np.empty(len(vals), dtype=object)
    out[:] = [int(x) for x in vals]
    return out


# ------------------------------------------------------------------ value alphabets
def all_values(f):
    return list(range(vmin(f), vmax(f) + 1))


def corner_values(f, cuts=(), targets=()):
    """Deterministic boundary alphabet of a format: extremes, powers of two, bit patterns, ties of every
    cut (number of dropped LSBs) and the bounds of target formats."""
    lo, hi = vmin(f), vmax(f)
    n = f[1] + f[2]
    s = set()

    def add(x):
        if lo <= x <= hi:
            s.add(x)

    for d in range(0, 4):
        add(lo + d); add(hi - d); add(d); add(-d)
    for k in range(0, n + 1):
        if n <= 12 or k < 3 or k > n - 3 or k in (15, 16, 29, 30, 31, 32, 33, 51, 52, 53, 54, 59, 60, 61, 62, 63, 64, 65, 127, 128):
            for e in (-1, 0, 1):
                add(2 ** k + e); add(-(2 ** k) + e)
    p = int("01" * ((n + 1) // 2 + 1), 2)
    for x in (p, p >> 1, p * 3, 0x123456789ABCDEF0F1E2D3C4B5A69788796A5B4C3D2E1F00FEDCBA9876543210):
        add(x % (hi + 1)); add(-(x % (hi + 1)) - 1)
    for c in cuts:
        if c <= 0:
            continue
        h = 1 << (c - 1)
        bases = {0, 1, 2, 3, (hi >> c) - 1, (hi >> c), (hi >> c) + 1, (p % (hi + 1)) >> c}
        if f[0]:
            bases |= {-1, -2, -3, -4, lo >> c, (lo >> c) + 1, -((p % (hi + 1)) >> c)}
        for b in bases:
            for e in (-1, 0, 1):
                add((b << c) + h + e); add((b << c) + e)
    for r in targets:
        # bounds of r expressed at f's fraction bits, +- one LSB and +- half an r-LSB
        for bound in (vmin(r), vmax(r), vmax(r) + 1, vmin(r) - 1, 2 * (vmax(r) + 1)):
            if f[2] >= r[2]:
                g = f[2] - r[2]
                if g > 400:
                    continue
                x = bound << g
                hs = (0, 1 << (g - 1)) if g > 0 else (0,)
                for h in hs:
                    for e in (-1, 0, 1):
                        add(x + h + e); add(x - h + e)
            else:
                x = bound >> (r[2] - f[2])
                for e in (-1, 0, 1):
                    add(x + e)
    return sorted(s)


def values(f, cuts=(), targets=(), limit=7):
    return all_values(f) if width(f) <= limit else corner_values(f, cuts, targets)


def small_formats(maxw, ilo=-3, ihi=4, flo=-3, fhi=4, minw=1):
    out = []
    for w in range(minw, maxw + 1):
        for S in (0, 1):
            for I in range(ilo, ihi + 1):
                F = w - S - I
                if flo <= F <= fhi and I + F >= 0:
                    out.append((S, I, F))
    return out


# widths around every representation boundary in the code base (float64 mantissa, int64, uint64 words,
# VHDL 30-bit chunks, 32-bit integers) and far beyond
EDGE_WIDTHS = (8, 15, 16, 17, 24, 29, 30, 31, 32, 33, 34, 47, 48, 51, 52, 53, 54, 55, 59, 60, 61, 62, 63, 64, 65, 66,
               89, 90, 91, 96, 105, 106, 107, 119, 120, 121, 127, 128, 129, 150, 192, 200, 256)


def edge_formats(widths=EDGE_WIDTHS, splits=("mid", "int", "frac", "neg_i", "neg_f")):
    out = []
    for w in widths:
        for S in (0, 1):
            n = w - S
            for sp in splits:
                if sp == "mid":
                    f = (S, n // 2, n - n // 2)
                elif sp == "int":
                    f = (S, n, 0)
                elif sp == "frac":
                    f = (S, 0, n)
                elif sp == "neg_i":
                    f = (S, -5, n + 5)
                elif sp == "neg_f":
                    f = (S, n + 6, -6)
                if f not in out:
                    out.append(f)
    return out


# ------------------------------------------------------------------ arithmetic on exact integers
def op_exact(op, a, af, b=None, bf=None, flag=None):
    """Exact result as (ints, F). Operands are int arrays (object if needed)."""
    if op == "neg":
        return -a, af[2]
    if op == "abs":
        return abs(a), af[2]
    if op == "mult":
        return a * b, af[2] + bf[2]
    F = max(af[2], bf[2])
    x = a * 2 ** (F - af[2])
    y = b * 2 ** (F - bf[2])
    if op == "add":
        return x + y, F
    if op == "sub":
        return x - y, F
    if op == "addsub":
        return np.where(flag, x + y, x - y).astype(x.dtype), F
    raise ValueError(op)


def op_bits(op, af, bf=None):
    n = width(af) + (width(bf) if bf else 0) + 4
    if bf:
        n += abs(af[2] - bf[2])
    return n


# ------------------------------------------------------------------ required result format (from first principles)
def needed_format(lo, hi, F):
    """Smallest (S, I) such that [lo, hi] (ints at F) fits; I minimal subject to I+F >= 0."""
    S = 1 if lo < 0 else 0
    n = 0
    while not (hi <= 2 ** n - 1 and (lo >= -(2 ** n))):
        n += 1
    return S, n - F


def interval(op, a, b=None):
    """Exact result range of op over all operands, as integers at the exact result resolution: (lo, hi, F)."""
    la, ha = vmin(a), vmax(a)
    if op == "neg":
        return -ha, -la, a[2]
    if op == "abs":
        return (0 if a[0] else la), max(ha, -la), a[2]
    lb, hb = vmin(b), vmax(b)
    if op == "mult":
        c = [la * lb, la * hb, ha * lb, ha * hb]
        return min(c), max(c), a[2] + b[2]
    F = max(a[2], b[2])
    x, y = 2 ** (F - a[2]), 2 ** (F - b[2])
    add = (la * x + lb * y, ha * x + hb * y)
    sub = (la * x - hb * y, ha * x - lb * y)
    if op == "add":
        return add + (F,)
    if op == "sub":
        return sub + (F,)
    return min(add[0], sub[0]), max(add[1], sub[1]), F


def full_fmt(op, a, b=None):
    """The documented full-precision format: minimal for every operand (negation and magnitude are always signed)."""
    lo, hi, F = interval(op, a, b)
    n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    S = 1 if (lo < 0 or op in ("neg", "abs")) else 0
    return (S, n - F, F)


def derived_targets(m, edge=False):
    """Result formats derived from a full-precision format: itself, with bits removed / added at every end."""
    S, I, F = m
    out = []
    for (s, di, df) in ((S, 0, 0), (S, 0, -1), (S, -1, -1), (1 - S, 0, -2), (1 - S, -1, 0), (S, 1, 1), (S, -2, 1), (0, -1, -3), (1, 2, -2)):
        f = (s, I + di, F + df)
        if f[1] + f[2] >= 0 and width(f) >= 1 and f not in out:
            out.append(f)
    if edge:
        w = width(m)
        for t in (1, 29, 31, 32, 33, 64, 65):
            for f in ((S, I, F - (w - t)), (S, I - (w - t), F)):
                if f[1] + f[2] >= 0 and abs(f[2]) < 800 and abs(f[1]) < 800:
                    out.append(f)
    return out
