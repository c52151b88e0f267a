"""Exact oracle and boundary alphabet for real <-> fixed conversions."""
import math
from fractions import Fraction
from . import ref


def half_up(x, F):
    """floor(x * 2**F + 1/2) for a finite double x, exactly."""
    q = Fraction(x) * (Fraction(2) ** F) + Fraction(1, 2)
    return q.numerator // q.denominator


def real_alphabet(f, small):
    """Finite doubles around every tie, representable point and bound of format f."""
    S, I, F = f
    lo, hi = ref.vmin(f), ref.vmax(f)
    lsb = Fraction(2) ** (-F)
    pts = set()
    if small:
        k = lo * 4 - 9
        while k <= hi * 4 + 9:
            pts.add(Fraction(k, 4) * lsb)
            k += 1
    else:
        for v in ref.corner_values(f) + [lo - 1, lo - 2, hi + 1, hi + 2, 2 * hi + 1, 2 * lo - 1, 2 * hi + 2]:
            for q in (0, 1, 2, 3):
                pts.add((v + Fraction(q, 4)) * lsb)
                if q == 2:
                    pts.add((v - Fraction(1, 2)) * lsb)
        for v in range(-3, 4):
            for q in range(4):
                pts.add((v + Fraction(q, 4)) * lsb)
    out = {0.0, -0.0}
    for p in pts:
        try:
            d = float(p)
        except OverflowError:
            continue
        for x in (d, math.nextafter(d, math.inf), math.nextafter(d, -math.inf)):
            out.add(x)
    big = [1e-300, -1e-300, 5e-324, -5e-324, 0.1, -0.1, 1 / 3, 2.5e-10, 123456.789, -98765.4321, 1e18, -1e18, 1e30, -1e30,
           4503599627370497.5, 4503599627370495.5, 9007199254740991.0, 9007199254740993.0, 2.0 ** 62, 2.0 ** 63, 2.0 ** 64, -2.0 ** 63, 1e100, -1e100]
    for x in big:
        out.add(x)
    res = []
    for x in out:
        if x != 0 and abs(math.log2(abs(x)) + F) > 1000:
            continue        # scaled value outside the normal double range: outside the property's domain
        res.append(x)
    return sorted(res)


def nearest_double(v, F):
    """Nearest double of v * 2**-F (round half to even), or None on overflow/underflow."""
    q = Fraction(v) / (Fraction(2) ** F)
    try:
        d = float(q) if not isinstance(q, int) else float(q)
    except OverflowError:
        return None
    if d != 0 and abs(d) < 1e-300:
        return None
    return d
