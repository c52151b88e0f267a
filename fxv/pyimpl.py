"""Binding to the real Python implementation in /repo (public API only)."""
import sys, warnings
import numpy as np
from . import harness, ref

sys.dont_write_bytecode = True
if harness.PYMODEL not in sys.path:
    sys.path.insert(0, harness.PYMODEL)
import en_cl_fix_pkg as P          # noqa: E402

FixFormat, FixRound, FixSaturate = P.FixFormat, P.FixRound, P.FixSaturate
WideFix, NarrowFix = P.WideFix, P.NarrowFix


def fmt(f):
    return FixFormat(*f)


def tup(f):
    return (f.S, f.I, f.F)


def rnd(name):
    return FixRound[name]


def sat(name):
    return FixSaturate[name]


def enc(v, f):
    """int array (unnormalised) -> implementation data for format f."""
    if ref.is_wide(f):
        return enc_wide(v)
    return enc_narrow(v, f)


def enc_wide(v):
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        flat = out.reshape(-1)
        flat[:] = [int(x) for x in v.reshape(-1)]
        return flat.reshape(v.shape)
    return int(v)


def enc_narrow(v, f):
    if isinstance(v, np.ndarray):
        return np.ldexp(v.astype(np.float64), -f[2])
    return float(np.ldexp(float(int(v)), -f[2]))


def is_sat_warning(w):
    if issubclass(w.category, (RuntimeWarning, DeprecationWarning, FutureWarning, PendingDeprecationWarning)):
        return False
    return "precision" not in str(w.message)


class ImplError(Exception):
    pass


def call(fn, *a, **k):
    """-> (result, saturation_warnings, all_warnings). Exceptions of the implementation propagate as ImplError."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with np.errstate(all="ignore"):
                r = fn(*a, **k)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:      # noqa
            raise ImplError("%s: %s" % (type(e).__name__, e))
    return r, sum(1 for w in ws if is_sat_warning(w)), ws


def check_repr(r, f):
    """The data representation promised for a format: None or an error text."""
    if ref.is_wide(f):
        a = np.asarray(r, dtype=object) if type(r) is int else np.asarray(r)
        if a.dtype != object:
            return "wide result has dtype %s" % a.dtype
        for x in a.reshape(-1)[:64]:
            if type(x) is not int:
                return "wide result element is %s" % type(x).__name__
        return None
    a = np.asarray(r)
    if a.dtype != np.float64:
        return "narrow result has dtype %s" % a.dtype
    return None


def compare(r, expect, f):
    """Index of the first difference between implementation data r (format f) and expected ints, or None.
    expect: int ndarray or int."""
    a = np.asarray(r, dtype=object) if type(r) is int else np.asarray(r)
    if isinstance(expect, np.ndarray):
        if a.shape != expect.shape:
            return ("shape", a.shape, expect.shape)
        e = np.asarray(enc(expect, f))
    else:
        if a.shape != ():
            return ("shape", a.shape, ())
        e = np.asarray(enc(expect, f), dtype=object if ref.is_wide(f) else float)
    err = check_repr(r, f)
    if err:
        return ("representation", err, "")
    ne = (a != e)
    ne = np.asarray(ne, dtype=bool)
    if ne.any():
        i = int(np.flatnonzero(ne.reshape(-1))[0])
        return ("value", i, a.reshape(-1)[i], e.reshape(-1)[i])
    return None
