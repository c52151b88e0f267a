"""Shared driver for the Python checks: apply a public function, compare with the exact oracle."""
import numpy as np
from . import ref, harness as H, pyimpl as I

P = I.P


def run(R, name, case, fn, args, exp, r, warn=None, sample=None):
    """fn(*args) must produce exactly exp (ints) in format r; warn: None (ignore) / True / False."""
    n = exp.size if isinstance(exp, np.ndarray) else 1
    R.transitions += n
    R.traces += 1
    try:
        out, nw, _ = I.call(fn, *args)
    except I.ImplError as e:
        R.bad("exc", "%s %s raised %s" % (name, case, e), dict(case, error=str(e)))
        return None
    d = I.compare(out, exp, r)
    if d is not None:
        x = dict(case, diff=d)
        if d[0] == "value" and isinstance(exp, np.ndarray):
            x["index"] = d[1]
            x["args_at"] = [repr(a.reshape(-1)[d[1]]) for a in args if isinstance(a, np.ndarray) and a.size == n]
        R.bad("value", "%s %s: %s args=%s" % (name, case, d, x.get("args_at", [repr(a) for a in args][:6])), x)
        return None
    if warn is not None and (nw > 0) != bool(warn):
        R.bad("warn", "%s %s: %d saturation warnings, expected %s" % (name, case, nw, "one" if warn else "none"), dict(case, warnings=nw))
    if sample and len(R.samples) < 2:
        R.samples.append(dict(case, result=[str(x) for x in np.asarray(out).reshape(-1)[:4]]))
    return out


def forms(x, f):
    """Scalar, 0-d and one-element forms of one value."""
    s = I.enc(int(x), f)
    z = np.empty((), dtype=object) if ref.is_wide(f) else np.array(s, dtype=np.float64)
    if ref.is_wide(f):
        z[()] = s
    return (("scalar", s), ("0-d", z))


def spread(vals, n):
    """First, last and n evenly spaced elements."""
    if len(vals) <= n + 2:
        return list(vals)
    step = (len(vals) - 1) / float(n + 1)
    return sorted({vals[int(round(i * step))] for i in range(n + 2)})
