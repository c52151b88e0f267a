"""S03: the Python model under concurrent callers: every line-level schedule (up to a preemption bound) of two threads calling any
two operations on shared operands and formats gives each caller what it gets alone."""
import enum, os, sys, threading, time, warnings
import numpy as np
from fxv import ref, sched, harness as H

PID = "S03"
BUDGET = 120 if H.THOROUGH else 0        # seconds per pair for deeper bounds


def obj(*vals):
    a = np.empty(len(vals), dtype=object)
    a[:] = vals
    return a


class World:
    """Shared operands and formats, fresh for every execution."""

    def __init__(self, P):
        self.n1, self.n2 = P.FixFormat(1, 3, 4), P.FixFormat(0, 2, 3)       # narrow
        self.w1, self.w2 = P.FixFormat(1, 40, 40), P.FixFormat(0, 60, 3)    # wide
        self.r1, self.r2 = P.FixFormat(1, 1, 2), P.FixFormat(0, 1, 1)       # small results
        self.q1 = P.FixFormat(1, 30, 38)                                    # wide result
        self.fmts = {k: v for k, v in vars(self).items()}
        self.a, self.b = np.array([-8.0, -0.0625, 1.5, 7.9375]), np.array([0.0, 3.875, 0.125, 2.0])
        self.c, self.d = obj(-2**80, -1, 3 * 2**39, 2**80 - 1), obj(0, 1, 2**63 - 1, 2**62)
        self.s = np.array([0, 2, -1, 1])
        self.p = np.array([True, False, False, True])
        self.u = np.array([[3, 1], [2**64 - 1, 2**17 - 1]], dtype=np.uint64)
        self.arrays = {k: v.copy() for k, v in vars(self).items() if isinstance(v, np.ndarray)}
        self.A, self.B = P.NarrowFix(self.a, self.n1), P.NarrowFix(self.b, self.n2)
        self.C, self.D = P.WideFix(self.c, self.w1), P.WideFix(self.d, self.w2)

    def changed(self):
        for k, v in self.arrays.items():
            if not np.array_equal(getattr(self, k), v):
                return "operand array changed: %r" % (getattr(self, k),)
        want = {"n1": (1, 3, 4), "n2": (0, 2, 3), "w1": (1, 40, 40), "w2": (0, 60, 3), "r1": (1, 1, 2), "r2": (0, 1, 1), "q1": (1, 30, 38)}
        for k, v in want.items():
            f = self.fmts[k]
            if (f.S, f.I, f.F) != v:
                return "format changed: %s instead of %s" % ((f.S, f.I, f.F), v)
        for k, o, f in (("a", self.A, "n1"), ("b", self.B, "n2"), ("c", self.C, "w1"), ("d", self.D, "w2")):
            if not np.array_equal(o.data, self.arrays[k]) or (o.fmt.S, o.fmt.I, o.fmt.F) != want[f]:
                return "number object changed: %s" % o
        return None


def menu(P, tmp):
    """name -> three instances (World -> result): narrow; same operands in another mode or format; wide."""
    rnd, sat, F = P.FixRound, P.FixSaturate, P.FixFormat
    m = {}
    m["from_real"] = [lambda w: P.cl_fix_from_real(w.a, w.r1, sat.SatWarn_s), lambda w: P.cl_fix_from_real(w.a, w.r2, sat.Sat_s), lambda w: P.cl_fix_from_real(w.a, w.w1, sat.Sat_s)]
    m["from_integer"] = [lambda w: P.cl_fix_from_integer(w.s, w.n1), lambda w: P.cl_fix_from_integer(int(w.s[1]), w.n2), lambda w: P.cl_fix_from_integer(w.c, w.w1)]
    m["to_integer"] = [lambda w: P.cl_fix_to_integer(w.a, w.n1), lambda w: P.cl_fix_to_integer(w.b, w.n2), lambda w: P.cl_fix_to_integer(w.c, w.w1)]
    m["to_real"] = [lambda w: P.cl_fix_to_real(w.a, w.n1), lambda w: P.cl_fix_to_real(w.b, w.n2), lambda w: P.cl_fix_to_real(w.c, w.w1)]
    m["round"] = [lambda w: P.cl_fix_round(w.a, w.n1, F(1, 4, 2), rnd.NonSymPos_s), lambda w: P.cl_fix_round(w.a, w.n1, F(1, 4, 1), rnd.ConvOdd_s), lambda w: P.cl_fix_round(w.c, w.w1, F(1, 41, 20), rnd.SymInf_s)]
    m["saturate"] = [lambda w: P.cl_fix_saturate(w.a, w.n1, F(1, 1, 4), sat.SatWarn_s), lambda w: P.cl_fix_saturate(w.a, w.n1, F(0, 2, 4), sat.None_s), lambda w: P.cl_fix_saturate(w.c, w.w1, F(0, 20, 40), sat.Warn_s)]
    m["resize"] = [lambda w: P.cl_fix_resize(w.a, w.n1, w.r1, rnd.NonSymPos_s, sat.SatWarn_s), lambda w: P.cl_fix_resize(w.a, w.n1, w.q1, rnd.Trunc_s, sat.None_s), lambda w: P.cl_fix_resize(w.c, w.w1, w.r2, rnd.SymZero_s, sat.Sat_s)]
    m["in_range"] = [lambda w: P.cl_fix_in_range(w.a, w.n1, w.r1, rnd.NonSymPos_s), lambda w: P.cl_fix_in_range(w.a, w.n1, w.r2, rnd.Trunc_s), lambda w: P.cl_fix_in_range(w.c, w.w1, w.q1, rnd.NonSymNeg_s)]
    m["abs"] = [lambda w: P.cl_fix_abs(w.a, w.n1), lambda w: P.cl_fix_abs(w.a, w.n1, w.r2, rnd.ConvEven_s, sat.Sat_s), lambda w: P.cl_fix_abs(w.c, w.w1, w.q1, rnd.Trunc_s, sat.SatWarn_s)]
    m["neg"] = [lambda w: P.cl_fix_neg(w.a, w.n1), lambda w: P.cl_fix_neg(w.b, w.n2, w.r2, rnd.Trunc_s, sat.None_s), lambda w: P.cl_fix_neg(w.d, w.w2)]
    for n in ("add", "sub", "mult"):
        f = getattr(P, "cl_fix_" + n)
        m[n] = [lambda w, f=f: f(w.a, w.n1, w.b, w.n2), lambda w, f=f: f(w.a, w.n1, w.a, w.n1, w.r1, rnd.SymInf_s, sat.SatWarn_s), lambda w, f=f: f(w.c, w.w1, w.b, w.n2, w.q1, rnd.NonSymPos_s, sat.Sat_s)]
    m["addsub"] = [lambda w: P.cl_fix_addsub(w.a, w.n1, w.b, w.n2, w.p), lambda w: P.cl_fix_addsub(w.a, w.n1, w.b, w.n2, w.p, w.r1, rnd.ConvEven_s, sat.Sat_s), lambda w: P.cl_fix_addsub(w.c, w.w1, w.d, w.w2, w.p)]
    m["shift"] = [lambda w: P.cl_fix_shift(w.a, w.n1, 2, w.r1, rnd.Trunc_s, sat.None_s), lambda w: P.cl_fix_shift(w.a, w.n1, w.s, F(1, 5, 5)), lambda w: P.cl_fix_shift(w.c, w.w1, -3, w.q1, rnd.NonSymPos_s, sat.Sat_s)]
    m["bounds"] = [lambda w: P.cl_fix_max_value(w.n1), lambda w: P.cl_fix_min_value(w.r1), lambda w: [P.cl_fix_max_value(w.w1), P.cl_fix_min_value(w.q1), P.cl_fix_width(w.w1), P.cl_fix_is_wide(w.q1)]]
    m["formats"] = [lambda w: [str(F.for_add(w.n1, w.n2)), str(F.for_sub(w.n1, w.r1)), str(F.for_mult(w.n2, w.r2))],
                    lambda w: [str(F.for_addsub(w.n1, w.r1)), str(F.for_neg(w.r2)), str(F.for_abs(w.n1)), str(F.for_shift(w.n1, -1, 3))],
                    lambda w: [str(F.union(w.n1, w.w2)), repr(F.union([w.n1, w.n2, w.w1])), str(F.for_round(w.w1, 3, rnd.NonSymPos_s)), w.n1 == w.n2, P.cl_fix_format_to_string(w.w1)]]
    m["zeros, random"] = [lambda w: P.cl_fix_zeros((2, 3), w.n1), lambda w: inside(P.cl_fix_random((5,), w.n1), -8.0, 8.0), lambda w: inside(P.cl_fix_random((2, 2), w.w1), -2**80, 2**80)]
    m["operators"] = [lambda w: plain(w.A + w.B), lambda w: plain((-w.A) * w.B), lambda w: plain(w.C - w.D)]
    m["comparison"] = [lambda w: [w.A < w.B, w.A == w.A], lambda w: [w.A >= w.B, w.B != w.A], lambda w: [w.C < w.D, w.D >= w.C, w.C == w.C]]
    m["class methods"] = [lambda w: plain(w.A.resize(w.r1, rnd.NonSymPos_s, sat.SatWarn_s)), lambda w: [str(w.A.round(F(1, 4, 2), rnd.SymZero_s)), len(w.A)], lambda w: [str(w.C), repr(w.D << 2), plain(P.WideFix.from_narrowfix(w.A))]]
    if hasattr(P, "cl_fix_write_formats"):
        def write(w, i, fs):
            path = os.path.join(tmp, "%d_%d.txt" % (os.getpid(), i))
            P.cl_fix_write_formats(fs, ["n%d" % i], path)
            with open(path) as fh:
                return fh.read()
        m["write_formats"] = [lambda w: write(w, 0, [w.n1, w.n2]), lambda w: write(w, 1, [w.w1]), lambda w: write(w, 2, [w.r2, w.q1])]
    import en_cl_fix_pkg.matlab_interface as M
    m["uint64 packing"] = [lambda w: M.to_uint64_array(w.c, w.w1), lambda w: M.to_uint64_array(w.d, w.w2), lambda w: M.from_uint64_array(w.u, w.w1)]
    return m


def inside(x, lo, hi):
    return [x.shape, str(x.dtype), bool((x >= lo).all() and (x < hi).all())]


def plain(n):
    return [type(n).__name__, n.data, str(n.fmt)]


def canon(x):
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return ["array", x.dtype.str, x.shape, [repr(v) for v in x.reshape(-1).tolist()]]
    return [type(x).__name__, repr(x)]


class Fresh:
    """Returns the package to its state after import: globals, class and function attributes, contents of containers, caches."""
    KINDS = (dict, list, set, bytearray, np.ndarray)

    def __init__(self, modules):
        self.spaces, self.boxes, self.caches, seen = [], [], [], set()
        todo = [(m, m.__name__.split(".")[0]) for m in modules]
        while todo:
            o, pkg = todo.pop()
            if id(o) in seen or isinstance(o, (enum.Enum, enum.EnumMeta)):
                continue
            seen.add(id(o))
            if isinstance(o, self.KINDS):
                self.boxes.append((o, o.copy()))
                continue
            if hasattr(o, "cache_clear"):
                self.caches.append(o)
            own = getattr(o, "__dict__", None)
            if own is None or not (o in modules or str(getattr(o, "__module__", "")).startswith(pkg)):
                continue
            vals = {k: v for k, v in own.items() if not (k.startswith("__") and k.endswith("__"))}
            self.spaces.append((o, vals))
            inner = list(vals.values()) + list(getattr(o, "__defaults__", None) or ()) + list((getattr(o, "__kwdefaults__", None) or {}).values())
            for c in getattr(o, "__closure__", None) or ():
                try:
                    inner.append(c.cell_contents)
                except ValueError:
                    pass
            for v in inner:
                v = getattr(v, "__func__", v)
                todo += [(x, pkg) for x in ((v,) if not isinstance(v, property) else (v.fget, v.fset) if v.fset else (v.fget,))]
            if hasattr(o, "__wrapped__"):
                todo.append((o.__wrapped__, pkg))

    def restore(self):
        for o, vals in self.spaces:
            own = o.__dict__
            for k in [k for k in own if k not in vals and not (k.startswith("__") and k.endswith("__"))]:
                delattr(o, k)
            for k, v in vals.items():
                if own.get(k, self) is not v:
                    setattr(o, k, v)
        for o, c in self.boxes:
            if isinstance(o, np.ndarray):
                if o.flags.writeable:
                    o[...] = c
            elif isinstance(o, (list, bytearray)):
                o[:] = c
            else:
                o.clear()
                o.update(c)
        for f in self.caches:
            f.cache_clear()


class Watch:
    """Collects warnings per thread."""

    def __enter__(self):
        self.log = {}
        self.cm = warnings.catch_warnings()
        self.cm.__enter__()
        warnings.simplefilter("always")
        warnings.showwarning = self.show
        return self

    def show(self, message, category, *a, **k):
        if not issubclass(category, (RuntimeWarning, DeprecationWarning, FutureWarning, PendingDeprecationWarning)):
            self.log.setdefault(threading.get_ident(), []).append(str(message))

    def take(self):
        return self.log.pop(threading.get_ident(), [])

    def __exit__(self, *a):
        self.cm.__exit__(*a)


def instances():
    """(operation, instance) in the order of the menu; the names alone, without the implementation."""
    names = ["from_real", "from_integer", "to_integer", "to_real", "round", "saturate", "resize", "in_range", "abs", "neg", "add", "sub", "mult", "addsub", "shift", "bounds", "formats",
             "zeros, random", "operators", "comparison", "class methods", "write_formats", "uint64 packing"]
    return names


def units():
    ns = instances()
    us = []
    for i, a in enumerate(ns):
        for j in range(i, len(ns)):
            b = ns[j]
            if i == j:
                us += [((a, x), (a, y), "own") for x in range(3) for y in range(x, 3)]
            elif H.THOROUGH:
                us += [((a, x), (b, y), "cross") for x in range(3) for y in range(3)]
            else:
                us += [((a, (i + j) % 2), (b, (i + j + 1) % 2), "cross"), ((a, 2), (b, 2), "cross")]
    return us


_env = {}


def env():
    if not _env:
        import tempfile, atexit, shutil
        import fractions, random, enum, copy, typing, functools, operator, math       # noqa: with real locks, before the model's own
        lk = sched.Patched()
        lk.__enter__()
        try:
            from fxv import pyimpl as I
            import en_cl_fix_pkg.matlab_interface      # noqa
        finally:
            lk.__exit__()
        _env["I"] = I
        _env["tmp"] = tempfile.mkdtemp(prefix="fxv_s03_")
        _env["menu"] = menu(I.P, _env["tmp"])
        _env["fresh"] = Fresh([m for n, m in sorted(sys.modules.items()) if n == "en_cl_fix_pkg" or n.startswith("en_cl_fix_pkg.")])
        _env["dir"] = os.path.join(os.path.realpath(H.PYMODEL), "en_cl_fix_pkg") + "/"
        _env["dirs"] = [_env["dir"], os.path.join(H.PYMODEL, "en_cl_fix_pkg") + "/"]
    return _env


def work(us):
    R = H.Result()
    E = env()
    P = E["I"].P
    W = Watch()

    def caller(op, w):
        def f():
            with np.errstate(all="ignore"):
                r = op(w)
            return [canon(r), W.take()]
        return f

    with W:
        alone = {}
        for unit in us:
            for nm, k in unit[:2]:
                if (nm, k) not in alone and nm in E["menu"]:
                    E["fresh"].restore()
                    w = World(P)
                    try:
                        alone[nm, k] = caller(E["menu"][nm][k], w)()
                    except Exception as e:      # noqa
                        alone[nm, k] = None
                        R.bad("exc", "%s (instance %d) raised %s: %s on its own" % (nm, k, type(e).__name__, e), {"operation": nm, "instance": k})
        for unit in us:
            if any(alone.get(x) is None for x in unit[:2]):
                continue
            ops = [E["menu"][nm][k] for nm, k in unit[:2]]

            def make():
                E["fresh"].restore()
                w = World(P)
                W.log.clear()
                return [caller(op, w) for op in ops], w

            def on_end(r, w):
                for t, x in zip(r.threads, unit[:2]):
                    if t.error is not None:
                        return "%s raised %s: %s" % (x[0], type(t.error).__name__, t.error)
                    if t.result != alone[x]:
                        return "%s gave %s instead of %s" % (x[0], t.result, alone[x])
                return w.changed()

            bound = 2 if H.THOROUGH and unit[2] == "own" else 1
            try:
                with sched.Patched():
                    n, steps, prob, sc, reached = sched.deepen(make, E["dirs"], False, bound, on_end, BUDGET)
                    if unit[2] == "own" and not prob and H.THOROUGH:
                        n2, s2, prob, sc, _ = sched.deepen(make, E["dirs"], True, 1, on_end, BUDGET)
                        n, steps = n + n2, steps + s2
            except sched.Stuck as e:
                R.bad("schedule", "%s and %s: %s" % (unit[0], unit[1], e), {"calls": unit})
                continue
            R.states += 1
            R.transitions += steps
            R.traces += n
            R.notes["schedules"] = R.notes.get("schedules", 0) + n
            if reached != bound and not prob:
                R.notes["pairs_stopped_short"] = R.notes.get("pairs_stopped_short", 0) + 1
            R.notes["diverged_replays"] = R.notes.get("diverged_replays", 0) + sched.explore.diverged
            sched.explore.diverged = 0
            if prob:
                R.bad("schedule", "two threads calling %s and %s: %s; schedule %s" % (unit[0], unit[1], prob, sc), {"calls": unit, "schedule": sc, "problem": prob})
            elif len(R.samples) < 1:
                R.samples.append({"calls": unit, "schedules": n, "steps": steps, "results": [alone[x] for x in unit[:2]]})
    return R


def main():
    t0 = time.time()
    us = units()
    import glob, shutil
    try:
        R = H.pool_map("checks.S03", "work", H.chunks(us, 128))
    finally:
        for d in glob.glob("/tmp/fxv_s03_*"):
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, not R.notes.get("pairs_stopped_short"), ["threads interleave between source lines of the package (CPython with the GIL)" + ("; pairs of one operation also between bytecodes" if H.THOROUGH else ""),
                                       "values of cl_fix_random are judged by their range only"],
                    "%d pairs of calls of %d operations, all schedules with at most %s" % (len(us), len(instances()), "one preemption (two for pairs of the same operation)" if H.THOROUGH else "one preemption"))
