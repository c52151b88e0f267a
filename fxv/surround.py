"""Process-wide surroundings of the Python model: what importing it and calling it must leave as it was. Runs in a process of its own."""
import contextlib, decimal, gc, io, json, locale, os, random, shutil, signal, sys, tempfile, threading, warnings


def state(rng=True):
    import numpy as np
    s = {
        "warning filters": [repr(f) for f in warnings.filters], "warning display": [repr(warnings.showwarning), repr(warnings.formatwarning)],
        "numpy error handling": [sorted(np.geterr().items()), repr(np.geterrcall())],
        "numpy print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "decimal context": repr(decimal.getcontext()), "locale": repr(locale.setlocale(locale.LC_ALL)),
        "module search path": list(sys.path), "program arguments": list(sys.argv), "working directory": os.getcwd(), "environment": sorted(os.environ.items()),
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)], "hooks": [repr(sys.excepthook), repr(sys.displayhook), repr(sys.gettrace()), repr(sys.getprofile())],
        "recursion limit": sys.getrecursionlimit(), "digits limit": getattr(sys, "get_int_max_str_digits", lambda: 0)(), "switch interval": sys.getswitchinterval(),
        "threads": threading.active_count(), "garbage collection": [gc.isenabled(), gc.get_threshold()],
        "signal handlers": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "open files": sorted(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else [], "file creation mask": mask(),
    }
    if rng:
        s["random numbers"] = repr(random.getstate()) + repr([np.asarray(x).tolist() if not isinstance(x, str) else x for x in np.random.get_state()])
    return s


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def diff(a, b):
    return ["%s: %s instead of %s" % (k, str(b.get(k))[:200], str(a[k])[:200]) for k in a if a[k] != b.get(k)]


def main():
    import numpy as np
    import copy, dataclasses, enum, fractions, functools, math, operator, typing      # noqa: their own effects first
    from fxv import harness as H
    rep = {"bad": [], "calls": 0}
    sys.dont_write_bytecode = True
    sys.path.insert(0, H.PYMODEL)
    tmp = tempfile.mkdtemp(prefix="fxv_n08_")
    os.chdir(tmp)
    try:
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            s0 = state()
            import en_cl_fix_pkg as P
            import en_cl_fix_pkg.matlab_interface as M      # noqa
            d = diff(s0, state())
        if d or out.getvalue():
            rep["bad"].append(["importing the package", d + ["printed %r" % out.getvalue()[:200]] * bool(out.getvalue())])
        from checks import S03
        menu = S03.menu(P, tmp)
        menu["refusals"] = [lambda w: refuse(lambda: P.cl_fix_round(w.a, w.n1, P.FixFormat(1, 9, 1), P.FixRound.Trunc_s)),
                            lambda w: refuse(lambda: P.FixFormat(2, 0, 0)), lambda w: refuse(lambda: P.cl_fix_from_integer(w.c, P.FixFormat(1, 30, 30))),
                            lambda w: refuse(lambda: P.cl_fix_from_real(w.a, w.w1, P.FixSaturate.None_s)), lambda w: refuse(lambda: P.NarrowFix(w.a, w.w1))]
        menu["texts"] = [lambda w: [str(w.A), repr(w.A), str(w.n1), repr(w.n1)], lambda w: [str(w.C), repr(w.C)], lambda w: [str(w.D << 3), repr(-w.A)]]
        results = {}
        for how in ("as started", "as set by the user"):
            for nm in menu:
                for i, op in enumerate(menu[nm]):
                    w = S03.World(P)
                    out = io.StringIO()
                    with warnings.catch_warnings(record=True) as log, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                        if how == "as started":
                            warnings.simplefilter("always")
                            cm = np.errstate(all="warn")
                        else:
                            warnings.simplefilter("ignore")
                            warnings.filterwarnings("always", message=".*", category=UserWarning)
                            cm = np.errstate(all="ignore")
                        with cm, contextlib.nullcontext() if how == "as started" else np.printoptions(precision=3, threshold=7, suppress=True, linewidth=40):
                            drawn = nm == "zeros, random"
                            s = state(not drawn)
                            for again in range(2):
                                try:
                                    r = S03.canon(op(w))
                                except Exception as e:      # noqa
                                    r = ["raised", type(e).__name__, str(e)]
                                rep["calls"] += 1
                                d = diff(s, state(not drawn))
                                if out.getvalue():
                                    d.append("printed %r" % out.getvalue()[:200])
                                if d:
                                    rep["bad"].append(["%s (instance %d, %s)" % (nm, i, how), d])
                                    break
                                texts = nm in ("texts", "class methods")
                                k = (nm, i, how if texts else "")
                                if results.setdefault(k, r) != r:
                                    rep["bad"].append(["%s (instance %d, %s)" % (nm, i, how), ["gave %s, but before %s" % (str(r)[:200], str(results[k])[:200])]])
                                    break
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    print("SURROUND " + json.dumps(rep))


def refuse(f):
    try:
        f()
    except Exception:
        return "refused"
    return "accepted"


if __name__ == "__main__":
    main()
