"""F02: fixed-point data and format files: what one side (VHDL or Python) writes, either side reads back unchanged."""
import io, itertools, os, shutil, tempfile, time
import numpy as np
from fxv import fio, ref, vhdl as V, harness as H
from checks import F01
from checks.F01 import BIN, DEC, HEX

PID = "F02"


def fmts_all():
    n = 6 if H.THOROUGH else 4
    small = [(s, i, f) for s in (0, 1) for i in range(-n, n + 1) for f in range(-n, n + 1)]
    return small + [(s, i, f) for s in (0, 1) for i, f in ((10, 0), (0, 10), (-10, 12), (100, -99), (99, 100), (31, 32), (1000, -999), (-123, 456), (12, 34), (2147483647, 0), (-2147483647, 0), (0, -2147483647))]


def fmts_data():
    out = [(s, i, f) for s in (0, 1) for i in range(-2, 4) for f in range(-2, 4) if 1 <= s + i + f <= 6 and i + f >= 0]
    for w in (31, 32, 33, 52, 53, 54, 63, 64, 65, 100) + ((127, 128, 129, 200) if H.THOROUGH else ()):
        for s in (0, 1):
            out.append((s, w // 3, w - s - w // 3))
            out.append((s, w + 2, -2 - s))
    return out


def fstr(f):
    return "(%d, %d, %d)" % f


def nospace(x):
    return x.replace(" ", "")


def case(lines, exp, info, n=1, files=None, post=None):
    def chk(out):
        if exp is not None and out != exp:
            return "printed %s, expected %s" % (out[:12], exp[:12])
        return post() if post else None
    c = (lines, chk, info, n)
    return c + (files,) if files else c


SYMS = ["f00", "f01", "f10", "f11", "f20", "g00"]


def format_cases(d):
    from fxv import pyimpl as I
    out = []
    F = fmts_all()
    show = lambda f: "%d %d %d" % f
    for f in F:
        # line: written text parses (here and by the other side's notation), and is appended to what the line holds
        def chk(o, f=f):
            if len(o) != 1 or not o[0].startswith("[x ") or nospace(o[0][3:-1]) != nospace(fstr(f)):
                return "line %s" % o
        out.append(([fio.head("fmt_wline"), "x ", show(f)], chk, dict(op="write format to line", fmt=f), 1))
        for t in (fstr(f), nospace(fstr(f)), "(%d,  %d,%d)" % f):
            out.append(case([fio.head("fmt_rline"), t], [show(f), "[]"], dict(op="read format from line", text=t)))
    # files: both writers x both readers, several counts and skips
    F2 = F[::3] + F[-24:]
    k = 0
    for n in (0, 1, 2, 5, len(F2), 5 * len(F2)):
        fs = (F2 * 5)[:n]
        for st in (0, 1):
            name = "vf%d.txt" % k
            k += 1

            def post(name=name, fs=fs):
                raw = open(os.path.join(d, name)).read()
                if [nospace(x) for x in raw.split("\n")] != [nospace(fstr(f)) for f in fs] + [""]:
                    return "file %r" % raw[:80]
            out.append(case([fio.head("fmt_wfile", n=n, x=st), name] + [show(f) for f in fs], ["ok"], dict(op="write format file", fmts=fs, one_by_one=st), max(1, n), post=post))
            out.append(case([fio.head("fmt_rfile", x=0), name], [str(n)] + [show(f) for f in fs], dict(op="read format file written by VHDL", fmts=fs), max(1, n)))
        for skip in (-1, 0, 1, 2, 3):
            h = 1 if skip < 0 else skip
            body = "".join("# h%d, (1,2,3)\n" % i for i in range(h)) + "".join(fstr(f) + "\n" for f in fs)
            name = "vr%d.txt" % k
            k += 1
            out.append(case([fio.head("fmt_rfile", x=skip), name], [str(n)] + [show(f) for f in fs], dict(op="read format file", fmts=fs, skip=skip), max(1, n), files=(name, body)))
        # written by Python (list, tuple, array, and a single format), read with the defaults
        for form in ("list", "tuple", "array") if n else ("list",):
            name = "py%d.txt" % k
            k += 1
            fs = [f for f in fs if f[1] + f[2] >= 0]
            objs = [I.fmt(f) for f in fs]
            names = ["f%d" % i for i in range(len(fs))]
            arg = objs if form == "list" else tuple(objs)
            if form == "array":
                arg = np.empty(len(fs), dtype=object)
                arg[:] = objs
            I.call(I.P.cl_fix_write_formats, arg, names, os.path.join(d, name))
            out.append(case([fio.head("fmt_rfile", x=-1), name], [str(len(fs))] + [show(f) for f in fs], dict(op="Python writes, VHDL reads formats", fmts=fs, form=form), max(1, n)))
    for f in [f for f in F2 if f[1] + f[2] >= 0][::3]:
        name = "p1_%d.txt" % k
        k += 1
        I.call(I.P.cl_fix_write_formats, I.fmt(f), ["x"], os.path.join(d, name))
        out.append(case([fio.head("fmt_rfile", x=-1), name], ["1", show(f)], dict(op="Python writes a single format, VHDL reads", fmt=f)))
    # streams: every sequence of reads
    fs = F2[:12]
    body = "".join(fstr(f) + "\n" for f in fs)
    for n in range(1, (5 if H.THOROUGH else 4)):
        for seq in itertools.product(SYMS, repeat=n):
            exp, pos = [], 0
            for q in seq:
                pos += int(q[1]) if q[0] == "f" else 0
                exp += [show(fs[pos]), "closed" if q[2] == "1" else "open"]
                pos = 0 if q[2] == "1" else pos + 1
            out.append(case([fio.head("fmt_stream", n=n), "stream.txt"] + list(seq), exp, dict(op="read formats from open file", sequence=seq), n, files=("stream.txt", body)))
    # enumerations exchanged as numbers
    for i, m in enumerate(I.FixRound):
        out.append(case([fio.head("modes", x=0, y=m.value)], [m.name.lower()], dict(op="rounding mode number", mode=m.name)))
    for i, m in enumerate(I.FixSaturate):
        out.append(case([fio.head("modes", x=1, y=m.value)], [m.name.lower()], dict(op="saturation mode number", mode=m.name)))
    return out


def data_cases(f, d):
    from fxv import pyimpl as I
    P = I.P
    out = []
    w, s = ref.width(f), f[0]
    t = ("fix", f)
    vs_all = F01.vals(w, s, 6)
    sub = vs_all if len(vs_all) <= 40 else vs_all[::len(vs_all) // 40] + [vs_all[-1]]
    k = 0
    for mode in (BIN, DEC, HEX):
        for rng in (0, 1, 2):
            for i in range(0, len(sub), 4):
                vs = sub[i:i + 4]
                out.append(F01.c_wline(t, s, mode, w, rng, vs, ["", "r: "][i // 4 % 2], " "))
                out.append(F01.c_rline(t, s, mode, w, rng, vs, " ".join(F01.text(v, w, s, mode, i % 3, i % 2 == 0) for v in vs), "" if mode == DEC else None))
            for hdr in (None, "# data"):
                out.append(F01.c_wfile(t, s, mode, w, sub, "o%d.txt" % k, hdr, rng, d))
                # reading it back (before any later command overwrites it)
                out.append(case([F01.hd("rfile", t, s, mode, w, 0, x=1 if hdr else 0), "o%d.txt" % k], [str(len(sub)), "0 %d" % (len(sub) - 1)] + [V.bits(v, w) for v in sub],
                                dict(op="read fixed-point file written by VHDL", fmt=f, mode=mode, header=hdr), len(sub)))
                k += 1
        out.append(F01.c_wfile(t, s, mode, w, sub, "s%d.txt" % mode, None, 0, d, stream=True))
        for skip in (-1, 0, 2):
            out.append(F01.c_rfile(t, s, mode, w, [[v] for v in sub], "i%d_%d.txt" % (mode, skip + 1), skip, d))
        if w <= 3:
            fv = [vs_all[(3 * i + 1) % len(vs_all)] for i in range(10)]
            for n in (1, 2, 3):
                for seq in itertools.product([q for q in F01.SYMS if q[0] in "fg"], repeat=n):
                    out.append(F01.c_rstream(t, s, mode, w, seq, "st%d.txt" % mode, fv, d))
    # Python writes, VHDL reads with the defaults
    X = I.enc(ref.arr(vs_all, 200), f)
    Z, _, _ = I.call(P.cl_fix_to_integer, X, I.fmt(f))
    Z = np.asarray(Z).reshape(-1)
    np.savetxt(os.path.join(d, "py.txt"), Z, fmt="%i", header="r[%d]" % len(vs_all))
    out.append(case([F01.hd("rfile", t, s, DEC, w, 0, x=-1), "py.txt"], [str(len(vs_all)), "0 %d" % (len(vs_all) - 1)] + [V.bits(v, w) for v in vs_all],
                    dict(op="Python writes, VHDL reads data", fmt=f), len(vs_all)))

    # VHDL writes (default base), Python reads
    def post():
        ints = [int(x) for x in open(os.path.join(d, "vh.txt")).read().split("\n")[1:-1]]
        a = np.array(ints, dtype=object if w > 62 else np.int64)
        r, _, _ = I.call(P.cl_fix_from_integer, a, I.fmt(f))
        if not np.array_equal(np.asarray(r), np.asarray(I.enc(ref.arr(vs_all, 200), f))):
            return "Python reads other values than VHDL wrote"
    out.append(case([F01.hd("wfile", t, s, DEC, w, len(vs_all), x=1), "vh.txt", "# h"] + [V.bits(v, w) for v in vs_all], ["ok"],
                    dict(op="VHDL writes, Python reads data", fmt=f), len(vs_all), post=post))
    return out


def work(arg):
    exe, us = arg
    R = H.Result()
    for kind, u in us:
        d = tempfile.mkdtemp(prefix="fxv_")
        try:
            F01.judge(R, exe, format_cases(d) if kind == "fmt" else data_cases(u, d), d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if len(R.viol) > 10:
            break
    return R


def main():
    t0 = time.time()
    R = H.Result()
    d = None
    try:
        d, exe = fio.build()
        us = [("fmt", None)] + [("data", f) for f in fmts_data()]
        H.pool_map("checks.F02", "work", [(exe, c) for c in H.chunks(us, 32)], res=R)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, True, ["GHDL 4.1 executes the VHDL faithfully", "Python writes integer data with numpy.savetxt, as the co-simulation scripts do"],
                    "all formats with |I|,|F| <= %d plus extreme ones; data of all formats up to 6 bits and widths up to %d; every sequence of up to %d reads" % (6 if H.THOROUGH else 4, 200 if H.THOROUGH else 100, 4 if H.THOROUGH else 3))
