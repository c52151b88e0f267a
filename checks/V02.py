"""V02: the VHDL library refuses every request outside its rules (and only those): the simulation stops with a failure."""
import itertools, os, shutil, subprocess, tempfile, time
from fxv import ref, vhdl as V, fio, harness as H
from checks import F01

PID = "V02"
BIN, DEC, HEX = 0, 1, 2


# ---------------------------------------------------------------- functions: (command line, legal, what, info)
def small():
    return ref.small_formats(4, -3, 4, -3, 4) if H.THOROUGH else ref.small_formats(3, -2, 3, -2, 3)


def edges():
    return ref.edge_formats(widths=(31, 32, 33, 53, 54, 64, 65, 128), splits=("mid", "neg_i", "neg_f"))


def near(f, d):
    for s in (0, 1):
        for i, q in itertools.product(range(-d, d + 1), repeat=2):
            g = (s, f[1] + i, f[2] + q)
            if sum(g) >= 1:
                yield g


def val(f):
    return V.bits(ref.vmin(f) if f[0] else ref.vmax(f), ref.width(f))


def fn_cases(u):
    kind, f = u
    out = []

    def add(op, legal, what, groups=(), **k):
        out.append((V.line(op, a=f, n=len(groups), groups=groups, **k), legal, what, dict(k, a_fmt=f)))
    if kind in ("round", "sat"):
        rs = small() if ref.width(f) < 6 else list(near(f, 2))
        for r in rs:
            if kind == "round":
                for m in ref.RND:
                    legal = r == ref.round_fmt(f, r[2], m)
                    add("round", legal, "cl_fix_round", [val(f)], r=r, rnd=m)
                    add(80, legal, "cl_fix_recommended_pipelining for rounding", r=r, rnd=m)
                    if not legal:
                        add(81, True, "cl_fix_recommended_pipelining for rounding, check off", r=r, rnd=m)
            else:
                for m in ref.SAT:
                    legal = r[2] == f[2]
                    add("saturate", legal, "cl_fix_saturate", [val(f)], r=r, sat=m)
                    add(78, legal, "cl_fix_recommended_pipelining for saturation", r=r, sat=m)
    elif kind == "misc":
        for lo, hi in itertools.product(range(-4, 5), repeat=2):
            add(66, lo <= hi, "cl_fix_shift_fmt(%d, %d)" % (lo, hi), x=lo, dir=hi)
        for m in ref.SAT:
            for hi, lo, e in ((0, 0, 0), (1, 0, 60), (-1, 0, 60), (-3, 5, -9)):
                out.append((V.line(90, r=f, sat=m, n=1, groups=["%d %d %d" % (hi, lo, e)]), m in ("Sat_s", "SatWarn_s"), "cl_fix_from_real", dict(r_fmt=f, sat=m)))
        for x in range(20):
            for g in (f, (1, 1, 1), (0, 2, 0)):
                add("compare1", x < 6, "cl_fix_compare with relation number %d" % x, ["%s %s" % (val(f), val(g))], b=g, x=x)
    else:
        def txt(op, s, legal, what):
            out.append((V.line(op) + " " + s, legal, what, {"text": s}))
        base = "(%d,%d,%d)" % f
        for t in (base, "(%d, %d, %d)" % f, "FixFormat(%d, %d, %d)" % f, "  (%d,%d,%d) ;" % f):
            txt(92, t, True, "cl_fix_format_from_string")
            for i, c in enumerate(t):
                if c in "(,)":
                    txt(92, t[:i] + t[i + 1:], False, "cl_fix_format_from_string without '%s'" % c)
                    for d in "[;.":
                        txt(92, t[:i] + d + t[i + 1:], False, "cl_fix_format_from_string with '%s' for '%s'" % (d, c))
                if c == "(":
                    txt(92, t[:i], False, "cl_fix_format_from_string, cut off")
                    for d in "23456789-+x,)(":
                        txt(92, t[:i + 1] + d + t[i + 2:], False, "cl_fix_format_from_string with '%s' sign bits" % d)
                        txt(92, t[:i + 1] + d + t[i + 1:], False, "cl_fix_format_from_string with '%s' before the sign bits" % d)
                elif c == ")":
                    txt(92, t[:i], False, "cl_fix_format_from_string, cut off")
        if f == (0, 1, 0):
            for op, names, others in ((93, ref.RND, ref.SAT), (94, ref.SAT, ref.RND)):
                ok = {n.lower() for n in names}
                bad = {"", "x", "_s", "trunc", "none"} | {n.lower() for n in others}
                for n in names:
                    txt(op, n, True, "mode name")
                    for i in range(len(n)):
                        bad |= {n[:i] + n[i + 1:], n[:i], n[i + 1:]} | {n[:i] + c + n[i + 1:] for c in "x_0 s"} | {n[:i] + c + n[i:] for c in "x_ s"}
                    bad |= {n + c for c in "x_ s"} | {n + n}
                for b in sorted(bad):
                    if b and b.lower() not in ok:
                        txt(op, b, False, "mode name")
    return [c for c in out if "\n" not in c[0] or c[0].count("\n") == 1]


def judge_fn(R, exe, cases):
    """Legal requests run to the end; each illegal one, in a simulation of its own, ends it before anything is returned."""
    legal = [c for c in cases if c[1]]
    R.states += len(cases)
    R.transitions += len(cases)
    R.traces += len(cases)
    i = 0
    while i < len(legal):
        out = V.run_driver(exe, [c[0] for c in legal[i:i + 3000]])
        for c, (toks, _, notes) in zip(legal[i:], out.cmds):
            if any(s == "failure" for s, _ in notes):
                R.bad("refused", "VHDL %s %s: a legal request is reported: %s" % (c[2], c[3], notes[0]), dict(c[3], call=c[2], command=c[0][:300]))
        i += len(out.cmds)
        if not out.ended:
            c = legal[i]
            R.bad("refused", "VHDL %s %s: a legal request stops the simulation: %s" % (c[2], c[3], out.rest[3][-200:]), dict(c[3], call=c[2], command=c[0][:300]))
            i += 1
            if len(R.viol) > 10:
                return
    for c in cases:
        if not c[1]:
            out = V.run_driver(exe, [c[0]])
            if out.ended or out.cmds or out.rest[2] == 0:
                R.bad("accepted", "VHDL %s %s: an illegal request was answered: %s" % (c[2], c[3], out.cmds[:1]), dict(c[3], call=c[2], command=c[0][:300]))
                if len(R.viol) > 10:
                    return


# ---------------------------------------------------------------- components: their generics
def comp_cases():
    F = ref.small_formats(2, -1, 2, -1, 2) if H.THOROUGH else ref.small_formats(2, 0, 2, -1, 1)
    out = []
    n = 0
    for a, r in itertools.product(F, repeat=2):
        for m in ref.RND:
            n += 1
            legal = r == ref.round_fmt(a, r[2], m)
            if legal or H.THOROUGH or n % 7 == 0:
                out.append((0, a, r, m, "None_s", ("Auto", "Yes", "No")[n % 3], legal))
        for s in ref.SAT:
            n += 1
            legal = r[2] == a[2]
            if H.THOROUGH or n % 5 == 0:
                out.append((1, a, r, "Trunc_s", s, ("Auto", "Yes", "No")[n % 3], legal))
    return out


def judge_comp(R, exe, cases):
    for kind, a, r, m, s, reg, legal in cases:
        d = tempfile.mkdtemp(prefix="fxv_")
        try:
            with open(os.path.join(d, "cmd.txt"), "w") as f:
                for v in (1, 0, 1):
                    f.write("0 %d %s %s\n" % (v, "", V.bits(ref.vmax(a), ref.width(a))))
            g = dict(cmd_g="cmd.txt", kind_g=kind, aS=a[0], aI=a[1], aF=a[2], rS=r[0], rI=r[1], rF=r[2], rnd_g=ref.RND.index(m), sat_g=ref.SAT.index(s),
                     reg_g=("Auto", "Yes", "No").index(reg), meta_g=0, check_g=1)
            p = subprocess.run([exe, "--ieee-asserts=disable"] + ["-g%s=%s" % kv for kv in g.items()], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        R.states += 1
        R.transitions += 1
        R.traces += 1
        ended = "\nEND" in "\n" + p.stdout and p.returncode == 0
        if ended != legal:
            info = dict(component=("round", "saturate")[kind], in_fmt=a, out_fmt=r, rnd=m, sat=s, reg_mode=reg)
            R.bad("component", "component %s: %s" % (info, "refused: " + p.stdout[-200:] if legal else "accepted"), info)


# ---------------------------------------------------------------- files: (command, files, what, info)
def file_cases(t, s, mode):
    w = {"int": 32, "sl": 1, "bit": 1}.get(t, 6)
    hd = F01.hd
    num = [F01.text(v if w > 1 else v & 1, w, s, mode) for v in (1, 0, 7, 3, 5, 2, 4, 6, 1, 3, 0, 2)]
    out = []

    def add(cmd, body, what, name="bad.txt"):
        out.append((cmd, (name, body) if body is not None else None, what, dict(type=t, signed=s, mode=mode, body=body)))
    if fio.TYPES[t][3]:          # whole-file readers
        T = H.THOROUGH
        for rows, cols in ((2, 1), (2, 2), (3, 2), (2, 3), (4, 1)) + (((3, 3), (5, 2)) if T else ()):
            for rr in range(1, rows):
                for cc in range(cols):
                    for sep in (" ", ", ") if mode == DEC else (" ",):
                        m = [[num[(i * cols + j) % len(num)] for j in range(cols)] for i in range(rows)]
                        del m[rr][cc]
                        if sep == ", " and (rr + cc) % 2:
                            continue
                        for skip in (0, 1) if rr == rows - 1 else (0,):
                            add([hd("rfile", t, s, mode, w, 0, x=skip), "bad.txt"], "# head\n" * skip + "\n".join(sep.join(r) for r in m) + "\n", "read file with too few numbers in a row")
        for k, body in ((1, ""), (2, "# one line\n"), (3, num[0] + "\n" + num[1] + "\n")):
            add([hd("rfile", t, s, mode, w, 0, x=k), "bad.txt"], body, "skip more lines than the file has")
        add([hd("rfile", t, s, mode, w, 0, x=0), "missing.txt"], None, "read a file that does not exist")
    n = 3
    body = "\n".join(num[:n]) + "\n"
    syms = [q for q in F01.SYMS if q[0] in "pf"]
    for L in (1, 2, 3, 4):
        for seq in itertools.product(syms, repeat=L):
            # runs past the end exactly at its last read, without closing before
            pos, over = 0, []
            for q in seq:
                pos += int(q[1]) + 1
                over.append(pos > n)
            if any(q[2] == "1" for q in seq) or not over[-1] or any(over[:-1]) or len({q[0] for q in seq}) > 1:
                continue
            add([hd("rstream", t, s, mode, w, len(seq)), "bad.txt"] + list(seq), body, "read past the end of an open file (%s)" % " ".join(seq))
    add([hd("rstream", t, s, mode, w, 1), "missing.txt", "p00"], None, "read from a file that does not exist")
    if mode == DEC and t not in ("sl", "bit"):
        for txt in ("abc", " ", "#;,", "--"):
            add([hd("rline", t, s, mode, w, 1), txt], None, "read a number from a line without one") if s and txt != "--" else None
    return out


def judge_file(R, exe, u):
    for cmd, f, what, info in file_cases(*u):
        d = tempfile.mkdtemp(prefix="fxv_")
        try:
            if f:
                with open(os.path.join(d, f[0]), "w") as fh:
                    fh.write(f[1])
            out, tail = fio.run(exe, [cmd], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        R.states += 1
        R.transitions += 1
        R.traces += 1
        if out:
            R.bad("file", "%s %s: returned %s" % (what, info, out[0][:6]), dict(info, call=what, command=cmd))
            if len(R.viol) > 10:
                return


def work(arg):
    (drv, comp, fexe, pre), kind, us = arg
    R = H.Result()
    old = os.environ.get("LD_PRELOAD")
    if pre:
        os.environ["LD_PRELOAD"] = pre
    try:
        if kind == "fn":
            cs = [c for u in us for c in fn_cases(u)]
            judge_fn(R, drv, cs)
            if cs and not R.samples:
                R.samples.append({"request": cs[len(cs) // 2][2], "legal": cs[len(cs) // 2][1]})
        elif kind == "comp":
            judge_comp(R, comp, us)
        else:
            for u in us:
                judge_file(R, fexe, u)
    finally:
        if pre:
            os.environ.pop("LD_PRELOAD")
            if old:
                os.environ["LD_PRELOAD"] = old
    return R


def quick_stop():
    """A failing simulation spends most of its time on a stack trace through the C library; without the list of loaded objects
    it is not printed. Returns (directory, library) or (None, None)."""
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        with open(os.path.join(d, "q.c"), "w") as f:
            f.write("int dl_iterate_phdr(void *f, void *d) { (void)f; (void)d; return 0; }\n")
        V.sh(["gcc", "-shared", "-fPIC", "-o", "q.so", "q.c"], d)
        return d, os.path.join(d, "q.so")
    except Exception:       # noqa: only slower without it
        return d, None


def main():
    t0 = time.time()
    R = H.Result()
    dirs = []
    try:
        d, pre = quick_stop()
        dirs.append(d)
        d, drv = V.build()
        dirs.append(d)
        d, comp = V.build("fxv_comp", [os.path.join(H.VERIF, "vhdl", "fxv_comp.vhd")])
        dirs.append(d)
        d, fexe = fio.build()
        dirs.append(d)
        ex = (drv, comp, fexe, pre)
        S, E = small(), edges()
        us = [(k, f) for k in ("round", "sat") for f in S + E] + [("misc", f) for f in S[::3] + E[::4]] + [("text", f) for f in S[::4] + E[::6]]
        jobs = [(ex, "fn", c) for c in [[("text", (0, 1, 0))]] + list(H.chunks(us, 96))]
        jobs += [(ex, "comp", c) for c in H.chunks(comp_cases(), 16)]
        jobs += [(ex, "file", [(t, s, m)]) for t, s in F01.typed() for m in (BIN, DEC, HEX)]
        H.pool_map("checks.V02", "work", jobs, res=R)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, assumptions=["missing digits inside a format text, operands whose length does not match their format and numbers that do not fit the type read into are not judged", "binary and hexadecimal numbers are separated by white space"],
                    bounds="all pairs of small formats and neighbours of formats at representation frontiers x modes; every deletion/replacement of a delimiter and every one-character edit of a mode name; every missing number of small files; every read sequence of depth 4 that runs past the end")
