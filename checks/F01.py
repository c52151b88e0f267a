"""F01: VHDL text data: what is written to a line or file is the value in the chosen base; what is read is what the text says;
skip/close act as requested for every sequence of reads; whole-file reads return every number of every row in order."""
import itertools, os, re, shutil, tempfile, time
from fxv import fio, vhdl as V, harness as H

PID = "F01"
SIGNED = {"sstd": 1, "sbit": 1, "ustd": 0, "ubit": 0, "int": 1, "sl": 0, "bit": 0}
BIN, DEC, HEX = 0, 1, 2
REPOOL = []


def vals(w, s, all_upto=6):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if w <= all_upto:
        return list(range(lo, hi + 1))
    c = {lo, hi, 0, 1, hi - 1, lo + 1, hi // 2, hi // 3, 10, 99, 100}
    if s:
        c |= {-1, -2, -10, lo // 3, lo // 2, -9}
    step = 1 if w <= 65 else 5 if H.THOROUGH else 17          # wide: every power of ten near the top, others in steps
    for k in sorted(set(range(1, len(str(hi)) + 1, step)) | {len(str(hi)) - 1, len(str(hi)) - 2}):
        c |= {10 ** k, 10 ** k - 1} | ({-10 ** k, 1 - 10 ** k} if s else set())
    for k in range(3, w, step):
        c |= {1 << k, (1 << k) - 1} | ({-(1 << k), -(1 << k) - 1} if s else set())
    return sorted(x for x in c if lo <= x <= hi)


def text(v, w, s, mode, pad=0, upper=True):
    if mode == BIN:
        return V.bits(v, w)
    if mode == HEX:
        n = (w + 3) // 4
        t = "%0*x" % (n, v & ((1 << 4 * n) - 1))
        return t.upper() if upper else t
    return ("-" if v < 0 else "") + "0" * pad + str(abs(v))


def same(got, v, w, s, mode):
    """Does the written text denote v?"""
    if mode == DEC:
        return re.fullmatch(r"-?[0-9]+", got) is not None and int(got) == v
    return got.upper() == text(v, w, s, mode)


def hd(op, t, *a, **k):
    """Command header; t is a type name or ('fix', format)."""
    if isinstance(t, tuple):
        return fio.head(op, t[0], *a, fmt=t[1], **k)
    return fio.head(op, t, *a, **k)


# ------------------------------------------------------------------ cases: (lines, checker(out) -> error or None, info)
def c_wline(t, s, mode, w, rng, vs, pre, sep):
    c = [hd("wline", t, s, mode, w, len(vs), rng=rng), pre, sep] + [V.bits(v, w) for v in vs]

    def chk(out):
        if len(out) != 1 or out[0][:1] != "[" or out[0][-1:] != "]":
            return "no line"
        l = out[0][1:-1]
        if not l.startswith(pre):
            return "earlier text of the line lost: %r" % l
        parts = l[len(pre):].split(sep)
        if len(parts) != len(vs) or not all(same(p, v, w, s, mode) for p, v in zip(parts, vs)):
            return "line %r" % l
    return c, chk, dict(op="write to line", type=t, signed=s, mode=mode, bits=w, values=vs, before=pre, rng=rng), len(vs)


def c_rline(t, s, mode, w, rng, vs, txt, rest):
    c = [hd("rline", t, s, mode, w, len(vs), rng=rng), txt]
    exp = [V.bits(v, w) for v in vs]

    def chk(out):
        if out[:-1] != exp:
            return "read %s, expected %s" % (out[:-1], exp)
        if rest is not None and out[-1] != "[" + rest + "]":
            return "left %s on the line, expected [%s]" % (out[-1], rest)
    return c, chk, dict(op="read from line", type=t, signed=s, mode=mode, bits=w, text=txt, rng=rng), len(vs)


def c_wfile(t, s, mode, w, vs, name, hdr, rng, cwd, stream=False):
    """hdr None: default argument."""
    if stream:
        c = [hd("wstream", t, s, mode, w, len(vs)), name] + [V.bits(v, w) for v in vs]
    else:
        c = [hd("wfile", t, s, mode, w, len(vs), rng=rng, x=0 if hdr is None else 1), name, hdr or ""] + [V.bits(v, w) for v in vs]

    def chk(out):
        if out != ["ok"]:
            return "printed %s" % out
        try:
            raw = open(os.path.join(cwd, name)).read()
        except OSError:
            return "no file"
        ls = raw.split("\n")
        if ls[-1:] != [""]:
            return "last line not terminated: %r" % raw[-20:]
        ls = ls[:-1]
        if hdr and not stream:
            if ls[:1] != [hdr]:
                return "header %r" % ls[:1]
            ls = ls[1:]
        if len(ls) != len(vs) or not all(same(p, v, w, s, mode) for p, v in zip(ls, vs)):
            return "file lines %s" % ls[:8]
    return c, chk, dict(op="write file", type=t, signed=s, mode=mode, bits=w, values=vs, header=hdr, rng=rng, stream=stream), max(1, len(vs))


def c_rfile(t, s, mode, w, rows, name, skip, cwd, sep=" ", tail="", final_nl=True, head=1, pads=0):
    """rows of values written by us; skip -1: default (1)."""
    k = 1 if skip < 0 else skip
    lines = ["# %d header 0" % i for i in range(k)] + [sep.join(text(v, w, s, mode, pads, (i + j) % 2 == 0) for j, v in enumerate(r)) + tail for i, r in enumerate(rows)]
    body = "\n".join(lines) + ("\n" if final_nl and lines else "")
    c = [hd("rfile", t, s, mode, w, 0, x=skip), name]
    flat = [v for r in rows for v in r]

    def chk(out):
        exp = [str(len(flat))] + (["0 %d" % (len(flat) - 1)] if flat else []) + [V.bits(v, w) for v in flat]
        if out != exp:
            return "returned %s, expected %s" % (out[:10], exp[:10])
    return c, chk, dict(op="read file", type=t, signed=s, mode=mode, bits=w, rows=rows, skip=skip, sep=sep, tail=tail, body=body), max(1, len(flat)), (name, body)


def c_size(name, body, skip, mode, cwd, nl, nc):
    c = [fio.head("size", mode=mode, x=skip), name]

    def chk(out):
        if out != [str(nl), str(nc)]:
            return "lines, columns = %s, expected %s" % (out, [nl, nc])
    return c, chk, dict(op="file size", body=body, skip=skip, mode=mode), 1, (name, body)


SYMS = ["p00", "p01", "p10", "p11", "f00", "f01", "f10", "f11", "d00", "g00"]


def c_rstream(t, s, mode, w, seq, name, file_vals, cwd):
    c = [hd("rstream", t, s, mode, w, len(seq)), name] + list(seq)
    exp, pos = [], 0
    for q in seq:
        sk = int(q[1]) if q[0] in "pf" else 0
        pos += sk
        exp.append(V.bits(file_vals[pos], w))
        pos += 1
        closed = q[0] in "pf" and q[2] == "1"
        exp.append("closed" if closed else "open")
        if closed:
            pos = 0

    def chk(out):
        if out != exp:
            return "results %s, expected %s" % (out, exp)
    body = "\n".join(text(v, w, s, mode) for v in file_vals) + "\n"
    return c, chk, dict(op="read from open file", type=t, signed=s, mode=mode, bits=w, sequence=seq, file=file_vals), len(seq), (name, body)


def typed():
    for t in fio.TYPES:
        if t == "fix":
            continue
        for s in ((0, 1) if fio.TYPES[t][4] else (SIGNED[t],)):
            yield t, s


def widths(t):
    if t == "int":
        return [32]
    if t in ("sl", "bit"):
        return [1]
    # including widths whose largest value has just gained, or is about to gain, a decimal digit
    return list(range(1, 9)) + [10, 31, 32, 33, 63, 64, 65, 93, 103, 196] + ([12, 13, 14, 16, 17, 53, 54, 90, 100, 127, 128, 129, 200, 256, 299, 300] if H.THOROUGH else [])


def units():
    us = []
    for t, s in typed():
        for mode in (BIN, DEC, HEX):
            for w in widths(t):
                us.append((t, s, mode, w))
    return us


def cases(u, cwd):
    t, s, mode, w = u
    out = []
    V_ = vals(w, s, 8 if H.THOROUGH else 6)
    ro = t in ("sl", "bit")
    ranges = (0,) if t in ("int", "sl", "bit") else (0, 1, 2)
    seps_w = [" ", ", "]
    # lines
    for rng in ranges:
        for i in range(0, len(V_), 3):
            vs = V_[i:i + 3]
            if not ro:
                out.append(c_wline(t, s, mode, w, rng, vs, "", " "))
            seps = [" ", ", ", ";", "\t", "  "] if mode == DEC else [" ", "\t", "  "]
            sep = seps[(i // 3 + rng) % len(seps)]
            tail = ["", sep][(i // 3) % 2] if mode == DEC else ""
            pads = (i // 3 + rng) % 4
            lead = ["", " ", "x: "][(i // 3) % 3] if mode == DEC and s else ["", " "][(i // 3) % 2] if mode != DEC else ""
            tx = lead + sep.join(text(v, w, s, mode, pads, (i // 3) % 2 == 0) for v in vs) + tail
            out.append(c_rline(t, s, mode, w, rng, vs, tx, "" if mode == DEC else None))
            # partial reading leaves the rest of the line usable
            if len(vs) == 3 and mode == DEC:
                out.append(c_rline(t, s, mode, w, rng, vs[:1], tx, sep.join(text(v, w, s, mode, pads) for v in vs[1:]) + tail))
        if not ro:
            for j, pre in enumerate(["a", "# ", "12 ", "-"]):
                for sep in seps_w:
                    vs = [V_[(j * 3 + k * 5 + 1) % len(V_)] for k in range(3)] + [V_[0], V_[-1]]
                    out.append(c_wline(t, s, mode, w, rng, vs, pre, sep))
    # values 0 to 9 in as many digits as there are: every last digit
    if fio.TYPES[t][3]:
        some = V_ if len(V_) <= 40 else V_[::max(1, len(V_) // 40)] + [V_[-1]]
        k = 0
        for rng in (0, 1, 2):
            for hdr in (None, "", "# head 3", "r[4]"):
                for vs in ([], some[:1], some[-2:], some) if hdr is None or rng == 0 else (some[-3:],):
                    out.append(c_wfile(t, s, mode, w, vs, "o%d.txt" % (k % 50), hdr, rng, cwd))
                    k += 1
        for skip in (-1, 0, 1, 2):
            for cols in (1, 2, 3):
                for nr in (0, 1, 3) if cols == 2 else (2,):
                    rows = [[V_[(r * 7 + c * 3 + skip + 1) % len(V_)] for c in range(cols)] for r in range(nr)]
                    seps = [" ", ", ", "\t"] if mode == DEC else [" ", "\t"]
                    out.append(c_rfile(t, s, mode, w, rows, "i%d_%d_%d.txt" % (skip + 1, cols, nr), skip, cwd, seps[(skip + cols) % len(seps)],
                                       ["", seps[0]][(skip + nr) % 2], (skip + cols + nr) % 3 != 0, pads=(cols + skip) % 3))
        rows = [[v] for v in V_[:300]]
        out.append(c_rfile(t, s, mode, w, rows, "all.txt", 0, cwd))
        if w in (8, 32, 65):        # long files and long lines
            for nr, cols in ((1, 700), (40, 30), (1300, 1), (257, 4)):
                rows = [[V_[(r * 7 + c * 3 + r // 50 + 1) % len(V_)] for c in range(cols)] for r in range(nr)]
                out.append(c_rfile(t, s, mode, w, rows, "L%d.txt" % nr, nr % 3, cwd, [" ", ", "][nr % 2] if mode == DEC else " "))
            out.append(c_wfile(t, s, mode, w, [V_[(r * 5 + r // 90) % len(V_)] for r in range(1500)], "Lw.txt", "# long", 0, cwd))
            many = [V_[(r * 5 + r // 90) % len(V_)] for r in range(400)]
            out.append(c_wline(t, s, mode, w, 0, many, "x", " "))
            out.append(c_rline(t, s, mode, w, 0, many, " ".join(text(v, w, s, mode) for v in many), "" if mode == DEC else None))
        if t not in ("int", "sulv"):
            out.append(c_wfile(t, s, mode, w, some, "s.txt", None, 0, cwd, stream=True))
            out.append(c_wfile(t, s, mode, w, [], "s0.txt", None, 0, cwd, stream=True))
    return out


def stream_cases(u, cwd):
    t, s, mode = u
    w = {"int": 32, "sl": 1, "bit": 1}.get(t, 5)
    base = [3, 14, 7, 1, 12, 9, 0, 15, 5, 2]
    fv = [(b & 1 if w == 1 else b - 9 if s else b) for b in base]
    if w == 1:
        fv = [1, 0, 0, 1, 1, 1, 0, 1, 0, 0]
    out = []
    depth = 4 if H.THOROUGH else 3
    for n in range(1, depth + 1):
        for seq in itertools.product(SYMS, repeat=n):
            out.append(c_rstream(t, s, mode, w, seq, "st_%s_%d_%d.txt" % (t, s, mode), fv, cwd))
    return out


def size_cases(cwd):
    out = []
    k = 0
    num = {BIN: ["0", "101", "1"], DEC: ["5", "-12", "007"], HEX: ["Af", "0", "c9"]}
    for mode in (BIN, DEC, HEX):
        for rows, cols in ((1500, 1), (3, 900), (300, 11)):
            body = "\n".join(" ".join(num[mode][(r + c) % 3] for c in range(cols)) for r in range(rows)) + "\n"
            out.append(c_size("z%d.txt" % k, "h\n" + body, 1, mode, cwd, rows + 1, cols))
            k += 1
        for nh in (0, 1, 2):
            for rows in (0, 1, 4):
                for cols in (1, 2, 5):
                    for sep in (" ", ", ", "\t", " ; "):
                        for lead, tail in (("", ""), (" ", " "), ("", ",")):
                            for nl in (True, False):
                                lines = ["# 3 head" for _ in range(nh)] + [lead + sep.join(num[mode][(r + c) % 3] for c in range(cols)) + tail for r in range(rows)]
                                body = "\n".join(lines) + ("\n" if nl and lines else "")
                                for skip in ([nh] if nh != 1 or mode != DEC else [nh, -1]):
                                    out.append(c_size("z%d.txt" % k, body, skip, mode, cwd, len(lines), cols if rows else 0))
                                    k += 1
    return out


def bad_rows(cwd):
    """Files with a missing number must stop the simulation, not return data."""
    out = []
    for t, s in typed():
        if not fio.TYPES[t][3]:
            continue
        w = 32 if t == "int" else 8
        for k, rows in enumerate([["1 2", "3"], ["1 2 3", "4 5 6", "7 8"], ["1 2", ""]]):
            out.append(([hd("rfile", t, s, DEC, w, 0, x=0), "bad.txt"], ("bad.txt", "\n".join(rows) + "\n"), dict(op="read file with a missing number", type=t, rows=rows)))
    return out


def work(arg):
    exe, us = arg
    R = H.Result()
    for kind, u in us:
        d = tempfile.mkdtemp(prefix="fxv_")
        try:
            if kind == "bad":
                for c, (name, body), info in bad_rows(d):
                    open(os.path.join(d, name), "w").write(body)
                    out, tail = fio.run(exe, [c], d)
                    R.traces += 1
                    R.transitions += 1
                    if out:
                        R.bad("row", "%s: returned data %s" % (info, out[0][:6]), info)
                continue
            cs = cases(u, d) if kind == "data" else stream_cases(u, d) if kind == "stream" else size_cases(d)
            judge(R, exe, cs, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if len(R.viol) > 10:
            break
    return R


def judge(R, exe, cs, d):
    """Run all cases; on an abort report the case that aborted and go on behind it."""
    for c in cs:
        if len(c) > 4:
            with open(os.path.join(d, c[4][0]), "w") as f:
                f.write(c[4][1])
    # files used by later cases must not be overwritten with other contents: names are unique per content within a batch
    i = 0
    while i < len(cs):
        out, tail = fio.run(exe, [c[0] for c in cs[i:]], d)
        for c, o in zip(cs[i:], out):
            R.transitions += c[3]
            R.states += 1
            R.traces += 1
            e = c[1](o)
            if e:
                R.bad(c[2]["op"], "%s: %s" % (c[2], e), dict(c[2], commands=c[0]))
                if len(R.viol) > 10:
                    return
        i += len(out)
        if i < len(cs):
            R.bad("abort", "%s: simulation stopped: %s" % (cs[i][2], tail[-300:]), dict(cs[i][2], commands=cs[i][0]))
            i += 1
            if len(R.viol) > 10:
                return
    if cs and len(R.samples) < 2:
        R.samples.append({k: v for k, v in cs[len(cs) // 2][2].items() if k != "body"})


def main():
    t0 = time.time()
    R = H.Result()
    d = None
    try:
        d, exe = fio.build()
        us = [("data", u) for u in units()]
        us += [("stream", (t, s, m)) for t, s in typed() if t != "sulv" for m in ((BIN, DEC, HEX) if t in ("slv", "sstd") or H.THOROUGH else (DEC,))]
        us += [("size", None), ("bad", None)]
        us.sort(key=lambda k: -k[1][3] if k[0] == "data" and k[1][2] == DEC else 0)       # costly ones first, spread over the chunks
        H.pool_map("checks.F01", "work", [(exe, c) for c in H.chunks(us, 48)], res=R)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, True, ["GHDL 4.1 executes the VHDL faithfully", "unsigned decimal text starts with a digit; binary and hexadecimal columns are separated by white space",
                                       "VUnit is replaced by a stand-in (only its check procedures are referenced)"],
                    "all values up to %d bits and digit/power boundaries of widths to %d; three bases; all data types; every sequence of up to %d reads with skip/close" % (8 if H.THOROUGH else 6, 300 if H.THOROUGH else 196, 4 if H.THOROUGH else 3))
