"""F03: VHDL array helpers: flattening and unflattening are inverse and keep element order for every array type; the array
checks fail exactly for unequal arrays."""
import itertools, os, shutil, tempfile, time
from fxv import fio, vhdl as V, harness as H

PID = "F03"
ARR = [t for t in fio.TYPES if fio.TYPES[t][3] and t not in ("int", "fix")]
VEC = [t for t in ARR if t in ("bv", "ubit", "sbit")]      # plain vector checks defined by the package


def contents():
    out = []
    for n in range(0, 5):
        for w in range(1, 4):
            if n * w <= (10 if H.THOROUGH else 8):
                out += [(n, w, c) for c in itertools.product(range(1 << w), repeat=n)]
    for n, w in ((1, 40), (5, 13), (17, 7), (33, 1), (3, 65)):
        for k in range(n * w):        # a walking one reaches every bit of every element
            x = 1 << k
            out.append((n, w, tuple((x >> (i * w)) & ((1 << w) - 1) for i in range(n))))
    return out


def pairs():
    """(n, m, w, w2, a, b): equal, differing in exactly one bit (every position), in length, in element width."""
    out = []
    for w in (1, 3):
        for n in (0, 1, 3):
            a = [(5 * i + 3) & ((1 << w) - 1) for i in range(n)]
            out.append((n, n, w, w, a, a))
            for i in range(n):
                for k in range(w):
                    b = list(a)
                    b[i] ^= 1 << k
                    out.append((n, n, w, w, a, b))
            out.append((n, n + 1, w, w, a, a + [0]))
            if n:
                out.append((n, n - 1, w, w, a, a[:-1]))
    # elements that denote the same number (zero or sign extended) or agree in their first or last bits, but differ in width
    for w in (1, 3, 5) if H.THOROUGH else (1, 3):
        for w2 in (w + 1, w + 3, w - 1) if H.THOROUGH else (w + 1, w - 1):
            for v in range(1 << w):
                for x in {v & ((1 << w2) - 1), (v - (1 << w) if v >> (w - 1) else v) & ((1 << w2) - 1), v >> 1 if w2 < w else v << (w2 - w)} if w2 > 0 else ():
                    out.append((1, 1, w, w2, [v], [x]))
    return out


def work(arg):
    exe, us = arg
    R = H.Result()
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        for kind, t in us:
            if kind == "flat":
                cs = contents()
                cmds, exps = [], []
                for n, w, c in cs:
                    flat = "".join(V.bits(x, w) for x in reversed(c))
                    cmds.append([fio.head("flatten", t, nbits=w, n=n)] + [V.bits(x, w) for x in c])
                    exps.append([str(n * w), flat, flat])
                    cmds.append([fio.head("unflatten", t, nbits=w, n=n), flat])
                    exps.append([" ".join([V.bits(x, w)] * 3) for x in c])
                out, tail = fio.run(exe, cmds, d)
                for i, e in enumerate(exps):
                    R.transitions += 1
                    if i >= len(out):
                        R.bad("abort", "%s %s: simulation stopped: %s" % (t, cmds[i], tail[-300:]), {"type": t, "commands": cmds[i]})
                        break
                    if out[i] != e:
                        R.bad("flat", "%s %s: got %s, expected %s" % (t, cmds[i], out[i], e), {"type": t, "commands": cmds[i]})
                        break
                R.states += len(cs)
                R.traces += len(out)
            else:
                for n, m, w, w2, a, b in pairs():
                    if kind.startswith("v") and (n != 1 or m != 1):
                        continue
                    if w != w2 and t in ("sstd", "ustd"):
                        continue              # VUnit compares these as numbers
                    cmd = [fio.head(kind, t, nbits=w, n=n, x=m, y=w2)] + [V.bits(x, w) for x in a] + [V.bits(x, w2) for x in b]
                    out, tail = fio.run(exe, [cmd], d)
                    R.traces += 1
                    R.transitions += 1
                    R.states += 1
                    ok = out == [["pass"]]
                    failed = not out and ("FXVFAIL id=%d" % (7 if kind.endswith("_c") else 0) in tail or "bound" in tail)
                    if ok != (list(a) == list(b) and w == w2) or not (ok or failed):
                        R.bad("check", "%s %s: arrays %s and %s %s" % (kind, t, a, b, "pass" if ok else "fail"), {"type": t, "commands": cmd, "tail": tail[-300:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return R


def main():
    t0 = time.time()
    R = H.Result()
    d = None
    try:
        d, exe = fio.build()
        us = [("flat", t) for t in ARR] + [(k, t) for t in ARR for k in ("check", "check_c")] + [(k, t) for t in VEC for k in ("vcheck", "vcheck_c")]
        H.pool_map("checks.F03", "work", [(exe, [u]) for u in us], res=R)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    R.samples.append({"types": ARR, "arrays": len(contents()), "pairs": len(pairs())})
    return H.finish(PID, R, t0, True, ["GHDL 4.1 executes the VHDL faithfully", "arrays are indexed from 0", "VUnit is replaced by a stand-in whose failed checks stop the simulation"],
                    "all contents of arrays with up to %d bits in total, every single bit of larger arrays; every single-bit and length difference" % (10 if H.THOROUGH else 8))
