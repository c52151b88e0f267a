"""H08: pipelined components: documented latency, data/meta/valid stay aligned, reset empties the pipeline -- for every
input history.  Explicit-state model (the pipeline) walked in lock step with the real component; the input sequence is a
de Bruijn walk, so every window of control symbols and payload symbols of the stated length occurs."""
import os, shutil, subprocess, tempfile, time
from fxv import ref, vhdl as V, harness as H

PID = "H08"


def debruijn(k, n):
    """Cyclic de Bruijn sequence over range(k), order n (Lyndon words)."""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def stages(kind, a, r, rnd, sat, reg):
    """List of (function, registered?)."""
    def rr(x, q):
        need = not (rnd == "Trunc_s" or q[2] >= x[2])
        return {"Auto": need, "Yes": True, "No": False}[reg]

    def ss(x, q):
        need = not (sat in ("None_s", "Warn_s") or (q[1] >= x[1] and q[0] == x[0]))
        return {"Auto": need, "Yes": True, "No": False}[reg]
    rd = lambda x, f, q: ref.wrap(ref.round_int(x, f[2], q[2], rnd), q)
    if kind == 0:
        return [(lambda x: rd(x, a, r), rr(a, r))]
    if kind == 1:
        return [(lambda x: ref.saturate_int(x, r, sat), ss(a, r))]
    m = ref.round_fmt(a, r[2], rnd)
    return [(lambda x: rd(x, a, m), rr(a, m)), (lambda x: ref.saturate_int(x, r, sat), ss(m, r))]


def sequence(w, mw, values, kind):
    """Input symbols (rst, valid, meta, data pattern)."""
    n = 1 << w
    mask = (1 << mw) - 1
    seq = [(1, 0, 0, 0)] * 4
    # (1) every window of 5 control symbols, payloads running through all patterns
    for i, c in enumerate(debruijn(4, 5 if not H.THOROUGH else 6)):
        c = (c + 1) % 4           # start with traffic
        seq.append((c >> 1, c & 1, (i * 5 + i // 7) & mask, (i * 7 + 3) % n))
    # (2) every window of 3 (control x payload) symbols
    for i, s in enumerate(debruijn(3 * len(values), 3 if len(values) <= 3 else 2)):
        c, p = s % 3, s // 3
        seq.append((1 if c == 2 else 0, 1 if c else 0, (p + 1) & mask, values[p] % n))
    # (3) every ordered pair of adjacent data values (up to 5 bits), all valid
    if w <= 5:
        for d in debruijn(n, 2):
            seq.append((0, 1, d & mask, d))
    # (4) every meta value
    for m in range(mask + 1):
        seq.append((0, 1, m, (m * 3 + 1) % n))
    return seq


def units():
    us = []
    F1 = [((1, 2, 2), 0), ((0, 2, 3), 1), ((1, -1, 5), 2), ((1, 3, 0), 0), ((1, 4, -1), -2), ((0, 0, 4), 4)]
    for reg in ("Auto", "Yes", "No"):
        for m in ref.RND:
            for a, rF in F1 if H.THOROUGH else F1[:4]:
                r = ref.round_fmt(a, rF, m)
                us.append((0, a, r, m, "None_s", reg, 3, 1))
                r2 = (r[0], r[1] - 1, r[2])
                if r2[1] + r2[2] >= 0 and ref.width(r2) >= 1 and rF == 0:
                    us.append((0, a, r2, m, "None_s", reg, 1, 0))
        for s in ref.SAT:
            for a, r in (((1, 2, 2), (1, 1, 2)), ((1, 2, 2), (0, 2, 2)), ((0, 3, 1), (1, 3, 1)), ((0, 2, 2), (0, 3, 2)), ((0, 2, 3), (0, 1, 3)), ((1, 2, 1), (1, 2, 1)), ((1, 0, 3), (1, 3, 3)), ((1, 3, 1), (0, 4, 1))):
                us.append((1, a, r, "Trunc_s", s, reg, 2, 1))
        for m in ref.RND:
            for s in ref.SAT:
                rs = [((1, 2, 2), (1, 1, 0)), ((0, 2, 3), (0, 2, 1))]
                if H.THOROUGH or s in ("None_s", "Sat_s"):
                    rs += [((1, 2, 1), (0, 3, 2))]
                if H.THOROUGH:
                    rs += [((1, 2, 2), (1, 3, 1)), ((1, 1, 3), (1, 1, 3)), ((0, 3, 1), (1, 2, -1))]
                for a, r in rs:
                    us.append((2, a, r, m, s, reg, 3 if m != "SymZero_s" else 0, 1))
    # boundary widths
    for reg in ("Auto", "Yes", "No"):
        for w in (31, 32, 33, 54, 65):
            a = (1, 4, w - 5)
            us.append((2, a, (1, 2, w - 20), "ConvEven_s", "Sat_s", reg, 8, 1))
            us.append((0, a, ref.round_fmt(a, w - 20, "SymInf_s"), "SymInf_s", "None_s", reg, 5, 1))
            us.append((1, a, (0, 3, w - 5), "Trunc_s", "SatWarn_s", reg, 5, 1))
    return us


def work(arg):
    exe, us = arg
    R = H.Result()
    for u in us:
        one(R, exe, u)
        if len(R.viol) > 10:
            break
    return R


def describe(u):
    kind, a, r, m, s, reg, mw, chk = u
    return dict(component=("round", "saturate", "resize")[kind], in_fmt=a, out_fmt=r, rnd=m, sat=s, reg_mode=reg, meta_width=mw, fmt_check=bool(chk))


def stimuli(u):
    kind, a, r, m, s, reg, mw, chk = u
    w = ref.width(a)
    corner = [x & ((1 << w) - 1) for x in (ref.vmin(a), ref.vmax(a), ref.vmax(a) // 3 + 1)]
    if w <= 5:
        return sequence(w, mw, corner, kind)
    return sequence(w, mw, [x & ((1 << w) - 1) for x in ref.corner_values(a, cuts=(a[2] - r[2],), targets=(r,))][::5], kind)


def one(R, exe, u):
    kind, a, r, m, s, reg, mw, chk = u
    w = ref.width(a)
    info = describe(u)
    seq = stimuli(u)
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        with open(os.path.join(d, "cmd.txt"), "w") as f:
            for (rst, v, mt, dt) in seq:
                f.write("%d %d %s %s\n" % (rst, v, V.bits(mt, mw), V.bits(dt, w)))
        g = dict(cmd_g="cmd.txt", kind_g=kind, aS=a[0], aI=a[1], aF=a[2], rS=r[0], rI=r[1], rF=r[2], rnd_g=ref.RND.index(m), sat_g=ref.SAT.index(s),
                 reg_g=("Auto", "Yes", "No").index(reg), meta_g=mw, check_g=chk)
        p = subprocess.run([exe, "--ieee-asserts=disable"] + ["-g%s=%s" % kv for kv in g.items()], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3600 if H.THOROUGH else 300)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines, buf = [], []
    for ln in p.stdout.split("\n"):
        if V.ASSERT.match(ln):
            continue
        if ln == "END":
            break
        fin = ln.endswith("$")
        buf += (ln[:-1] if fin else ln).split()
        if fin:
            lines.append(buf)
            buf = []
    R.traces += 1
    if len(lines) != len(seq) or p.returncode != 0:
        R.bad("abort", "component %s: simulation ended early (rc %d): %s" % (info, p.returncode, p.stdout[-300:]), info)
        return
    judge(R, u, seq, lines)


def judge(R, u, seq, lines, info=None):
    """The model of the pipeline in lock step with what the component put out (three samples per cycle)."""
    kind, a, r, m, s, reg, mw, chk = u
    w, wr = ref.width(a), ref.width(r)
    info = info or describe(u)
    st = stages(kind, a, r, m, s, reg)
    # model: list of register contents (valid, meta, value) per registered stage
    regs = [(None, 0, 0) for f, g_ in st if g_]
    seen = set()

    def outputs(inp):
        cur, k = inp, 0
        for f, g_ in st:
            nxt = (cur[0], cur[1], f(cur[2]) if cur[2] is not None else None)
            if g_:
                cur = regs[k]
                k += 1
            else:
                cur = nxt
        return cur

    def step(inp, rst):
        cur, k, new = inp, 0, []
        for f, g_ in st:
            nxt = (cur[0], cur[1], f(cur[2]) if cur[2] is not None else None)
            if g_:
                new.append((None if cur[0] is None and not rst else (0 if rst else cur[0]), cur[1], nxt[2]))
                cur = regs[k]
                k += 1
            else:
                cur = nxt
        return new

    for i, ((rst, v, mt, dt), out) in enumerate(zip(seq, lines)):
        x = dt - (1 << w) if a[0] and dt >> (w - 1) else dt
        inp = (v, mt, x)
        e1 = outputs(inp)
        regs = step(inp, rst)
        e3 = outputs(inp)
        key = (rst, v, tuple(q[0] for q in regs), regs[-1][2] if regs else x)
        seen.add(key)
        R.transitions += 1
        for j, (e, o) in enumerate(zip((e1, e1, e3), out)):
            if e[0] is None:
                continue          # before the first reset
            ov, om, od = o.split(".")
            bad = ov != str(e[0]) or (e[0] == 1 and (od != V.bits(e[2], wr) or om != V.bits(e[1], mw)))
            if bad:
                R.bad("pipe", "component %s cycle %d sample %d: got valid.meta.data=%s expected %s.%s.%s" % (info, i, j, o, e[0], V.bits(e[1], mw), V.bits(e[2], wr)),
                      dict(info, cycle=i, history=seq[max(0, i - 6):i + 1]))
                return
    R.states += len(seen)
    if not R.samples:
        R.samples.append(dict(info, latency=sum(1 for f, g_ in st if g_), cycles=len(seq)))


def main():
    t0 = time.time()
    R = H.Result()
    d = None
    try:
        src = [os.path.join(H.VERIF, "vhdl", "fxv_comp.vhd")]
        d, exe = V.build("fxv_comp", src)
        H.pool_map("checks.H08", "work", [(exe, c) for c in H.chunks(units(), 32)], res=R)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, True, ["metadata and data are judged only while the output is valid", "valid and reset are driven with '0'/'1'", "GHDL 4.1 executes the VHDL faithfully"],
                    "every window of %d (reset, valid) symbols, every window of 3 payload x control symbols, every pair of adjacent data values; 3 components x 3 register modes x all modes" % (6 if H.THOROUGH else 5))
