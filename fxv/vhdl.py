"""Binding to the real VHDL library: builds it with GHDL (in a scratch directory) together with the command driver
and compares every result with the exact oracle."""
import os, re, shutil, subprocess, tempfile
from fractions import Fraction
from . import ref, harness as H

os.environ.setdefault("GHDL_BACKEND", "gcc")
OPT = ["--std=08", "-frelaxed"]
HDL = os.path.join(H.REPO, "hdl")
ASSERT = re.compile(r"^(.*):(\d+):(\d+):@\S+:\((?:assertion|report) (note|warning|error|failure)\): ?(.*)$")

# op code, binary operands?
OPS = {"round": 0, "saturate": 1, "resize": 2, "in_range": 3, "abs": 4, "neg": 5, "add": 6, "sub": 7, "addsub1": 8, "addsub0": 9,
       "mult": 10, "shift": 11, "compare": 12, "compare1": 14, "sign": 13, "to_real": 16, "to_integer": 17, "str": 18, "rt_real": 19, "rt_int": 20,
       "d_round": 30, "d_saturate": 31, "d_resize": 32, "d_in_range": 33, "d_abs": 34, "d_neg": 35, "d_add": 36, "d_sub": 37,
       "d_addsub1": 38, "d_addsub0": 39, "d_mult": 40, "d_shift": 41, "round_nocheck": 42,
       "m_abs": 44, "m_neg": 45, "m_add": 46, "m_sub": 47, "m_mult": 50, "m_addsub1": 48, "m_addsub0": 49}
BINARY = {6, 7, 8, 9, 10, 12, 14, 36, 37, 38, 39, 40, 46, 47, 48, 49, 50}
NOFMT = (0, 0, -1)


class BuildError(Exception):
    pass


def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s -> %d\n%s" % (" ".join(cmd), p.returncode, p.stdout[-3000:]))
    return p.stdout


UNIT = re.compile(r"^\s*(?:package|entity|context)\s+(\w+)\s+is\b", re.I | re.M)
USE = re.compile(r"\b(?:work|en_tb)\s*\.\s*(\w+)", re.I)


def ordered(directory):
    """All VHDL files of a source directory (as the run scripts take them), sorted by dependency."""
    files = sorted(os.path.join(directory, f) for f in os.listdir(directory) if f.endswith(".vhd"))
    text = {f: re.sub(r"--.*", "", open(f, encoding="latin-1").read()) for f in files}
    owner = {u.lower(): f for f in files for u in UNIT.findall(text[f])}
    out = []

    def visit(f, path):
        if f in out or f in path:
            return
        for u in sorted(set(x.lower() for x in USE.findall(text[f]))):
            if u in owner and owner[u] != f:
                visit(owner[u], path + [f])
        out.append(f)
    for f in files:
        visit(f, [])
    return out


def build(top="fxv_driver", sources=None, opt="-O1", std="08"):
    """Analyse the real library and the given sources in a fresh temp dir; return (dir, executable)."""
    OPT = ["--std=08", "-frelaxed"] if std == "08" else ["--std=" + std]
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        files = ordered(HDL) + [os.path.join(H.VERIF, "vhdl", "fxv_txt_%s.vhd" % std)]
        files += sources if sources is not None else [os.path.join(H.VERIF, "vhdl", "fxv_driver.vhd")]
        o = [opt] if opt else []
        sh(["ghdl", "-a"] + o + OPT + files, d)
        sh(["ghdl", "-e"] + o + OPT + [top], d)
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    return d, os.path.join(d, top)


def exact_double(v):
    v = abs(int(v))
    return v == 0 or (v >> ((v & -v).bit_length() - 1)).bit_length() <= 53


def bits(v, w):
    return format(int(v) & ((1 << w) - 1), "0%db" % w) if w else ""


def number(t):
    """A real number as the driver prints it: decimal, or sign:hi:lo:exponent."""
    if t[1:2] != ":":
        return Fraction(float(t))
    s, hi, lo, e = t.split(":")
    return (-1 if s == "-" else 1) * (int(hi) * (1 << 26) + int(lo)) * Fraction(2) ** int(e)


def unbits(s, f):
    u = int(s, 2)
    return u - (1 << len(s)) if f[0] and s[0] == "1" else u


def pattern_values(f):
    """Values in bit-pattern (unsigned) order."""
    w = ref.width(f)
    return [u - (1 << w) if f[0] and u >> (w - 1) else u for u in range(1 << w)]


class Case:
    """One driver command with its expectation.
    kind 'fix': exp = ints in format r; 'text': exp = strings.  warn = bool list or None (not judged), or 'none'."""
    __slots__ = ("line", "kind", "r", "exp", "warn", "name", "info", "n", "okey")

    def __init__(self, line, kind, r, exp, warn, name, info, okey="value"):
        self.line, self.kind, self.r, self.exp, self.warn, self.name, self.info, self.okey = line, kind, r, exp, warn, name, info, okey
        self.n = len(exp)


def line(op, a=(0, 0, 0), b=(0, 0, 0), r=NOFMT, rnd="Trunc_s", sat="None_s", x=0, dir=0, sep=0, n=0, groups=()):
    op = OPS.get(op, op)
    head = [op] + list(a) + list(b) + list(r) + [ref.RND.index(rnd), ref.SAT.index(sat), x, dir, sep, n]
    return "\n".join([" ".join([str(int(v)) for v in head])] + list(groups))


def apply_case(op, a, va, exp, r=NOFMT, b=None, vb=None, rnd="Trunc_s", sat="None_s", x=0, dir=0, warn=None, kind="fix", allv=False):
    """Command applying op to operand ints va (and vb) with expected results exp.
    allv: all values/pairs in bit-pattern order (operands generated on the VHDL side)."""
    sep = 1 if (warn is not None and not isinstance(warn, str)) or sat in ("Warn_s", "SatWarn_s") or op[0] in "dm" else 0
    binary = OPS[op] in BINARY
    if allv:
        n, g = -1, ()
    else:
        n = len(va)
        wa = ref.width(a)
        if binary:
            wb = ref.width(b)
            g = [bits(p, wa) + " " + bits(q, wb) for p, q in zip(va, vb)]
        else:
            g = [bits(p, wa) for p in va]
    info = dict(op=op, a=a, b=b, r=r, rnd=rnd, sat=sat, x=x, dir=dir)
    return Case(line(op, a, b or (0, 0, 0), r, rnd, sat, x, dir, sep, n, g), kind, r, exp, warn, op, info)


class Parsed:
    def __init__(self):
        self.cmds = []     # per command: (tokens, warns per token, stray)
        self.rest = None   # what was printed for the unfinished command
        self.ended = False


def run_driver(exe, lines, timeout=3600 if H.THOROUGH else 300):
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        with open(os.path.join(d, "cmd.txt"), "w") as f:
            f.write("\n".join(lines))
            f.write("\n")
        p = subprocess.run([exe, "-gcmd_g=cmd.txt", "--ieee-asserts=disable"], cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = Parsed()
    toks, warns, pend = [], [], 0
    notes = []
    for ln in p.stdout.split("\n"):
        m = ASSERT.match(ln) if ":@" in ln else None
        if m:
            # a value may precede the message when several results share a line
            notes.append((m.group(4), m.group(5)))
            pend += 1
            continue
        if ln == "END":
            out.ended = True
            break
        fin = ln.endswith("$")
        if fin:
            ln = ln[:-1]
        for t in ln.split():
            toks.append(t)
            warns.append(pend)
            pend = 0
        if fin:
            out.cmds.append((toks, warns, notes))
            toks, warns, notes, pend = [], [], [], 0
    if not out.ended:
        out.rest = (toks, notes, p.returncode, p.stdout[-600:])
    return out


def judge(R, exe, cases, chunk=4000):
    """Run all cases on the real VHDL and compare."""
    for i in range(0, len(cases), chunk):
        part = cases[i:i + chunk]
        while part:
            out = run_driver(exe, [c.line for c in part])
            for c, (toks, warns, notes) in zip(part, out.cmds):
                _judge(R, c, toks, warns, notes)
            if out.ended:
                break
            k = len(out.cmds)
            if k < len(part):
                c = part[k]
                R.bad("abort", "VHDL %s %s aborted the simulation: %s" % (c.name, c.info, (out.rest[1] or [out.rest[3]])[-1:]),
                      dict(c.info, command=c.line[:400], output=out.rest[3]))
            part = part[k + 1:]
            if len(R.viol) > 20:
                return


def _judge(R, c, toks, warns, notes):
    R.traces += 1
    R.transitions += c.n
    if len(toks) != c.n:
        R.bad("count", "VHDL %s %s: %d results, expected %d" % (c.name, c.info, len(toks), c.n), dict(c.info, command=c.line[:400]))
        return
    if c.kind == "fix":
        w = ref.width(c.r)
        if c.info.get("dir") == 3:       # weak drive strengths may be passed through
            toks = [t.replace("H", "1").replace("L", "0") for t in toks]
        for j, (t, e) in enumerate(zip(toks, c.exp)):
            if len(t) != w or t != bits(e, w):
                R.bad(c.okey, "VHDL %s %s result %d: got %s expected %s (%s)" % (c.name, c.info, j, t, bits(e, w), int(e)),
                      dict(c.info, index=j, got=t, expected=bits(e, w), command=c.line[:600]))
                return
    elif c.kind == "real":         # exp: ints in format r; exact if a double can hold the value, else within one ulp
        lsb = Fraction(2) ** (-c.r[2])
        for j, (t, e) in enumerate(zip(toks, c.exp)):
            x = Fraction(int(e)) * lsb
            try:
                got = number(t)
                ok = got == x if exact_double(int(e)) else abs(got - x) <= abs(x) * Fraction(1, 2 ** 52)
            except (ValueError, OverflowError):
                ok = False
            if not ok:
                R.bad(c.okey, "VHDL %s %s result %d: got %s expected %s" % (c.name, c.info, j, t, float(x)),
                      dict(c.info, index=j, got=t, value=int(e), command=c.line[:600]))
                return
    else:
        for j, (t, e) in enumerate(zip(toks, c.exp)):
            if t != e:
                R.bad(c.okey, "VHDL %s %s result %d: got %s expected %s" % (c.name, c.info, j, t, e),
                      dict(c.info, index=j, got=t, expected=e, command=c.line[:600]))
                return
    if c.warn is None:
        return
    sevs = [s for s, _ in notes if s in ("error", "failure")]
    if isinstance(c.warn, str):
        if notes:
            R.bad("warn", "VHDL %s %s reported %s" % (c.name, c.info, notes[0]), dict(c.info, command=c.line[:400]))
        return
    for j, (n, e) in enumerate(zip(warns, c.warn)):
        if (n > 0) != bool(e):
            R.bad("warn", "VHDL %s %s value %d (%s): %d warnings, expected %s" % (c.name, c.info, j, c.exp[j], n, "one" if e else "none"),
                  dict(c.info, index=j, warnings=n, command=c.line[:600]))
            return
    if sevs:
        R.bad("warn", "VHDL %s %s reported severity %s" % (c.name, c.info, sevs[0]), dict(c.info))


def main(pid, modname, units, assumptions, bounds, opt="-O1", std="08"):
    import time
    t0 = time.time()
    R = H.Result()
    d = None
    try:
        d, exe = build(opt=opt, std=std)
        n = 8 * (4 if H.THOROUGH else 2)
        H.pool_map(modname, "work", [(exe, c) for c in H.chunks(units, n)], res=R)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(pid, R, t0, assumptions=assumptions, bounds=bounds)
