"""C01: the co-simulation data sets are complete and exact, whatever the data directory held before."""
import os, sys, re, time, json, shutil, hashlib, itertools, subprocess, tempfile
from fractions import Fraction
import numpy as np
from fxv import ref, reals, harness as H

PID = "C01"
OPS = ("abs", "add", "addsub", "compare", "from_real", "mult", "neg", "resize", "round", "saturate", "shift", "sub")
CMP = {"eq": "==", "neq": "!=", "less": "<", "greater": ">", "leq": "<=", "geq": ">="}

# Runs a script (or imports it and calls run()) with every file-system change confined to the scratch tree: the audit hook
# refuses deletions and writes elsewhere, so a faulty script cannot reach anything real.
GUARD = r'''
import sys, os, json
ROOT = os.path.realpath(sys.argv[1])
def inside(p):
    if isinstance(p, bytes): p = os.fsdecode(p)
    if not isinstance(p, str): return True
    p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
    return p.startswith(ROOT + os.sep) or p == "/dev/null"
def hook(ev, a):
    if ev in ("shutil.rmtree", "os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod"):
        if (len(a) < 2 or ev == "os.truncate" or a[-1] in (-1, None)) and not inside(a[0]):
            raise PermissionError("FXV: %s outside the scratch tree: %r" % (ev, a[0]))
    elif ev in ("os.rename", "os.link", "os.symlink", "shutil.move"):
        if not (inside(a[0]) and inside(a[1])):
            raise PermissionError("FXV: %s outside the scratch tree" % ev)
    elif ev == "open":
        fl = a[2] if isinstance(a[2], int) else 0
        if fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and isinstance(a[0], (str, bytes)) and not inside(a[0]):
            raise PermissionError("FXV: write outside the scratch tree: %r" % (a[0],))
    elif ev in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn"):
        raise PermissionError("FXV: %s" % ev)
'''
SCRIPT = GUARD + r'''
import runpy, importlib.util
how, path = sys.argv[2], sys.argv[3]
import numpy, random, shutil
sys.addaudithook(hook)
if how == "script":
    sys.argv = [path]
    sys.path.insert(0, os.path.dirname(path))
    runpy.run_path(path, run_name="__main__")
else:
    sys.path.insert(0, os.path.dirname(path))
    import cosim
    cosim.run()
print("FXV-END")
'''


def tree(root, skip=()):
    """Content of every file below root."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != "__pycache__" and os.path.relpath(os.path.join(d, x), root) not in skip)
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = ""
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), root)] = hashlib.sha1(h.read()).hexdigest()
    return out


def make_scratch():
    s = tempfile.mkdtemp(prefix="fxv_c01_")
    os.makedirs(s + "/w/r/lib")
    ig = shutil.ignore_patterns("data", "__pycache__", "*.m", "tests")
    shutil.copytree(os.path.join(H.REPO, "bittrue"), s + "/w/r/bittrue", ignore=ig)
    shutil.copytree(os.path.join(H.REPO, "lib/en_tb/bittrue"), s + "/w/r/lib/en_tb/bittrue", ignore=ig)
    with open(s + "/w/run.py", "w") as f:
        f.write(SCRIPT)
    return s


def execute(s, how, script, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", TMPDIR=s)
    p = subprocess.run([sys.executable, s + "/w/run.py", s, how, script], cwd=cwd, env=env, capture_output=True, text=True, timeout=600)
    return p.returncode == 0 and "FXV-END" in p.stdout, (p.stdout + p.stderr)[-700:], p.stdout


# ------------------------------------------------------------------ what the files must contain
def lines(p):
    with open(p) as f:
        return f.read().splitlines()


def fmts(p):
    L = lines(p)
    if not L or not L[0].startswith("#"):
        raise ValueError("no header")
    out = []
    for x in L[1:]:
        m = re.fullmatch(r"\((\d+), ?(-?\d+), ?(-?\d+)\)", x.strip())
        if not m:
            raise ValueError("format line %r" % x)
        out.append(tuple(int(i) for i in m.groups()))
    return out


def ints(p):
    L = lines(p)
    if not L or not L[0].startswith("#"):
        raise ValueError("no header")
    return [int(x) for x in L[1:]]


def box(fs):
    """All usable formats in the bounding box of the given ones."""
    return {f for f in itertools.product(*[sorted({f[i] for f in fs}) for i in range(3)]) if sum(f) >= 1 and f[1] + f[2] >= 0} | set(fs)


def expected(op, p, cache):
    """The raw results of one test point, in the order the test bench applies the operand values."""
    a = p["a_fmt"]
    va = cache.setdefault(a, np.array(ref.all_values(a), dtype=np.int64))
    if op == "compare":
        b = p["b_fmt"]
        vb = cache.setdefault(b, np.array(ref.all_values(b), dtype=np.int64))
        F = max(a[2], b[2])
        x = np.tile(va, len(vb)) * 2 ** (F - a[2])
        y = np.repeat(vb, len(va)) * 2 ** (F - b[2])
        return {k: v.astype(np.int64) for k, v in {"eq": x == y, "neq": x != y, "less": x < y, "greater": x > y, "leq": x <= y, "geq": x >= y}.items()}
    r = p["r_fmt"]
    rnd, sat = ref.RND[p.get("rnd", 0)], ref.SAT[p.get("sat", 0)]
    if op == "round":
        return ref.round_int(va, a[2], r[2], rnd)
    if op == "saturate":
        return ref.saturate_int(va, r, sat)
    if op == "resize":
        return ref.saturate_int(ref.round_int(va, a[2], r[2], rnd), r, sat)
    if op == "from_real":
        lsb = Fraction(2) ** (-a[2])
        return np.array([max(ref.vmin(r), min(ref.vmax(r), reals.half_up(float(int(v) * lsb), r[2]))) for v in va])
    if op in ("abs", "neg"):
        ex, F = (abs(va) if op == "abs" else -va), a[2]
    elif op == "shift":
        ex, F = va, a[2] - p["shift"]
    else:
        b = p["b_fmt"]
        vb = cache.setdefault(b, np.array(ref.all_values(b), dtype=np.int64))
        x, y = np.tile(va, len(vb)), np.repeat(vb, len(va))
        if op == "mult":
            ex, F = x * y, a[2] + b[2]
        else:
            F = max(a[2], b[2])
            x, y = x * 2 ** (F - a[2]), y * 2 ** (F - b[2])
            ex = {"add": lambda: x + y, "sub": lambda: x - y, "addsub": lambda: np.concatenate((x - y, x + y))}[op]()
    return ref.saturate_int(ref.round_int(ex, F, r[2], rnd), r, sat)


def judge(R, op, d):
    """The whole data directory of one script against the reference."""
    lists = {"abs": ("a_fmt", "r_fmt", "rnd", "sat"), "compare": ("a_fmt", "b_fmt"), "from_real": ("a_fmt", "r_fmt", "sat"), "round": ("a_fmt", "r_fmt", "rnd"),
             "saturate": ("a_fmt", "r_fmt", "sat"), "shift": ("a_fmt", "shift", "r_fmt", "rnd", "sat"), "resize": ("a_fmt", "r_fmt", "rnd", "sat"),
             "neg": ("a_fmt", "r_fmt", "rnd", "sat")}.get(op, ("a_fmt", "b_fmt", "r_fmt", "rnd", "sat"))
    got = {}
    for k in lists:
        got[k] = (fmts if k.endswith("fmt") else ints)(os.path.join(d, k + ".txt"))
    n = len(got["a_fmt"])
    if not n or any(len(v) != n for v in got.values()):
        R.bad("lists", "%s: lists of different length %s" % (op, {k: len(v) for k, v in got.items()}), {"op": op})
        return
    suffix = list(CMP) if op == "compare" else ["output"]
    want = {k + ".txt" for k in lists} | {"test%d_%s.txt" % (i, s) for i in range(n) for s in suffix}
    have = set(os.listdir(d))
    if have != want:
        R.bad("files", "%s: %d test points, missing files %s, unexpected files %s" % (op, n, sorted(want - have)[:4], sorted(have - want)[:4]), {"op": op})
        return
    pts = [tuple(got[k][i] for k in lists) for i in range(n)]
    if len(set(pts)) != n:
        dup = next(p for i, p in enumerate(pts) if p in pts[:i])
        R.bad("points", "%s: test point %s appears twice" % (op, dict(zip(lists, dup))), {"op": op})
    # every combination of the listed formats and modes
    A = box(got["a_fmt"])
    if op == "round":
        full = {(a, ref.round_fmt(a, rF, ref.RND[m]), m) for a in A for rF in {r[2] for r in got["r_fmt"]} for m in range(7)}
    elif op == "saturate":
        full = {(a, (S, I, a[2]), s) for a in A for S in {r[0] for r in got["r_fmt"]} for I in {r[1] for r in got["r_fmt"]} for s in range(4) if S + I + a[2] >= 1 and I + a[2] >= 0}
        full |= {p for p in pts if p[1][2] == p[0][2]}
    else:
        dims = [box(got[k]) if k.endswith("fmt") else (set(range(7 if k == "rnd" else 4)) if op == "resize" else set(got[k])) for k in lists]
        full = set(itertools.product(*dims))
    if set(pts) != full:
        R.bad("points", "%s: the test points are not every combination; missing %s, extra %s" % (op, [dict(zip(lists, p)) for p in sorted(full - set(pts))[:2]],
                                                                                             [dict(zip(lists, p)) for p in sorted(set(pts) - full)[:2]]), {"op": op})
    cache = {}
    for i in range(n):
        p = {k: got[k][i] for k in lists}
        e = expected(op, p, cache)
        R.states += 1
        for s in suffix:
            x = e[s] if op == "compare" else e
            try:
                o = ints(os.path.join(d, "test%d_%s.txt" % (i, s)))
            except ValueError as ex:
                R.bad("file", "%s test %d %s: %s" % (op, i, s, ex), dict(p, op=op, test=i))
                continue
            R.transitions += len(o)
            if len(o) != len(x) or o != x.tolist():
                j = next((j for j in range(min(len(o), len(x))) if o[j] != x[j]), min(len(o), len(x)))
                R.bad("data", "%s test %d (%s) %s: line %d holds %s, expected %s (%d lines, expected %d)" % (
                    op, i, p, s, j, o[j] if j < len(o) else "nothing", x[j] if j < len(x) else "nothing", len(o), len(x)), dict(p, op=op, test=i, line=j))
                if len(R.viol) > 5:
                    return
    R.samples.append({"op": op, "points": n, "first": dict(zip(lists, pts[0])), "last": dict(zip(lists, pts[-1]))})


def judge_fileio(R, d):
    cfg = sorted(x for x in os.listdir(d) if x.endswith("_config.txt"))
    n = len(cfg)
    kinds = ["ascii_%s_data_%s" % (b, s) for b in ("bin", "dec", "hex") for s in ("signed", "unsigned")]
    want = {"test%d_%s.txt" % (i, k) for i in range(n) for k in kinds + ["config"]}
    have = set(os.listdir(d))
    if have != want or not n:
        R.bad("files", "en_tb_fileio: missing files %s, unexpected files %s" % (sorted(want - have)[:4], sorted(have - want)[:4]), {"op": "fileio"})
        return
    for i in range(n):
        w, c = ints(os.path.join(d, "test%d_config.txt" % i))
        for s in ("signed", "unsigned"):
            v = {}
            for b, base in (("bin", 2), ("dec", 10), ("hex", 16)):
                L = lines(os.path.join(d, "test%d_ascii_%s_data_%s.txt" % (i, b, s)))
                rows = [x.split() for x in L[1:]]
                dig = {"bin": w, "hex": (w + 3) // 4}.get(b)
                if not L[0].startswith("#") or any(len(r) != c for r in rows) or (dig and any(len(t) != dig for r in rows for t in r)):
                    R.bad("file", "en_tb_fileio test %d %s %s: wrong shape" % (i, b, s), {"op": "fileio", "test": i})
                    return
                x = [[int(t, base) for t in r] for r in rows]
                if b != "dec" and s == "signed":
                    x = [[t - (1 << w) if t >> (w - 1) else t for t in r] for r in x]
                v[b] = x
                R.transitions += len(rows) * c
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == "signed" else (0, (1 << w) - 1)
            R.states += 1
            if not (v["bin"] == v["dec"] == v["hex"]):
                R.bad("data", "en_tb_fileio test %d %s: the three bases hold different numbers" % (i, s), {"op": "fileio", "test": i})
            if v["dec"][0] != [lo] * c or v["dec"][1] != [hi] * c or any(not lo <= t <= hi for r in v["dec"] for t in r):
                R.bad("data", "en_tb_fileio test %d %s: extremes missing or values outside %d bits" % (i, s, w), {"op": "fileio", "test": i})


# ------------------------------------------------------------------ units
def work(us):
    R = H.Result()
    for s, op in us:
        fio = op == "fileio"
        base = s + "/w/r/" + ("lib/en_tb/bittrue/cosim/en_tb_fileio" if fio else "bittrue/cosim/cl_fix_" + op)
        d = base + "/data"
        outer = tree(base, skip=("data",))
        snaps = []
        hist = [("missing", "script"), ("stale", "import")]
        if H.THOROUGH:
            hist += [("as left by the previous run", "script"), ("empty", "import"), ("deep", "script")]
        for state, how in hist:
            case = {"script": op, "data directory before": state, "run as": how}
            if state == "stale":
                with open(d + "/test99999_output.txt", "w") as f:
                    f.write("# junk\n1\n")
                first = sorted(os.listdir(d))[0]
                with open(os.path.join(d, first), "a") as f:
                    f.write("77\n")
                os.makedirs(d + "/sub/sub")
                open(d + "/sub/sub/x.txt", "w").close()
            elif state in ("empty", "deep"):
                shutil.rmtree(d)
                os.mkdir(d)
                if state == "deep":
                    os.makedirs(d + "/data/data")
                    open(d + "/data/test0_output.txt", "w").close()
            ok, out, _ = execute(s, how, base + "/cosim.py", s if how == "script" else base)
            R.traces += 1
            if not ok:
                R.bad("run", "%s: %s" % (case, out), case)
                break
            try:
                snaps.append(tree(d))
            except OSError as e:
                R.bad("run", "%s: no data directory afterwards (%s)" % (case, e), case)
                break
            if len(snaps) == 1:
                try:
                    judge_fileio(R, d) if fio else judge(R, op, d)
                except (OSError, ValueError, IndexError) as e:
                    R.bad("file", "%s: %s" % (case, e), case)
            elif snaps[-1] != snaps[0]:
                diff = [k for k in sorted(set(snaps[0]) | set(snaps[-1])) if snaps[0].get(k) != snaps[-1].get(k)]
                R.bad("history", "%s: the data differ from those of the first run in %d files, e.g. %s" % (case, len(diff), diff[:3]), dict(case, files=diff[:10]))
            R.states += 1
        if tree(base, skip=("data",)) != outer:
            R.bad("stray", "%s: files outside the data directory changed" % op, {"script": op})
    return R


UTILS = GUARD + r'''
import io, itertools, contextlib, shutil, numpy as np
sys.path.insert(0, os.path.join(ROOT, "w/r/bittrue/cosim"))
sys.path.insert(0, os.path.join(ROOT, "w/r/bittrue/models/python"))
thorough = sys.argv[2] == "1"
n = {"points": 0, "calls": 0}
bad = []
def fail(k, s):
    if len(bad) < 20: bad.append((k, s))
import cosim_utils as U
from en_cl_fix_pkg import FixFormat
# every value of a format, in counting order
top = 12 if thorough else 9
for S in (0, 1):
    for I in range(-6, 13):
        for F in range(-6, 13):
            w = S + I + F
            if w < 1 or I + F < 0 or w > top and (w, I % 3) not in ((16, 0), (15, 1)): continue
            n["calls"] += 1
            try:
                x = U.get_data(FixFormat(S, I, F))
            except Exception as e:
                fail("get_data", "get_data(%s) raised %r" % ((S, I, F), e)); continue
            lo = -2 ** (I + F) if S else 0
            e = np.ldexp(np.arange(lo, 2 ** (I + F)).astype(float), -F)
            n["points"] += e.size
            if not isinstance(x, np.ndarray) or x.dtype != np.float64 or x.shape != e.shape or (x != e).any():
                fail("get_data", "get_data(%s) is not every value in order" % ((S, I, F),))
# repetition patterns
for dt in (float, bool, int, object):
    for L in range(1, 7):
        for k in range(1, 7):
            src = np.array([(3 * i + 1) % 5 for i in range(L)]).astype(dt)
            keep = src.copy()
            for nm, e in (("repeat_each_value", [v for v in src for _ in range(k)]), ("repeat_whole_array", list(src) * k)):
                n["calls"] += 1; n["points"] += L * k
                try:
                    x = getattr(U, nm)(src, k)
                except Exception as ex:
                    fail(nm, "%s(%s, %d) raised %r" % (nm, src, k, ex)); continue
                if x.dtype != src.dtype or x.shape != (L * k,) or list(x) != e or (src != keep).any():
                    fail(nm, "%s(%s, %d) -> %s" % (nm, src, k, x))
# the progress line: starts with the message, advances, ends with Done, once
for shape in list(itertools.product(range(1, 7), repeat=3)) + [(m,) for m in range(1, 260 if not thorough else 1500)] + [(7, 11), (2, 50), (1000, 1)]:
    N = int(np.prod(shape)); n["calls"] += 1; n["points"] += N
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            p = U.ProgressReporter([list(range(m)) for m in shape], "msg")
            lens = []
            for i in range(N):
                p.report(); lens.append(out.getvalue())
    except Exception as e:
        fail("progress", "ProgressReporter%s raised %r" % (shape, e)); continue
    t = out.getvalue()
    pc = [int(x) for x in __import__("re").findall(r"(\d+)%", t)]
    done = [i for i, x in enumerate(lens) if "Done." in x]
    early = [i for i, x in enumerate(lens) if (lambda q: q and max(q) > 100.0 * (i + 1) / N)([int(v) for v in __import__("re").findall(r"(\d+)%", x)])]
    if not t.startswith("msg: ") or t.count("msg") != 1 or t.count("Done.") != 1 or not t.endswith("Done.\n") or done != [N - 1] or pc != sorted(set(pc)) or any(v > 100 for v in pc) or early:
        fail("progress", "ProgressReporter%s printed %r" % (shape, t))
# an empty directory, whatever was there, and nothing else touched
sys.addaudithook(hook)
base = os.path.join(ROOT, "w/clr")
kinds = ("none", "file", "dotfile", "readonly", "dir", "deep", "link", "dirlink")
def build(p, combo):
    os.makedirs(p)
    for i, k in enumerate(combo):
        q = os.path.join(p, "e%d" % i)
        if k == "file": open(q, "w").write("x")
        elif k == "dotfile": open(os.path.join(p, ".e%d" % i), "w").write("x")
        elif k == "readonly":
            open(q, "w").write("x"); os.chmod(q, 0o400)
        elif k == "dir": os.mkdir(q)
        elif k == "deep":
            os.makedirs(q + "/a/b"); open(q + "/a/b/f", "w").write("x"); open(q + "/a/g", "w").write("x")
        elif k == "link": os.symlink(os.path.join(os.path.dirname(p), "keep.txt"), q)
        elif k == "dirlink": os.symlink(os.path.join(os.path.dirname(p), "keepdir"), q)
idx = 0
for combo in [None] + list(itertools.product(kinds, repeat=2)):
    for name in ("data", "d.a.t", "with space"):
        for rel in (False, True):
            idx += 1
            b = os.path.join(base, str(idx)); os.makedirs(b + "/keepdir")
            open(b + "/keep.txt", "w").write("k"); open(b + "/keepdir/f", "w").write("k")
            p = os.path.join(b, name)
            if combo is not None: build(p, combo)
            n["calls"] += 1; n["points"] += 1
            cwd = os.getcwd()
            try:
                if rel: os.chdir(b)
                U.clear_directory(name if rel else p)
            except Exception as e:
                fail("clear", "clear_directory on %s (%s) raised %r" % (combo, name, e))
            finally:
                os.chdir(cwd)
            if not os.path.isdir(p) or os.path.islink(p) or os.listdir(p):
                fail("clear", "clear_directory on %s (%s) left %s" % (combo, name, os.listdir(p) if os.path.isdir(p) else "no directory"))
            if sorted(os.listdir(b)) != sorted(["keepdir", "keep.txt", name]) or open(b + "/keep.txt").read() != "k" or os.listdir(b + "/keepdir") != ["f"]:
                fail("clear", "clear_directory on %s (%s) touched its surroundings: %s" % (combo, name, sorted(os.listdir(b))))
print("FXV-JSON " + json.dumps({"n": n, "bad": bad}))
'''


def utils(R, s):
    with open(s + "/w/utils.py", "w") as f:
        f.write(UTILS)
    p = subprocess.run([sys.executable, s + "/w/utils.py", s, "1" if H.THOROUGH else "0"], cwd=s, capture_output=True, text=True, timeout=600,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", TMPDIR=s))
    m = re.search(r"^FXV-JSON (.*)$", p.stdout, re.M)
    if not m:
        R.bad("utils", "the helper functions could not be exercised: %s" % p.stderr[-600:], {"stderr": p.stderr[-1500:]})
        return
    j = json.loads(m.group(1))
    R.states += j["n"]["points"]
    R.traces += j["n"]["calls"]
    R.transitions += j["n"]["points"]
    for k, t in j["bad"]:
        R.bad("utils " + k, t, {"helper": k})


def main():
    t0 = time.time()
    s = make_scratch()
    res = H.Result()
    try:
        utils(res, s)
        order = ("compare", "addsub", "add", "sub", "abs", "mult", "neg", "round", "from_real", "shift", "fileio", "resize", "saturate")
        H.pool_map("checks.C01", "work", [[(s, op)] for op in order], res=res)
    finally:
        shutil.rmtree(s, ignore_errors=True)
    return H.finish(PID, res, t0, True, ["the data directories are written by one run at a time"],
                    "all 13 scripts x directory states {missing, stale, ...} x {script, import}; every line of every file written; helper functions over all small formats, lengths and directory contents")
