"""T01: every co-simulation test bench passes exactly when the library and its data set agree: all single faults of small data sets
(every wrong value at every position, every missing entry, every changed mode or format) and of the clocked components' outputs."""
import itertools, os, shutil, time
import numpy as np
from fxv import ref, reals, benches, harness as H
from checks import C01

PID = "T01"
RND, SAT = range(7), range(4)
META = 8
MODES = 3                 # register modes of the clocked components; a bench goes through them from point to point


def points(op):
    """The test points of a bench, so that every mode and every kind of format occurs."""
    P = []
    A1 = [(0, 2, 1), (1, 1, 1), (0, 0, 2), (1, 2, -1), (1, -1, 3), (0, 1, 0)]
    R1 = [(0, 1, 1), (1, 1, 0), (1, 2, 1), (0, 2, -1), (1, 0, 1), (0, 1, 2), (1, 1, 1)]
    A2, B2 = [(0, 1, 1), (1, 1, 0), (0, 2, -1), (1, 0, 1)], [(1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 1, 0)]
    modes = list(itertools.product(RND, SAT))
    if op == "compare":
        return [dict(a_fmt=a, b_fmt=b) for a in A2 + [(1, 2, 0)] for b in B2]
    if op == "round":
        for i, m in enumerate(list(RND) * (3 if H.THOROUGH else 2)):
            a = ((1, 2, 2), (0, 2, 2), (1, 1, 3))[(i // 7 + i) % 3]
            rf = a[2] - 1 - i % 2
            P.append(dict(a_fmt=a, r_fmt=ref.round_fmt(a, rf, ref.RND[m]), rnd=m))
        P.append(dict(a_fmt=(1, 1, 1), r_fmt=(1, 1, 2), rnd=2))
        return P
    if op == "saturate":
        for i, s in enumerate(list(SAT) * 3):
            a = ((1, 2, 1), (0, 3, 0), (1, 1, 1))[i % 3]
            P.append(dict(a_fmt=a, r_fmt=((i // 4) % 2, (a[1] - 1, a[1], 0)[i % 3] if a[2] + (a[1] - 1, a[1], 0)[i % 3] + (i // 4) % 2 > 0 else 1, a[2]), sat=s))
        return P
    if op == "from_real":
        return [dict(a_fmt=A1[i % len(A1)], r_fmt=R1[(i * 2 + i // 6) % len(R1)], sat=(2, 3)[i % 2]) for i in range(12)]
    if op in ("abs", "neg", "resize"):
        return [dict(a_fmt=A1[i % len(A1)], r_fmt=R1[(i + i // 7) % len(R1)], rnd=r, sat=s) for i, (r, s) in enumerate(modes)]
    if op == "shift":
        return [dict(a_fmt=A1[i % len(A1)], shift=(-2, -1, 0, 1, 2)[i % 5], r_fmt=R1[(i + i // 7) % len(R1)], rnd=r, sat=s) for i, (r, s) in enumerate(modes)]
    return [dict(a_fmt=A2[i % 4], b_fmt=B2[(i + i // 4) % 4], r_fmt=R1[(i + i // 7) % len(R1)], rnd=r, sat=s) for i, (r, s) in enumerate(modes)]


def results(op, p, cache):
    e = C01.expected(op, p, cache)
    if op == "compare":
        return {k: [int(x) for x in v] for k, v in e.items()}
    return {"output": [int(x) for x in e]}


def sets(op):
    P = points(op)
    n = 7 if op != "compare" else 5
    return [P[i:i + n] for i in range(0, len(P), n)]


def long_point(op):
    """One point with many samples."""
    if op == "compare":
        return dict(a_fmt=(1, 2, 1), b_fmt=(0, 2, 2))
    if op in ("round", "saturate"):
        return dict(dict(a_fmt=(1, 3, 4)), **({"r_fmt": ref.round_fmt((1, 3, 4), 2, ref.RND[2]), "rnd": 2} if op == "round" else {"r_fmt": (0, 2, 4), "sat": 2}))
    if op in ("abs", "neg", "resize", "shift", "from_real"):
        p = dict(a_fmt=(1, 3, 4), r_fmt=(1, 2, 3), rnd=3, sat=2)
        if op == "shift":
            p["shift"] = 1
        if op == "from_real":
            del p["rnd"]
        return p
    return dict(a_fmt=(1, 2, 1), b_fmt=(0, 2, 2), r_fmt=(1, 2, 1), rnd=4, sat=2)


def units():
    us = [(op, k, "long") for op in benches.OPS for k in range(4)]
    for op in benches.OPS:
        for k in range(len(sets(op))):
            us.append((op, k, "values"))
            us.append((op, k, "lists"))
    us += [(op, k, "outputs") for op in benches.CLOCKED for k in range(len(sets(op)))]
    return us


def work(us):
    R = H.Result()
    d = os.environ["FXV_T01_DIR"]
    for op, k, what in us:
        pts = [sets(op)[0][0], long_point(op)] if what == "long" else sets(op)[k]
        cache = {}
        res = [results(op, p, cache) for p in pts]
        b = benches.Bench(d, op, what == "outputs")
        try:
            {"long": lambda *x: long(*x, part=k), "values": values, "lists": lists, "outputs": outputs}[what](R, b, op, pts, res, cache)
        finally:
            R.traces += b.runs
            b.close()
    return R


def expect(R, b, want, case, text, **k):
    R.states += 1
    R.transitions += 1
    ok, out = b.run(**k)
    if ok != want:
        R.bad("pass" if want else "miss", "bench of cl_fix_%s %s: %s%s" % (b.op, "fails" if want else "passes", text, " -> " + out[-200:] if want else ""), dict(case, op=b.op))
    elif len(R.samples) < 1 and not want:
        R.samples.append({"bench": b.op, "fault": text, "outcome": "failed as it must", "output": out[-160:]})
    return ok == want


def values(R, b, op, pts, res, cache):
    """The data set as it should be in every length and order; then one wrong or missing result at a time."""
    for order in ([list(range(n)) for n in range(1, len(pts) + 1)] + [list(range(len(pts)))[::-1]] + [[i] for i in range(len(pts))]):
        b.fill([pts[i] for i in order], [res[i] for i in order])
        for meta in ((0, 1, META, 33) if op in benches.CLOCKED else (META,)):
            if not expect(R, b, True, {"points": [pts[i] for i in order], "meta": meta}, "on a correct data set of %d points %s" % (len(order), [pts[i] for i in order][:2]), meta=meta):
                return
    b.fill(pts, res)
    for i, p in enumerate(pts):
        for s, v in res[i].items():
            nm = "test%d_%s.txt" % (i, s)
            for j in range(len(v)):
                if op == "compare":
                    wrong = [1 - v[j]]
                else:
                    f = p["r_fmt"]
                    wrong = [x for x in range(ref.vmin(f), ref.vmax(f) + 1) if x != v[j]]
                    if not H.THOROUGH and len(wrong) > 3:          # single-bit faults and the neighbours
                        w = ref.width(f)
                        near = {int(ref.wrap(np.array([v[j] ^ (1 << t)], dtype=object), f)[0]) for t in range(w)} | {v[j] - 1, v[j] + 1}
                        wrong = [x for x in wrong if x in near]
                for x in wrong:
                    b.put(nm, v[:j] + [x] + v[j + 1:])
                    expect(R, b, False, {"point": p, "position": j, "value": x, "right": v[j], "file": nm, "set": pts}, "result %d of %s (%s) is %d instead of %d" % (j, nm, p, x, v[j]))
            for j in range(len(v)):          # results missing from the end, or from the middle unless the rest is the same
                short = v[:j] + v[j + 1:]
                b.put(nm, short)
                expect(R, b, False, {"point": p, "missing": j, "file": nm, "set": pts}, "result %d of %s (%s) is missing" % (j, nm, p))
            b.put(nm, v)
    expect(R, b, True, {"points": pts}, "again on the correct data set")
    for s, v in res[-1].items():
        os.remove(os.path.join(b.data, "test%d_%s.txt" % (len(pts) - 1, s)))
        expect(R, b, False, {"points": pts, "file": s}, "the last result file is missing")
        b.put("test%d_%s.txt" % (len(pts) - 1, s), v)


def long(R, b, op, pts, res, cache, part=0):
    """One wrong result at every position of a long file behind a short one; the file cut off at every length in the thorough tier."""
    b.fill(pts, res)
    if not expect(R, b, True, {"points": pts}, "on a correct data set with a long file"):
        return
    for s, v in res[1].items():
        nm = "test1_%s.txt" % s
        step = 4 if op != "compare" or H.THOROUGH else 16
        for j in sorted(set(range(part, len(v), step)) | ({0, len(v) - 1} if part == 0 else set())):
            x = 1 - v[j] if op == "compare" else v[j] + 1 if v[j] < ref.vmax(pts[1]["r_fmt"]) else v[j] - 1
            b.put(nm, v[:j] + [x] + v[j + 1:])
            expect(R, b, False, {"point": pts[1], "position": j, "value": x, "right": v[j], "file": nm, "set": pts}, "result %d of %s (%s) is %d instead of %d" % (j, nm, pts[1], x, v[j]))
            if H.THOROUGH or j % 16 == part:
                b.put(nm, v[:j])
                expect(R, b, False, {"point": pts[1], "length": j, "file": nm, "set": pts}, "%s (%s) ends after %d results" % (nm, pts[1], j))
        b.put(nm, v)


def lists(R, b, op, pts, res, cache):
    """One entry of one list at a time replaced by another one, the results left as they are: fails unless the results are the same."""
    b.fill(pts, res)
    for key in benches.LISTS.get(op, benches.BIN):
        for i, p in enumerate(pts):
            if key == "rnd":
                alt = [m for m in RND if m != p[key]]
            elif key == "sat":
                alt = [m for m in ((2, 3) if op == "from_real" else SAT) if m != p[key]]
            elif key == "shift":
                alt = [p[key] + x for x in (-2, -1, 1, 2)]
            else:
                S, I, F = p[key]
                alt = [(1 - S, I, F), (S, I + 1, F), (S, I - 1, F), (S, I, F + 1), (S, I, F - 1), (S, I + 1, F - 1), (S, I - 1, F + 1)]
                alt = [f for f in alt if ref.width(f) >= 1 and f[1] + f[2] >= 0]
            for x in alt:
                q = dict(p)
                q[key] = x
                want = verdict(op, q, res[i], cache)
                if want is None:
                    continue
                new = [dict(y) for y in pts]
                new[i] = q
                show = (lambda v: "(%d,%d,%d)" % v) if key.endswith("fmt") else str
                b.put(key + ".txt", [show(y[key]) for y in new])
                expect(R, b, want, {"point": p, "list": key, "entry": x, "set": pts}, "entry %d of %s is %s instead of %s (%s)" % (i, key, x, p[key], p))
            b.put(key + ".txt", [("(%d,%d,%d)" % y[key]) if key.endswith("fmt") else y[key] for y in pts])
    expect(R, b, True, {"points": pts}, "again on the correct data set")


def verdict(op, q, have, cache):
    """Must the bench pass with the changed point q on the unchanged results? None: not judged."""
    if op == "round" and q["r_fmt"] != ref.round_fmt(q["a_fmt"], q["r_fmt"][2], ref.RND[q["rnd"]]):
        return False                 # the library refuses such a result format
    if op == "saturate" and q["r_fmt"][2] != q["a_fmt"][2]:
        return False
    e = results(op, q, cache)
    same = True
    for s, v in e.items():
        h = have[s]
        if op != "compare" and any(not ref.vmin(q["r_fmt"]) <= x <= ref.vmax(q["r_fmt"]) for x in h):
            return None              # text that does not fit the format
        n = min(len(v), len(h))
        if v[:n] != h[:n] or len(h) < len(v):
            same = False
        elif len(h) > len(v):
            return None              # results left over
    return same


def outputs(R, b, op, pts, res, cache):
    """One output bit or valid of a clocked component wrong at one sample of one test point, or in one register mode."""
    if len(pts) >= MODES:
        b.fill(pts, res)
        for m in range(MODES):
            expect(R, b, False, {"points": pts, "register mode": m}, "output bit 0 is wrong in register mode %d only" % m, fault=(4, m, 0))
    for p, r in zip(pts, res):
        for at in range(3):          # the register mode follows the position in the list
            filler = [pts[0]] * at
            b.fill(filler + [p], [res[0]] * at + [r])
            if not expect(R, b, True, {"point": p}, "behind a wrapper that changes nothing (%s)" % p, fault=(0, 0, 0)):
                return
            if at and not H.THOROUGH and p is not pts[-1]:
                continue
            n = len(r["output"])
            for j in range(n):
                for t in range(ref.width(p["r_fmt"])):
                    expect(R, b, False, {"point": p, "sample": j, "bit": t, "at": at}, "output bit %d of sample %d of %s is wrong" % (t, j, p), fault=(1, j, t))
                for t in range(META):
                    expect(R, b, False, {"point": p, "sample": j, "meta bit": t, "at": at}, "metadata bit %d of sample %d of %s is wrong" % (t, j, p), fault=(2, j, t))
                if j in (0, n - 1):
                    expect(R, b, False, {"point": p, "sample": j, "at": at}, "no valid outputs from sample %d of %s" % (j, p), fault=(3, j, 0))


def main():
    t0 = time.time()
    d = benches.build()
    os.environ["FXV_T01_DIR"] = d
    try:
        us = units()
        us.sort(key=lambda u: (u[2] != "values", u[0] not in ("addsub", "mult", "add", "sub")))
        R = H.pool_map("checks.T01", "work", [[u] for u in us])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, True, ["one fault at a time; results left over at the end of a file and texts that do not fit their format are not judged"],
                    "%d data sets of the twelve benches; every %swrong value and every missing value at every position, every other mode and neighbouring format in every list, every output and metadata bit of every sample of the clocked components"
                    % (len({u[:2] for u in us}), "" if H.THOROUGH else "neighbouring or single-bit "))
