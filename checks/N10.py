"""N10: generated data.  The random generators the Python model draws from are replaced by a chooser, and every sequence of choices
is executed: every element is a value of the format, every value can be generated, and equally often; zeros are zero."""
import itertools, os, sys, time
from fractions import Fraction
import numpy as np
from fxv import ref, harness as H

PID = "N10"
SMALL = 64            # domains up to this size are enumerated completely
MAXCALLS = 12


class Cut(BaseException):
    """The sequence of choices has become longer than the bound (a generator that redraws)."""


class Chooser:
    def __init__(self):
        self.prefix, self.trace, self.complete, self.elements = [], [], True, 1

    def start(self, prefix):
        self.prefix, self.trace, self.complete = prefix, [], True

    def pick(self, lo, n):
        """One of the integers lo .. lo+n-1; all of them, or, of a large domain, the ends, the middle and the distances 2^k from below."""
        k = len(self.trace)
        if k >= MAXCALLS:
            raise Cut()
        if n <= SMALL:
            opts = range(n)
        else:
            self.complete = False
            ks = () if self.elements > 1 else range(n.bit_length()) if k == 0 else (1, 31, n.bit_length() - 1)
            opts = sorted({o for o in [0, n - 1, n // 2] + [1 << i for i in ks] + [(1 << i) - 1 for i in ks] if 0 <= o < n})
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, len(opts)))
        return lo + opts[c]

    def real(self):
        """A float in [0, 1): a grid of 64, or the largest one."""
        n = SMALL if self.elements == 1 else 8
        i = self.pick(0, n)
        if i == n - 1:
            self.complete = False
            return 1.0 - 2.0**-53
        return i / float(n)


CH = Chooser()


def _size(size):
    if size is None:
        return None
    return tuple(int(x) for x in size) if np.ndim(size) else (int(size),)


def _fill(size, dtype, one):
    s = _size(size)
    if s is None:
        return one()
    out = np.empty(s, dtype=object)
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = one()
    return out.astype(dtype)


def _ints(low, high, size, dtype, closed):
    if high is None:
        low, high = 0, low
    low, high = int(low), int(high) + (1 if closed else 0)
    if high <= low:
        raise ValueError("low >= high")
    info = np.iinfo(dtype) if dtype is not object else None
    if info is not None and (low < info.min or high - 1 > info.max):
        raise ValueError("out of bounds for %s" % np.dtype(dtype).name)
    return _fill(size, dtype, lambda: (CH.pick(low, high - low) if size is not None else np.dtype(dtype).type(CH.pick(low, high - low)) if dtype is not int else CH.pick(low, high - low)))


class NpGen:
    """numpy.random.Generator / RandomState / module functions."""

    def __init__(self, *a, **k):
        pass

    def randint(self, low, high=None, size=None, dtype=int):
        return _ints(low, high, size, dtype, False)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        return _ints(low, high, size, dtype, endpoint)

    def random_integers(self, low, high=None, size=None):
        return _ints(1 if high is None else low, low if high is None else high, size, int, True)

    def random(self, size=None, dtype=np.float64):
        return _fill(size, dtype, CH.real)
    random_sample = ranf = sample = random

    def rand(self, *d):
        return self.random(d if d else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        i = _fill(size, np.int64, lambda: CH.pick(0, len(a)))
        return a[i]

    def bytes(self, n):
        return bytes(CH.pick(0, 256) for _ in range(n))

    def seed(self, *a, **k):
        pass


class PyGen:
    """random.Random / module functions."""

    def __init__(self, *a):
        pass

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        n = (r.stop - r.start + r.step - (1 if r.step > 0 else -1)) // r.step
        if n <= 0:
            raise ValueError("empty range")
        return r.start + r.step * CH.pick(0, n)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, k):
        return CH.pick(0, 1 << k)

    def randbytes(self, n):
        return CH.pick(0, 1 << (8 * n)).to_bytes(n, "little")

    def random(self):
        return CH.real()

    def uniform(self, a, b):
        return a + (b - a) * CH.real()

    def choice(self, seq):
        return seq[CH.pick(0, len(seq))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def seed(self, *a, **k):
        pass


def load():
    """The package with all its random numbers drawn from the chooser."""
    import random
    g, p = NpGen(), PyGen()
    for n in dir(NpGen):
        if not n.startswith("_") and hasattr(np.random, n):
            setattr(np.random, n, getattr(g, n))
    for n in ("default_rng", "RandomState", "Generator"):
        setattr(np.random, n, NpGen)
    for n in dir(PyGen):
        if not n.startswith("_") and hasattr(random, n):
            setattr(random, n, getattr(p, n))
    random.Random = random.SystemRandom = PyGen
    from fxv import pyimpl as I
    return I


def units():
    F = ref.small_formats(6, -7, 9, -7, 9) if H.THOROUGH else ref.small_formats(5, -4, 6, -4, 6)
    us = [("all", f) for f in F]
    us += [("arrays", f, s) for f in ref.small_formats(2, -2, 3, -2, 3) for s in ((2,), (2, 2), (1, 3), (3, 1), (2, 1, 2))]
    ws = sorted(set(range(7, 130)) | {191, 192, 193, 256, 400}) if H.THOROUGH else (7, 8, 16, 24, 30, 31, 32, 33, 48, 51, 52, 53, 54, 55, 62, 63, 64, 65, 66, 96, 127, 128, 129, 200)
    us += [("large", (S, w - S - fr, fr)) for w in ws for S in (0, 1) for fr in (0, w // 2, w + 3, -4)]
    us += [("zeros", f) for f in F[::3] + [u[1] for u in us if u[0] == "large"]]
    return us



def run_all(R, I, case, f, shape, call):
    """Every sequence of choices -> Counter of results (tuples of ints) with their probability; None after a violation."""
    from collections import defaultdict
    prob, cut, complete, calls = defaultdict(Fraction), False, True, 0
    stack = [[]]
    done = 0
    CH.elements = int(np.prod(shape))
    while stack:
        if done >= 200000:
            R.notes["trees_cut"] = R.notes.get("trees_cut", 0) + 1
            return None
        prefix = stack.pop()
        CH.start(prefix)
        try:
            out, _, _ = I.call(call)
        except Cut:
            cut, out = True, None
        except I.ImplError as e:
            R.bad("exc", "%s: %s, choices %s" % (case, e, CH.trace), dict(case, choices=CH.trace))
            return None
        R.transitions += 1
        done += 1
        tr = CH.trace
        complete &= CH.complete
        calls = max(calls, len(tr))
        w = Fraction(1)
        for _, n in tr:
            w /= n
        if out is not None:
            err = I.check_repr(out, f)
            if err is None and np.shape(out) != shape:
                err = "shape %s" % (np.shape(out),)
            vals = None
            if err is None:
                vals = [ints(x, f) for x in (np.asarray(out, dtype=object) if ref.is_wide(f) else np.asarray(out)).reshape(-1).tolist()]
                if any(v is None or not ref.vmin(f) <= v <= ref.vmax(f) for v in vals):
                    err = "%r is not a value of the format" % (out,)
            if err:
                R.bad("value", "%s: %s, choices %s" % (case, err, tr), dict(case, choices=tr, result=repr(out)))
                return None
            prob[tuple(vals)] += w
        for k in range(len(prefix), len(tr)):
            for c in range(1, tr[k][1]):
                stack.append([x for x, _ in tr[:k]] + [c])
    R.traces += 1
    return prob, cut, complete, calls


def ints(x, f):
    if ref.is_wide(f):
        return x if type(x) is int else None
    v = Fraction(x) * Fraction(2) ** f[2]
    return int(v) if v.denominator == 1 else None


def work(us):
    I = load()
    P = I.P
    R = H.Result()
    for u in us:
        f = u[1]
        F = I.fmt(f)
        case = {"call": "cl_fix_random", "fmt": f}
        R.states += 1
        if u[0] == "zeros":
            for shape, want in ((3, (3,)), ((2,), (2,)), ((2, 3), (2, 3)), ([1, 2, 1], (1, 2, 1)), (1, (1,)), ((), ())):
                R.transitions += 1
                try:
                    out, nw, _ = I.call(P.cl_fix_zeros, shape, F)
                except I.ImplError as e:
                    R.bad("zeros", "cl_fix_zeros(%s, %s) raised %s" % (shape, f, e), {"fmt": f, "shape": shape})
                    continue
                err = I.check_repr(out, f)
                if not err and (np.shape(out) != want or nw or any(x != 0 for x in np.asarray(out).reshape(-1).tolist())):
                    err = "%r, %d warnings" % (out, nw)
                if err:
                    R.bad("zeros", "cl_fix_zeros(%s, %s): %s" % (shape, f, err), {"fmt": f, "shape": shape})
            continue
        if u[0] == "all":
            todo = [((1,), (1,)), (1, (1,)), ([1, 1], (1, 1)), ((1, 1, 1), (1, 1, 1))]
        elif u[0] == "large":
            todo = [((1,), (1,)), ((1, 1), (1, 1)), ((2,), (2,)), ((1, 2), (1, 2))] + ([((3,), (3,)), ((2, 2), (2, 2))] if f[2] == 0 else [])
        else:
            todo = [(u[2], u[2])]
        for shape, want in todo:
            c = dict(case, shape=shape)
            r = run_all(R, I, c, f, want, lambda: P.cl_fix_random(shape, F))
            if r is None:
                continue
            prob, cut, complete, calls = r
            n = int(np.prod(want))
            every = set(itertools.product(range(ref.vmin(f), ref.vmax(f) + 1), repeat=n)) if u[0] != "large" else set(itertools.product((ref.vmin(f), ref.vmax(f)), repeat=n))
            if calls == 0 and ref.width(f) > 0:
                # no random number was drawn from any generator that is known: only validity can be judged
                R.notes["no_choice_seen"] = R.notes.get("no_choice_seen", 0) + 1
                continue
            miss = every - set(prob)
            if miss:
                R.bad("missing", "%s: %s can never be generated (%d of %d)" % (c, sorted(miss)[0], len(miss), len(every)), dict(c, missing=sorted(miss)[:5]))
            elif u[0] != "large" and complete and len(set(prob.values())) > 1:
                lo, hi = min(prob, key=prob.get), max(prob, key=prob.get)
                R.bad("bias", "%s: %s is generated with probability %s, %s with %s" % (c, lo, prob[lo], hi, prob[hi]), c)
            elif len(R.samples) < 1:
                R.samples.append(dict(c, results=len(prob), choice_sequences=R.transitions))
    return R


def main():
    t0 = time.time()
    us = units()
    R = H.pool_map("checks.N10", "work", H.chunks(us, 64))
    return H.finish(PID, R, t0, True, ["the random generators of numpy and of the standard library are uniform and independent", "of domains with more than 64 values only the ends, the middle and the values next to powers of two are drawn"],
                    "all sequences of random choices for all formats up to %d bits (arrays of up to 4 elements for formats up to 2 bits), boundary choices for wider formats" % (6 if H.THOROUGH else 5))
