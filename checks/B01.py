"""B01: Python and VHDL are bit-true to each other: every program (chain of operations) up to a depth gives identical bits."""
import itertools
import numpy as np
from fxv import ref, vhdl as V, harness as H

PID = "B01"
BF = (1, 1, 1)      # second operand format
CF = (0, 2, 0)
SF = (1, 0, 0)      # one bit: a sign and nothing else
UF = (0, 0, 1)      # one bit: a single fraction bit


def ok(f):
    return f[1] + f[2] >= 0 and ref.width(f) >= 1


# name -> (vhdl op, needs b, result format rule or None (full precision), rnd, sat, shift)
ALPH = [
    ("resize", None, lambda f: (1, f[1] - 1, f[2] - 1), "NonSymPos_s", "Sat_s", 0),
    ("resize", None, lambda f: (f[0], f[1], f[2] - 2), "ConvEven_s", "None_s", 0),
    ("resize", None, lambda f: (0, f[1], f[2] + 1), "Trunc_s", "SatWarn_s", 0),
    ("resize", None, lambda f: (1 - f[0], f[1] - 1, f[2] - 3), "SymInf_s", "Warn_s", 0),
    ("round", None, lambda f: ref.round_fmt(f, f[2] - 1, "SymZero_s"), "SymZero_s", "None_s", 0),
    ("saturate", None, lambda f: (1, f[1] - 2, f[2]), "Trunc_s", "Sat_s", 0),
    ("add", BF, None, "Trunc_s", "Warn_s", 0),
    ("sub", CF, None, "Trunc_s", "Warn_s", 0),
    ("mult", BF, None, "Trunc_s", "Warn_s", 0),
    ("neg", None, None, "Trunc_s", "Warn_s", 0),
    ("abs", None, None, "Trunc_s", "Warn_s", 0),
    ("addsub1", CF, None, "Trunc_s", "Warn_s", 0),
    ("addsub0", BF, None, "Trunc_s", "Warn_s", 0),
    ("shift", None, lambda f: f, "SymInf_s", "Sat_s", 1),
    ("shift", None, lambda f: (f[0], f[1] - 2, f[2] + 2), "Trunc_s", "None_s", -2),
    ("add", CF, lambda f: (1, 2, f[2] - 1), "SymZero_s", "Warn_s", 0),
    ("sub", BF, lambda f: (0, 3, 0), "ConvOdd_s", "SatWarn_s", 0),
    ("mult", BF, lambda f: (1, f[1], 1), "NonSymNeg_s", "None_s", 0),
    ("mult", CF, lambda f: (0, f[1], f[2]), "ConvEven_s", "Sat_s", 0),
    ("abs", None, lambda f: (1, f[1] - 1, f[2]), "NonSymPos_s", "Sat_s", 0),
    ("neg", None, lambda f: (0, f[1], f[2] - 1), "ConvOdd_s", "None_s", 0),
    ("mult", SF, None, "Trunc_s", "Warn_s", 0),
    ("sub", UF, None, "Trunc_s", "Warn_s", 0),
    ("resize", None, lambda f: (1, 0, 0), "NonSymNeg_s", "SatWarn_s", 0),
    ("resize", None, lambda f: (0, 1, 0), "SymZero_s", "Sat_s", 0),
]
STARTS = [(1, 1, 2), (0, 2, 2), (1, -1, 4), (0, 4, -1), (1, 26, 26), (0, 27, 26), (1, 30, 32), (0, 1, 30), (1, 0, 0)]


def units():
    depth = 3
    us = []
    for si, f in enumerate(STARTS):
        for c in itertools.product(range(len(ALPH)), repeat=depth):
            if not H.THOROUGH and (c[0] * 7 + c[1] * 5 + c[2] * 2 + si) % 3:
                continue            # quick tier: every pair of operations, a third of the triples
            us.append((f, c))
    return us


def work(arg):
    exe, us = arg
    from fxv import pyimpl as I
    P = I.P
    R = H.Result()
    cases = []
    bops = {f: ref.all_values(f) for f in (BF, CF, SF, UF)}
    for f0, chain in us:
        small = ref.width(f0) <= 5
        vals = ref.all_values(f0)[::2 if H.THOROUGH else 3] if small else ref.corner_values(f0)[::9]
        f = f0
        X = I.enc(ref.arr(vals, 200), f)
        steps, dead = [], False
        for k, oi in enumerate(chain):
            op, bf, rule, rn, s, sh = ALPH[oi]
            base = {"addsub1": "addsub", "addsub0": "addsub"}.get(op, op)
            if rule is None:
                fn = getattr(P, "cl_fix_%s_fmt" % base)
                r = I.tup(fn(I.fmt(f), I.fmt(bf)) if bf else fn(I.fmt(f)))
            else:
                r = rule(f)
            if not ok(r):
                break
            bv = [bops[bf][(3 * i + 5 * k + oi) % len(bops[bf])] for i in range(len(vals))] if bf else None
            args = [X, I.fmt(f)]
            if bf:
                args += [I.enc(ref.arr(bv, 60), bf), I.fmt(bf)]
            if base == "addsub":
                args.append(op == "addsub1")
            if op == "shift":
                args.append(sh)
            args.append(I.fmt(r))
            if op == "round":
                args.append(I.rnd(rn))
            elif op == "saturate":
                args.append(I.sat(s))
            else:
                args += [I.rnd(rn), I.sat(s)]
            try:
                X, _, _ = I.call(getattr(P, "cl_fix_" + base), *args)
                Z = [int(z) for z in np.asarray(P.cl_fix_to_integer(X, I.fmt(r))).reshape(-1)]
            except I.ImplError as e:
                R.bad("exc", "Python chain %s from %s step %d (%s): %s" % ([ALPH[c][0] for c in chain], f0, k, op, e), {"start": f0, "chain": chain, "step": k})
                dead = True
                break
            R.traces += 1
            steps.append((op, f, bf, bv, r, rn, s, sh, Z))
            f = r
        if dead or not steps:
            continue
        R.states += len(vals) * len(steps)
        for i, v in enumerate(vals):
            for k, (op, af, bf, bv, r, rn, s, sh, Z) in enumerate(steps):
                g = []
                if k == 0:
                    g.append(V.bits(v, ref.width(af)) + (" " + V.bits(bv[i], ref.width(bf)) if bf else ""))
                elif bf:
                    g.append(V.bits(bv[i], ref.width(bf)))
                info = dict(start=f0, chain=[ALPH[c][0] for c in chain], rules=list(chain), value=v, step=k, a=af, b=bf, r=r, rnd=rn, sat=s, shift=sh)
                cases.append(V.Case(V.line(op, af, bf or (0, 0, 0), r, rn, s, sh, 9 if k == 0 else 0, 1, 1 if k == 0 else -2, g), "fix", r, [Z[i]], None, "chain " + op, info, okey="bittrue"))
        if len(cases) > 20000:
            V.judge(R, exe, cases, chunk=30000)
            cases = []
    V.judge(R, exe, cases, chunk=30000)
    if cases:
        R.samples.append(dict(cases[0].info, bits=V.bits(cases[0].exp[0], ref.width(cases[0].r))))
    return R


def main():
    return V.main(PID, "checks.B01", units(), ["GHDL 4.1 executes the VHDL faithfully", "values only; the wording and number of warnings are compared per language in N02/N03 and H02/H03"],
                  "all chains of 3 operations over an alphabet of %d operation instances (quick: all pairs, a third of the triples) from %d start formats" % (len(ALPH), len(STARTS)))
