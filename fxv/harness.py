"""Common plumbing: tiers, counters, violations, replays, evidence, known findings, process pool."""
import os, sys, json, time, traceback, hashlib, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FXV_REPO", "/repo")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
PYMODEL = os.path.join(REPO, "bittrue", "models", "python")


def known_findings(pid):
    """Lines 'known: property=<id> key=<key> <text>' in known_findings.txt."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                out[key] = text
    return out


class Result:
    """What one work unit measured."""

    def __init__(self):
        self.states = 0          # distinct configuration/operand points reached
        self.transitions = 0     # operation applications checked against the oracle
        self.traces = 0          # calls / runs of the real implementation compared
        self.samples = []
        self.viol = []           # (key, description, payload)
        self.notes = {}

    def add(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        self.viol += o.viol
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def bad(self, key, desc, payload):
        if len(self.viol) < 40:
            self.viol.append((key, desc, payload))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def finish(pid, res, t0, exhaustive=True, assumptions=(), bounds=""):
    """Write evidence + replays, print lines, return the exit code."""
    known = known_findings(pid)
    shown, viol = set(), []
    for key, desc, payload in res.viol:
        if key in known:
            shown.add(key)
        else:
            viol.append((key, desc, payload))
    for key in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
    cov = {
        "states": int(res.states), "transitions": int(res.transitions),
        "traces_validated_against_impl": int(res.traces),
        "samples": jsonable(res.samples[:12]), "exhaustive": bool(exhaustive), "bounds": bounds,
    }
    cov.update({k: jsonable(v) for k, v in res.notes.items()})
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs violations=%d" % (
        pid, TIER, res.states, res.transitions, res.traces, time.time() - t0, len(viol)))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for key, desc, payload in viol[:5]:
            body = {"property": pid, "key": key, "description": desc, "case": jsonable(payload)}
            h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
            if h in seen:
                continue
            seen.add(h)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump(body, f, indent=1)
            print("  " + desc[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


# ------------------------------------------------------------------ process pool
_W = {}


def _init(modname, repo):
    sys.dont_write_bytecode = True
    import importlib
    _W["mod"] = importlib.import_module(modname)


def _run(args):
    fname, unit = args
    try:
        return getattr(_W["mod"], fname)(unit)
    except Exception as e:
        if type(e).__name__ != "ImplError":     # raised by the code under test where the property promises a result
            raise
        r = Result()
        r.bad("exception", "unexpected exception in the implementation: %s" % e, {"unit": repr(unit)[:2000], "trace": traceback.format_exc()[-2000:]})
        return r


def pool_map(modname, fname, units, procs=8, res=None):
    """Run mod.fname(unit) -> Result over all units in worker processes and merge."""
    res = res or Result()
    units = list(units)
    if not units:
        return res
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(units)), _init, (modname, REPO)) as p:
        for r in p.imap_unordered(_run, [(fname, u) for u in units], chunksize=1):
            res.add(r)
            if len(res.viol) > 60:
                p.terminate()
                break
    return res


def chunks(seq, n):
    """Split into n interleaved chunks (balanced, deterministic)."""
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]
