"""S01: the co-simulation runner under every thread schedule: a script runs exactly once and to completion before any caller
goes on; scripts with equal names stay apart; failures propagate and leave nothing locked or changed."""
import importlib.util, itertools, os, shutil, sys, tempfile, time
from fxv import sched, harness as H

PID = "S01"
BUDGET = 1200 if H.THOROUGH else 75      # seconds per scenario, runner class and granularity, after which no deeper bound is begun or finished
RUNNERS = [("sim/cosim_runner.py", "cosim_runner"), ("lib/en_tb/sim/cosim_runner.py", "CosimRunner")]

SCRIPT = """import fxv_probe
COSIM_CONFIG = %r
NAME = %r
fxv_probe.log.append(("load", NAME))
%s
def run():
    fxv_probe.log.append(("begin", NAME))
    fxv_probe.hook(NAME)
    fxv_probe.log.append(("end", NAME))
if __name__ == "__main__":
    run()
"""


class Probe:
    """Stands for module fxv_probe, which the scripts import."""

    def __init__(self):
        self.log, self.fail = [], {}

    def hook(self, name):
        k = self.fail.get(name, 0)
        if k:
            self.fail[name] = k - 1
            self.log.append(("fail", name))
            raise ValueError("injected failure in " + name)


def load(path, cls):
    with open(path) as f:
        src = f.read()
    m = type(sys)("fxv_runner")
    m.__file__ = path
    exec(compile(src, path, "exec"), m.__dict__)
    return getattr(m, cls)


def scripts(d):
    """Directories holding equally named cosim.py files."""
    out = {}
    for n, extra in (("a", ""), ("b", ""), ("c", ""), ("bad", "raise ImportError('broken script')"), ("dup", "")):
        p = os.path.join(d, n)
        os.mkdir(p)
        with open(os.path.join(p, "cosim.py"), "w") as f:
            f.write(SCRIPT % ({"id": n}, n, extra))
        out[n] = p
    return out


# scenario: (name, initial runners {key: (dir, disabled)}, thread programs, failures)
# thread program: list of ("run", runner) | ("new", key, dir) | ("cfg", runner)
def scenarios():
    r = lambda k: ("run", k)
    sc = []
    sc.append(("two callers", {"x": ("a", False)}, [[r("x")], [r("x")]], {}))
    sc.append(("three callers", {"x": ("a", False)}, [[r("x")], [r("x")], [r("x")]], {}))
    sc.append(("two callers twice", {"x": ("a", False)}, [[r("x"), r("x")], [r("x"), r("x")]], {}))
    sc.append(("disabled", {"x": ("a", True)}, [[r("x")], [r("x")]], {}))
    sc.append(("first attempt fails", {"x": ("a", False)}, [[r("x")], [r("x")]], {"a": 1}))
    sc.append(("first attempt fails, retried", {"x": ("a", False)}, [[r("x"), r("x")], [r("x")]], {"a": 1}))
    sc.append(("all attempts fail", {"x": ("a", False)}, [[r("x")], [r("x")]], {"a": 9}))
    sc.append(("two runners", {"x": ("a", False), "y": ("b", False)}, [[r("x"), r("y")], [r("y"), r("x")]], {}))
    sc.append(("two runners of one script", {"x": ("a", False), "y": ("a", False)}, [[r("x"), r("y")], [r("y"), r("x")]], {}))
    sc.append(("two constructions", {}, [[("new", "x", "a"), ("cfg", "x")], [("new", "y", "b"), ("cfg", "y")]], {}))
    sc.append(("three constructions", {}, [[("new", "x", "a")], [("new", "y", "b")], [("new", "z", "c")]], {}))
    sc.append(("construction of a broken script", {}, [[("new", "x", "bad"), ("new", "v", "a")], [("new", "y", "b")]], {}))
    sc.append(("construct and run", {"x": ("a", False)}, [[r("x")], [("new", "y", "b"), r("y")]], {}))
    sc.append(("construct, run, both twice", {"x": ("a", False)}, [[("new", "z", "c"), r("x")], [("new", "y", "b"), r("x"), r("y")]], {}))
    sc.append(("broken script while running", {"x": ("a", False)}, [[r("x")], [("new", "y", "bad"), r("x")]], {}))
    return sc


def units():
    us = []
    for rn in range(2):
        for i, (name, init, progs, fail) in enumerate(scenarios()):
            k, ops = len(progs), sum(len(p) for p in progs)
            # line granularity: deep bound; bytecode granularity: small bound
            if H.THOROUGH:
                us.append((rn, i, False, None if k == 2 and ops <= 2 else 4 if k == 2 else 3))
                us.append((rn, i, True, 3 if k == 2 and ops <= 2 else 2))
            else:
                new = any(op[0] == "new" for p in progs for op in p)
                us.append((rn, i, False, (1 if k > 2 else 2) if new else 2 if k > 2 else 3))
                us.append((rn, i, True, 1 if new or ops > 2 else 2))
    return us


def work(unit):
    rn, si, opc, bound = unit
    R = H.Result()
    rel, cls = RUNNERS[rn]
    path = os.path.join(H.REPO, rel)
    name, init, progs, fail = scenarios()[si]
    d = tempfile.mkdtemp(prefix="fxv_")
    orig = list(sys.path)
    saved = orig + [os.path.dirname(path)]
    try:
        dirs = scripts(d)
        files = {os.path.dirname(path) + "/"} | {os.path.join(p, "cosim.py") for p in dirs.values()}
        outcomes = set()
        t1 = time.time()

        def make():
            probe = Probe()
            sys.modules["fxv_probe"] = probe
            sys.path[:] = saved
            C = load(path, cls)
            rs = {k: C(dis, dirs[dn]) for k, (dn, dis) in init.items()}
            of = {k: dn for k, (dn, dis) in init.items()}
            probe.log.clear()
            probe.fail = dict(fail)
            obs = [[] for _ in progs]

            def prog(i):
                def f():
                    for op in progs[i]:
                        try:
                            if op[0] == "run":
                                v = rs[op[1]].run()
                                obs[i].append(("run", op[1], v))
                                probe.log.append(("ret", op[1], v))
                            elif op[0] == "new":
                                r = C(False, dirs[op[2]])
                                rs[op[1]], of[op[1]] = r, op[2]
                                obs[i].append(("new", op[1], True))
                            else:
                                obs[i].append(("cfg", op[1], rs[op[1]].get_config()))
                        except sched.Abort:
                            raise
                        except BaseException as e:      # noqa
                            obs[i].append((op[0], op[1], "raised " + type(e).__name__))
                            probe.log.append(("exc", op[1], type(e).__name__))
                return f
            return [prog(i) for i in range(len(progs))], (probe, rs, of, obs)

        def on_end(run, ctx):
            probe, rs, of, obs = ctx
            log = probe.log
            for t in run.threads:
                if t.error is not None:
                    return "thread %d: %r" % (t.i, t.error)
            outcomes.add(tuple(map(tuple, log)))
            if sys.path != saved:
                return "sys.path is left changed: %s" % [x for x in sys.path if x not in saved]
            for k in rs:
                if (k in init and init[k][1]):
                    enabled = False
                else:
                    enabled = True
                dn = of[k]
                if rs[k].get_config() != {"id": dn}:
                    return "runner of script %s has the configuration %r" % (dn, rs[k].get_config())
                if not enabled and any(e[:2] == ("begin", dn) for e in log):
                    return "a disabled runner executed its script"
            # per script: executions do not overlap per runner; counts
            for dn in set(of.values()):
                share = [k for k in of if of[k] == dn]
                live, done, fails, maxlive = 0, 0, 0, 0
                for e in log:
                    if e == ("begin", dn):
                        live += 1
                        maxlive = max(maxlive, live)
                    elif e == ("end", dn):
                        live -= 1
                        done += 1
                    elif e == ("fail", dn):
                        live -= 1
                        fails += 1
                    elif e[0] == "ret" and e[1] in share and len(share) == 1:
                        dis = e[1] in init and init[e[1]][1]
                        if e[2] is not True:
                            return "run returned %r" % (e[2],)
                        if not dis and done == 0:
                            return "a caller went on before the script had completed"
                called = [k for k in share if any(op == ("run", k) for p in progs for op in p) and not (k in init and init[k][1])]
                if maxlive > max(1, len(share)):
                    return "executions of script %s overlap" % dn
                ok = [k for k in called if any(o[0] == "run" and o[1] == k and o[2] is True for ob in obs for o in ob)]
                if done > len(called):
                    return "script %s was executed %d times for %d runner(s)" % (dn, done, len(called))
                if len(share) == 1 and done < len(ok):
                    return "script %s was never executed" % dn
                if len(share) > 1 and done != len(ok):
                    return "script %s was executed %d times for %d runners" % (dn, done, len(ok))
                excs = sum(1 for ob in obs for o in ob if o[0] == "run" and o[1] in share and isinstance(o[2], str))
                if excs != fails:
                    return "%d failing executions of script %s, but %d callers were told" % (fails, dn, excs)
            for p, ob in zip(progs, obs):
                if len(ob) != len(p):
                    return "not every call returned"
                for op, o in zip(p, ob):
                    if op[0] == "new":
                        want = "raised ImportError" if op[2] == "bad" else True
                        if o[2] != want:
                            return "construction from %s: %r" % (op[2], o[2])
                    if op[0] == "cfg" and o[2] != {"id": of[op[1]]}:
                        return "configuration %r" % (o[2],)
            # constructing must not execute
            loads = [e[1] for e in log if e[0] == "load"]
            want = sorted(op[2] for p in progs for op in p if op[0] == "new")
            if sorted(loads) != want:
                return "scripts loaded: %s, expected %s" % (sorted(loads), want)
            return None

        with sched.Patched():
            n, steps, prob, sc, reached = sched.deepen(make, files, opc, bound, on_end, BUDGET)
        R.states += len(outcomes)
        R.transitions += steps
        R.traces += n
        R.notes["schedules"] = n
        R.notes["diverged_replays"] = sched.explore.diverged
        sched.explore.diverged = 0
        info = {"runner": rel, "scenario": name, "granularity": "bytecode" if opc else "line", "preemption_bound": bound, "completed_bound": "all" if reached is None else reached, "schedules": n, "seconds": round(time.time() - t1, 1)}
        R.samples.append(info)
        if os.environ.get('FXV_DEBUG'):
            print(info)
        if reached != bound and not prob:
            R.notes["units_stopped_short"] = 1
        if prob:
            R.bad("schedule", "%s, scenario '%s': %s; schedule %s" % (rel, name, prob, sc), dict(info, schedule=sc, problem=prob))
    finally:
        sys.path[:] = orig
        sys.modules.pop("fxv_probe", None)
        shutil.rmtree(d, ignore_errors=True)
    return R


def main():
    t0 = time.time()
    us = units()
    us.sort(key=lambda u: (-(u[3] if u[3] is not None else 9), not u[2]))
    R = H.pool_map("checks.S01", "work", us)
    return H.finish(PID, R, t0, not R.notes.get("units_stopped_short"), ["threads interleave at bytecode boundaries (CPython with the GIL)", "the scripts under the runner are small probes"],
                    "all schedules of %d scenarios x 2 runner classes: %s" % (len(scenarios()), "all line interleavings of two-caller scenarios, others up to 3-4 preemptions, bytecode level up to 2-3" if H.THOROUGH else "line level up to 2-3 preemptions (2 with constructions), bytecode level up to 1-2"))
