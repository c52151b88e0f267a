"""S02: every history of loading, querying and running co-simulation scripts: scripts stay apart, the search path is restored,
nothing runs that was not asked for, each runner runs its script once."""
import itertools, os, shutil, sys, tempfile, time
from fxv import harness as H
from checks import S01

PID = "S02"
# kind: (directory, module name or None for the default, disabled)
KINDS = {
    "plain": ("a", None, False), "other": ("b", None, False), "disabled": ("a", None, True), "noconfig": ("n", None, False),
    "named": ("a", "second", False), "broken": ("bad", None, False), "missing": ("a", "nothere", False), "appends": ("p", None, False),
    "inserts": ("q", None, False), "exits": ("x", None, False), "onpath": ("o", None, False), "norun": ("r", None, False),
}
BODY = """import fxv_probe, sys
%s
COUNT = 0
fxv_probe.log.append(("load", %r))
def run():
    global COUNT
    COUNT += 1
    fxv_probe.log.append(("run", %r, COUNT))
    if fxv_probe.failing:
        fxv_probe.failing = False
        COUNT -= 1
        raise ValueError("injected")
if __name__ == "__main__":      # only when started as a program
    run()
"""


def surroundings():
    """What a program around the runner would notice."""
    return {"working directory": os.getcwd(), "arguments": list(sys.argv), "environment": dict(os.environ), "main module": id(sys.modules.get("__main__")),
            "output": (id(sys.stdout), id(sys.stderr)), "modules of the scripts' names": sorted(m for m in ("cosim", "second") if m in sys.modules)}


class Probe:
    def __init__(self):
        self.log, self.failing = [], False


def mk(d):
    extra = {"a": "COSIM_CONFIG = {'id': 'a', 'l': [1, 2]}", "b": "COSIM_CONFIG = 0", "n": "", "bad": "raise KeyError('COSIM_CONFIG')",
             "p": "sys.path.append('/fxv/appended')\nCOSIM_CONFIG = 'p'", "q": "sys.path.insert(0, '/fxv/inserted')\nsys.path.insert(2, '/fxv/inserted2')\nCOSIM_CONFIG = None",
             "x": "raise SystemExit(3)", "o": "COSIM_CONFIG = ('o',)", "r": "COSIM_CONFIG = 'r'"}
    for n, e in extra.items():
        os.mkdir(os.path.join(d, n))
        with open(os.path.join(d, n, "cosim.py"), "w") as f:
            f.write(BODY % (e, n, n))
    with open(os.path.join(d, "r", "cosim.py"), "a") as f:
        f.write("del run\n")
    with open(os.path.join(d, "a", "second.py"), "w") as f:
        f.write(BODY % ("COSIM_CONFIG = 'second'", "a2", "a2"))


CFG = {"plain": {"id": "a", "l": [1, 2]}, "other": 0, "disabled": {"id": "a", "l": [1, 2]}, "noconfig": None, "named": "second", "appends": "p", "inserts": None, "onpath": ("o",), "norun": "r"}
RAISE = {"broken": "KeyError", "missing": "ImportError|ModuleNotFoundError", "exits": "SystemExit"}
LABEL = {"plain": "a", "other": "b", "disabled": "a", "noconfig": "n", "named": "a2", "appends": "p", "inserts": "q", "onpath": "o", "norun": "r", "broken": "bad", "exits": "x"}


def histories(depth):
    news = [("new", k) for k in KINDS]
    uses = [("run", 0), ("run", 1), ("fail", 0), ("cfg", 0), ("cfg", 1)]

    def go(h, alive):
        if h:
            yield tuple(h)
        if len(h) == depth:
            return
        for o in news:
            yield from go(h + [o], alive + (o[1] not in RAISE))
        for o in uses:
            if o[1] < alive:
                yield from go(h + [o], alive)
    # only maximal histories are executed: every prefix is judged on the way
    for h in go([], 0):
        if len(h) == depth:
            yield h


def units():
    depth = 5 if H.THOROUGH else 4
    us = []
    for rn in range(2):
        hs = list(histories(depth))
        us += [(rn, c) for c in H.chunks(hs, 64)]
    return us


def work(unit):
    rn, hs = unit
    R = H.Result()
    rel, cls = S01.RUNNERS[rn]
    path = os.path.join(H.REPO, rel)
    d = tempfile.mkdtemp(prefix="fxv_")
    orig = list(sys.path)
    states = set()
    try:
        mk(d)
        base = orig + [os.path.dirname(path), os.path.join(d, "o")]
        for h in hs:
            sys.path[:] = base
            probe = sys.modules["fxv_probe"] = Probe()
            C = S01.load(path, cls)
            runners, want_path = [], list(base)
            model = []            # [kind, done]
            R.traces += 1
            for k, op in enumerate(h):
                probe.log.clear()
                probe.failing = op[0] == "fail"
                R.transitions += 1
                err = res = None
                before = surroundings()
                try:
                    if op[0] == "new":
                        dn, mod, dis = KINDS[op[1]]
                        a = (dis, os.path.join(d, dn)) + ((mod,) if mod else ())
                        runners.append(C(*a))
                    elif op[0] == "cfg":
                        res = runners[op[1]].get_config()
                    else:
                        res = runners[op[1]].run()
                except BaseException as e:      # noqa
                    if isinstance(e, (KeyboardInterrupt, MemoryError)):
                        raise
                    err = e
                bad = None
                if op[0] == "new":
                    kind = op[1]
                    if kind in RAISE:
                        names = [c.__name__ for c in type(err).__mro__] if err else []
                        if not set(names) & set(RAISE[kind].split("|")):
                            bad = "construction gave %r" % (err,)
                    elif err is not None:
                        bad = "construction raised %r" % err
                    else:
                        model.append([kind, kind == "disabled"])
                    if kind == "appends":
                        want_path = want_path + ["/fxv/appended"]
                    if kind == "inserts":
                        want_path = ["/fxv/inserted"] + want_path[:1] + ["/fxv/inserted2"] + want_path[1:]
                    want_log = [("load", LABEL[kind])] if kind in LABEL and kind not in RAISE else []
                    if bad is None and probe.log != want_log:
                        bad = "construction did %s" % probe.log
                elif op[0] == "cfg":
                    kind = model[op[1]][0]
                    if err is not None or res != CFG[kind] or type(res) is not type(CFG[kind]):
                        bad = "configuration %r / %r, expected %r" % (res, err, CFG[kind])
                    elif probe.log:
                        bad = "asking for the configuration did %s" % probe.log
                else:
                    kind, done = model[op[1]]
                    if done:
                        if err is not None or res is not True or probe.log:
                            bad = "run of a finished or disabled runner: %r %r %s" % (res, err, probe.log)
                    elif kind == "norun":
                        if not isinstance(err, Exception):
                            bad = "run of a script without run(): %r" % (res,)
                    else:
                        if probe.log != [("run", LABEL[kind], 1)]:
                            bad = "run did %s" % probe.log
                        elif op[0] == "fail" and not isinstance(err, ValueError):
                            bad = "a failing run gave %r" % (res,)
                        elif op[0] == "run" and (err is not None or res is not True):
                            bad = "run gave %r %r" % (res, err)
                        if op[0] == "run":
                            model[op[1]][1] = True
                # the script's own insertions may land on either side of the temporary entry; compare contents and order
                if bad is None and sys.path != want_path:
                    extra = [x for x in sys.path if x not in want_path]
                    if extra or sorted(sys.path) != sorted(want_path) or [x for x in sys.path if "/fxv/" not in x] != [x for x in want_path if "/fxv/" not in x]:
                        bad = "module search path is %s..., expected %s..." % (sys.path[:4], want_path[:4])
                after = surroundings()
                if after != before:
                    bad = bad or "changed: %s" % ["%s: %s instead of %s" % (x, str(after[x])[:200], str(before[x])[:200]) for x in after if after[x] != before[x]]
                    os.chdir(before["working directory"])
                    sys.argv[:] = before["arguments"]
                    for m in ("cosim", "second"):
                        sys.modules.pop(m, None)
                states.add((tuple(map(tuple, model)), len(sys.path)))
                if bad:
                    R.bad("history", "%s: after %s: %s" % (rel, list(h[:k + 1]), bad), {"runner": rel, "history": h[:k + 1], "problem": bad})
                    break
            if len(R.viol) > 5:
                break
        R.states = len(states)
        R.samples.append({"runner": rel, "history": hs[len(hs) // 2]})
    finally:
        sys.path[:] = orig
        sys.modules.pop("fxv_probe", None)
        shutil.rmtree(d, ignore_errors=True)
    return R


def main():
    t0 = time.time()
    R = H.pool_map("checks.S02", "work", units())
    return H.finish(PID, R, t0, True, ["single-threaded histories (schedules are explored in S01)"],
                    "all histories of %d operations over %d kinds of scripts, runs, failing runs and configuration queries" % (5 if H.THOROUGH else 4, len(KINDS)))
