"""Entry point: check.py <ID>  (tier from VERIF_TIER, default quick)."""
import sys, os, time
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, subprocess, traceback


def from_implementation(e):
    """Did the code under test cause this exception (it raised, cannot be imported or built, or does not terminate)?"""
    from fxv import harness as H, vhdl
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    ours = isinstance(e, (vhdl.BuildError, subprocess.TimeoutExpired)) or "BuildError" in text or "TimeoutExpired" in text
    root = os.path.realpath(H.REPO)
    return ours or '"%s/' % root in text or '"%s/' % H.REPO in text, text


if __name__ == "__main__":
    pid = sys.argv[1]
    t0 = time.time()
    try:
        rc = importlib.import_module("checks." + pid).main()
    except Exception as e:
        impl, text = from_implementation(e)
        if not impl:
            raise
        from fxv import harness as H
        r = H.Result()
        r.states = r.transitions = r.traces = 1
        r.bad("failure", "the implementation cannot be built, loaded or run where the property promises a result: %s: %s" % (type(e).__name__, str(e)[-1500:]),
              {"trace": text[-4000:]})
        rc = H.finish(pid, r, t0, exhaustive=False, bounds="stopped by the failure of the implementation")
    sys.exit(rc)
