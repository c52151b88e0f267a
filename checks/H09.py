"""H09: the RTL is VHDL-93. A strict VHDL-93 analysis accepts it, and compiled to that standard every function and component gives
the results of the reference, on the whole state space of the checks of the VHDL-2008 build (H01 to H08)."""
import importlib, os, shutil, time
from concurrent.futures import ThreadPoolExecutor
from fxv import vhdl as V, harness as H

PID = "H09"
FUNCTIONS = ("H01", "H02", "H03", "H04", "H05", "H06", "H07")


def work(arg):
    mod, exe, us = arg
    return importlib.import_module("checks." + mod).work((exe, us))


def main():
    t0 = time.time()
    R = H.Result()
    dirs = []
    try:
        try:
            with ThreadPoolExecutor(2) as ex:
                jobs = [ex.submit(V.build, std="93"), ex.submit(V.build, "fxv_comp", [os.path.join(H.VERIF, "vhdl", "fxv_comp.vhd")], std="93")]
            dirs += [j.result()[0] for j in jobs if j.exception() is None]
            exe, comp = [j.result()[1] for j in jobs]
        except V.BuildError as e:
            files = V.ordered(V.HDL)
            if standard93(files):        # the library itself is accepted: our driver does not fit it any more
                raise
            R.bad("analysis", "the RTL is not accepted as VHDL-93: %s" % str(e)[-400:], {"output": str(e)[-3000:]})
            return H.finish(PID, R, t0, True, [], "strict analysis as VHDL-93")
        args = []
        for m in FUNCTIONS:
            args += [(m, exe, c) for c in H.chunks(importlib.import_module("checks." + m).units(), 16 if not H.THOROUGH else 32)]
        args += [("H08", comp, c) for c in H.chunks(importlib.import_module("checks.H08").units(), 16)]
        args.sort(key=lambda a: a[0] != "H03")
        H.pool_map("checks.H09", "work", args, res=R)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    return H.finish(PID, R, t0, assumptions=["GHDL 4.1 (--std=93, strict) stands for the compilers that accept VHDL-93 only"],
                    bounds="strict VHDL-93 analysis of hdl/; then the state spaces of H01-H08 on the VHDL-93 build")


def standard93(files):
    import tempfile
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        V.sh(["ghdl", "-a", "--std=93"] + files, d)
        return True
    except V.BuildError:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)
