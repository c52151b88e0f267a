"""setup_cmd: nothing to build ahead of time (every check builds from /repo's working tree); verify the tools are there."""
import os, shutil, subprocess, sys
sys.dont_write_bytecode = True
import numpy
assert shutil.which("ghdl"), "ghdl missing"
print("python", sys.version.split()[0], "numpy", numpy.__version__)
print(subprocess.run(["ghdl", "--version"], capture_output=True, text=True, env=dict(os.environ, GHDL_BACKEND="gcc")).stdout.splitlines()[0])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
