"""The repository's own co-simulation test benches: built with GHDL and VUnit in a scratch directory, run on data sets and faults of
our choosing. Nothing is written in the repository: the benches find their data relative to the test-bench path they are given."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import harness as H, vhdl as V

OPS = ("abs", "add", "addsub", "compare", "from_real", "mult", "neg", "resize", "round", "saturate", "shift", "sub")
CLOCKED = ("resize", "round", "saturate")
PREBUILT = "/opt/vunit/main/ghdl/libraries"
VUNIT = """
import sys
from vunit import VUnit
vu = VUnit.from_argv(["--compile", "--no-color", "-o", sys.argv[1]])
vu.add_osvvm(); vu.add_verification_components(); vu.add_random()
vu.main()
"""

# A wrapper around one real clocked component (renamed *_real) that disturbs one output at one accepted sample.
WRAP = """
library ieee;
    use ieee.std_logic_1164.all;
library std;
    use std.textio.all;
library work;
    use work.en_cl_fix_pkg.all;
entity en_cl_fix_{op} is
    generic(
        in_fmt_g : FixFormat_t; out_fmt_g : FixFormat_t; {gens} reg_mode_g : RegisterMode_t; meta_width_g : natural := 0{extra}
    );
    port(
        clk : in std_logic; rst : in std_logic;
        in_valid : in std_logic; in_meta : in std_logic_vector(meta_width_g-1 downto 0) := (others => 'X'); in_data : in std_logic_vector(cl_fix_width(in_fmt_g)-1 downto 0);
        out_valid : out std_logic; out_meta : out std_logic_vector(meta_width_g-1 downto 0); out_data : out std_logic_vector(cl_fix_width(out_fmt_g)-1 downto 0)
    );
end entity;
architecture faulty of en_cl_fix_{op} is
    impure function knob(n : natural) return integer is
        file f : text; variable l : line; variable v : integer := -1;
    begin
        file_open(f, "fault.txt", read_mode);
        for i in 0 to n loop readline(f, l); read(l, v); end loop;
        file_close(f);
        return v;
    end function;
    constant kind_c : integer := knob(0);      -- 0 none, 1 data bit, 2 metadata bit, 3 valid missing, 4 data bit in one register mode
    constant at_c : integer := knob(1);
    constant bit_c : integer := knob(2);
    signal v : std_logic; signal m : std_logic_vector(meta_width_g-1 downto 0); signal d : std_logic_vector(cl_fix_width(out_fmt_g)-1 downto 0);
    signal n : natural := 0;
begin
    i_real : entity work.en_cl_fix_{op}_real
        generic map(in_fmt_g => in_fmt_g, out_fmt_g => out_fmt_g, {maps} reg_mode_g => reg_mode_g, meta_width_g => meta_width_g)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data, out_valid => v, out_meta => m, out_data => d);
    process(clk) begin
        if rising_edge(clk) and v = '1' then n <= n + 1; end if;
    end process;
    process(all)
        variable mm : std_logic_vector(meta_width_g-1 downto 0); variable dd : std_logic_vector(cl_fix_width(out_fmt_g)-1 downto 0);
    begin
        mm := m; dd := d;
        if n = at_c and kind_c = 1 then dd(dd'low + bit_c) := not dd(dd'low + bit_c); end if;
        if RegisterMode_t'pos(reg_mode_g) = at_c and kind_c = 4 then dd(dd'low + bit_c) := not dd(dd'low + bit_c); end if;
        if n = at_c and kind_c = 2 then mm(mm'low + bit_c) := not mm(mm'low + bit_c); end if;
        out_meta <= mm; out_data <= dd;
        if kind_c = 3 and n >= at_c then out_valid <= '0'; else out_valid <= v; end if;
    end process;
end architecture;
"""
GENS = {"round": ("round_g : FixRound_t;", "round_g => round_g,"), "saturate": ("saturate_g : FixSaturate_t;", "saturate_g => saturate_g,"),
        "resize": ("round_g : FixRound_t; saturate_g : FixSaturate_t;", "round_g => round_g, saturate_g => saturate_g,")}


def libraries(d):
    """-P options of vunit_lib and osvvm: the ones compiled with the repository's build if they are there, else our own."""
    def opts(root):
        return ["-P" + os.path.join(root, x) for x in ("vunit_lib", "osvvm")]

    def usable(root):
        if not os.path.isdir(os.path.join(root, "vunit_lib")):
            return False
        t = os.path.join(d, "probe"); os.makedirs(t, exist_ok=True)
        with open(t + "/probe.vhd", "w") as f:
            f.write("library osvvm; use osvvm.RandomPkg.all; library vunit_lib; context vunit_lib.vunit_context; context vunit_lib.vc_context;\n"
                    "entity probe is generic(runner_cfg : string); end; architecture a of probe is begin process variable r : RandomPType; begin test_runner_setup(runner, runner_cfg); "
                    "check_equal(1, 1, \"x\"); test_runner_cleanup(runner); wait; end process; end;\n")
        try:
            V.sh(["ghdl", "-a"] + V.OPT + opts(root) + ["probe.vhd"], t)
            V.sh(["ghdl", "-e"] + V.OPT + opts(root) + ["probe"], t)
            return True
        except Exception:
            return False
    if usable(PREBUILT):
        return opts(PREBUILT)
    out = os.path.join(d, "vunit")
    env = {k: v for k, v in os.environ.items() if not k.startswith("EN_SIM")}
    env.update(VUNIT_SIMULATOR="ghdl", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", VUNIT, out], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    root = os.path.join(out, "ghdl", "libraries")
    if not usable(root):
        raise V.BuildError("cannot compile VUnit: " + p.stdout[-2000:])
    return opts(root)


def link(d, Q, op):
    """Static and without symbols where that works: a failing run then prints its backtrace without reading debug data (20 times faster)."""
    for extra in (["-Wl,-static", "-Wl,-s"], []):
        try:
            V.sh(["ghdl", "-e"] + V.OPT + Q + extra + ["-o", "run_" + op, "cl_fix_%s_tb" % op], d)
            p = subprocess.run([os.path.join(d, "run_" + op), "--help"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            if p.returncode == 0 or not extra:
                return
        except Exception:
            if not extra:
                raise


def build():
    d = tempfile.mkdtemp(prefix="fxv_t01_")
    try:
        P = libraries(d)
        o = ["ghdl", "-a"] + V.OPT + P
        V.sh(o + ["--work=en_tb"] + V.ordered(os.path.join(H.REPO, "lib", "en_tb", "hdl")), d)
        util = V.ordered(os.path.join(H.REPO, "tb", "util"))
        good, bad = os.path.join(d, "good"), os.path.join(d, "bad")
        os.makedirs(good); os.makedirs(bad)
        # the library once as it is, once with its clocked components behind a wrapper
        src = os.path.join(d, "src"); os.makedirs(src)
        for f in V.ordered(V.HDL):
            with open(f, encoding="latin-1", newline="") as h:
                t = h.read()
            with open(os.path.join(src, os.path.basename(f)), "w", encoding="latin-1", newline="") as h:
                h.write(re.sub(r"\b(en_cl_fix_(?:round|saturate|resize))\b", r"\1_real", t, flags=re.I))
        with open(os.path.join(d, "wrap.vhd"), "w") as h:
            for op in CLOCKED:
                h.write(WRAP.format(op=op, gens=GENS[op][0], maps=GENS[op][1], extra="; fmt_check_g : boolean := true" if op == "round" else ""))
        Q = P + ["-P" + d]
        jobs = [(good, V.ordered(V.HDL) + util + [os.path.join(H.REPO, "tb", "cl_fix_%s_tb.vhd" % x) for x in OPS]),
                (bad, V.ordered(src) + [os.path.join(d, "wrap.vhd")] + util + [os.path.join(H.REPO, "tb", "cl_fix_%s_tb.vhd" % x) for x in CLOCKED])]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: V.sh(["ghdl", "-a"] + V.OPT + Q + j[1], j[0]), jobs))
            list(ex.map(lambda j: link(j[0], Q, j[1]), [(good, x) for x in OPS] + [(bad, x) for x in CLOCKED]))
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    return d


LISTS = {"abs": ("a_fmt", "r_fmt", "rnd", "sat"), "compare": ("a_fmt", "b_fmt"), "from_real": ("a_fmt", "r_fmt", "sat"), "round": ("a_fmt", "r_fmt", "rnd"),
         "saturate": ("a_fmt", "r_fmt", "sat"), "shift": ("a_fmt", "shift", "r_fmt", "rnd", "sat"), "resize": ("a_fmt", "r_fmt", "rnd", "sat"), "neg": ("a_fmt", "r_fmt", "rnd", "sat")}
BIN = ("a_fmt", "b_fmt", "r_fmt", "rnd", "sat")


class Bench:
    """One test bench with a data directory of its own."""

    def __init__(self, d, op, faulty=False):
        self.op, self.exe = op, os.path.join(d, "bad" if faulty else "good", "run_" + op)
        self.root = tempfile.mkdtemp(prefix="run_", dir=d)
        self.data = os.path.join(self.root, "bittrue", "cosim", "cl_fix_" + op, "data")
        for x in (self.data, self.root + "/tb", self.root + "/out"):
            os.makedirs(x)
        self.cfg = "active python runner : true,enabled_test_cases : test,output path : %s/out/,tb path : %s/tb/,use_color : false" % (self.root, self.root)
        self.runs = 0

    def put(self, name, lines):
        with open(os.path.join(self.data, name), "w") as f:
            f.write("".join(x + "\n" for x in ["# " + name[:-4]] + [str(x) for x in lines]))

    def fill(self, points, results):
        for f in os.listdir(self.data):
            os.remove(os.path.join(self.data, f))
        for k in LISTS.get(self.op, BIN):
            self.put(k + ".txt", [("(%d,%d,%d)" % p[k]) if k.endswith("fmt") else p[k] for p in points])
        for i, r in enumerate(results):
            for s, v in r.items():
                self.put("test%d_%s.txt" % (i, s), v)

    def run(self, fault=(0, 0, 0), meta=8, timeout=60):
        """True: passed; False: failed; plus the last lines of output."""
        self.runs += 1
        vr = os.path.join(self.root, "out", "vunit_results")
        if os.path.exists(vr):
            os.remove(vr)
        with open(os.path.join(self.root, "fault.txt"), "w") as f:
            f.write("".join("%d\n" % x for x in fault))
        cmd = [self.exe, "--max-stack-alloc=0", "--stop-time=1ms", "-grunner_cfg=" + self.cfg] + (["-gmeta_width_g=%d" % meta] if self.op in CLOCKED else [])
        try:
            p = subprocess.run(cmd, cwd=self.root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode("latin-1")
        except subprocess.TimeoutExpired:
            rc, out = -1, "no end within %d s" % timeout
        done = False
        if os.path.exists(vr):
            with open(vr) as f:
                done = "test_suite_done" in f.read()
        return rc == 0 and done, out[-500:]

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
