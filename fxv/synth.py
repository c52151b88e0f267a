"""What a synthesis tool makes of the VHDL library: designs with many uses of its functions and components are synthesized with
ghdl --synth, and the resulting gate-level netlist is simulated."""
import os, re, shutil, subprocess, tempfile
from . import ref, harness as H, vhdl as V

class NetlistText(V.BuildError):
    """ghdl printed a netlist it does not accept itself: synthesis succeeded, its result cannot be simulated."""


BIN = {"add": "cl_fix_add", "sub": "cl_fix_sub", "mult": "cl_fix_mult"}


def F(f):
    return "(%d, %d, %d)" % f


def call(u):
    """VHDL expression (a std_logic_vector) for one use (op, a, b, r, rnd, sat, x)."""
    op, a, b, r, rnd, sat, x = u
    A = "a(%d downto 0), %s" % (ref.width(a) - 1, F(a)) if a else ""
    B = "b(%d downto 0), %s" % (ref.width(b) - 1, F(b)) if b else ""
    m = "%s, %s" % (rnd, sat)
    if op == "round":
        return "cl_fix_round(%s, %s, %s)" % (A, F(r), rnd)
    if op == "saturate":
        return "cl_fix_saturate(%s, %s, %s)" % (A, F(r), sat)
    if op in ("resize", "abs", "neg"):
        return "cl_fix_%s(%s, %s, %s)" % (op, A, F(r), m)
    if op == "shift":
        return "cl_fix_shift(%s, %d, %s, %s)" % (A, x, F(r), m)
    if op in BIN:
        return "%s(%s, %s, %s, %s)" % (BIN[op], A, B, F(r), m)
    if op == "addsub":
        return "cl_fix_addsub(%s, %s, c, %s, %s)" % (A, B, F(r), m)
    if op in ("d_add", "d_sub", "d_mult"):
        return "%s(%s, %s)" % (BIN[op[2:]], A, B)
    if op == "d_addsub":
        return "cl_fix_addsub(%s, %s, c)" % (A, B)
    if op in ("d_abs", "d_neg"):
        return "cl_fix_%s(%s)" % (op[2:], A)
    if op == "compare":
        return "bit1(cl_fix_compare(\"%s\", %s, %s))" % (x, A, B)
    if op == "in_range":
        return "bit1(cl_fix_in_range(%s, %s, %s))" % (A, F(r), rnd)
    if op == "sign":
        return "sl1(cl_fix_sign(%s))" % A
    if op == "from_real":
        return "cl_fix_from_real(%s, %s, %s)" % (x, F(r), sat)
    if op == "from_integer":
        return "cl_fix_from_integer(%d, %s)" % (x, F(r))
    if op == "max":
        return "cl_fix_max_value(%s)" % F(r)
    if op == "min":
        return "cl_fix_min_value(%s)" % F(r)
    raise KeyError(op)


HEAD = """library ieee; use ieee.std_logic_1164.all;
library work; use work.en_cl_fix_pkg.all;
"""
FUNC = """
    function bit1(x : boolean) return std_logic_vector is
    begin
        if x then return "1"; else return "0"; end if;
    end function;
    function sl1(x : std_logic) return std_logic_vector is
        variable v : std_logic_vector(0 downto 0);
    begin
        v(0) := x;
        return v;
    end function;
"""


def outwidth(u):
    return 1 if not u[3] or u[0] == "in_range" else ref.width(u[3])


def functions_top(us, wa, wb):
    """Entity top: every use of a function in its own slice of the output o."""
    n = sum(outwidth(u) for u in us)
    body, at = [], 0
    for u in us:
        w = outwidth(u)
        body.append("    o(%d downto %d) <= %s;" % (at + w - 1, at, call(u)))
        at += w
    return (HEAD + "entity top is port(a : in std_logic_vector(%d downto 0); b : in std_logic_vector(%d downto 0); c : in std_logic; o : out std_logic_vector(%d downto 0)); end entity;\n"
            "architecture rtl of top is%sbegin\n%s\nend architecture;\n" % (wa - 1, wb - 1, n - 1, FUNC, "\n".join(body)))


COMB_TB = """library ieee; use ieee.std_logic_1164.all; use std.textio.all;
entity tb is end entity;
architecture sim of tb is
    signal a : std_logic_vector({wa} downto 0); signal b : std_logic_vector({wb} downto 0); signal c : std_logic; signal o : std_logic_vector({n} downto 0);
begin
    i0 : entity work.top port map(a => a, b => b, c => c, o => o);
    process
        file f : text open read_mode is "stim.txt"; variable l, k : line; variable va : std_logic_vector(a'range); variable vb : std_logic_vector(b'range); variable vc : std_logic;
    begin
        while not endfile(f) loop
            readline(f, l); read(l, va); read(l, vb); read(l, vc);
            a <= va; b <= vb; c <= vc;
            wait for 1 ns;
            write(k, to_string(o)); writeline(OUTPUT, k);
        end loop;
        write(k, string'("END")); writeline(OUTPUT, k);
        wait;
    end process;
end architecture;
"""


def netlist(d, top, tb):
    """Synthesize top with the library, compile netlist and test bench; returns the command that runs it."""
    with open(os.path.join(d, "top.vhd"), "w") as f:
        f.write(top)
    with open(os.path.join(d, "tb.vhd"), "w") as f:
        f.write(tb)
    p = subprocess.run(["ghdl", "--synth", "--std=08", "--no-formal", "-Wno-hide", "-Wno-pragma"] + V.ordered(V.HDL) + ["top.vhd", "-e", "top"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0 or "entity top" not in p.stdout:
        raise V.BuildError(p.stderr[-3000:])
    with open(os.path.join(d, "netlist.vhd"), "w") as f:
        # ghdl prints one-bit numeric literals as characters, which it does not accept itself
        t = re.sub(r"(signed|unsigned)'\('([01X])'\)", r"\1'(0 => '\2')", p.stdout.replace("use work.en_cl_fix_pkg.all;", ""))
        f.write(re.sub(r"std_logic_vector\(-signed'\(1 => (\w+)\)\)", r"\1", t))
    try:
        V.sh(["ghdl", "-a", "-O0", "--std=08", "netlist.vhd", "tb.vhd"], d, timeout=600)
    except V.BuildError as e:
        raise NetlistText(str(e))
    V.sh(["ghdl", "-e", "--std=08", "tb"], d, timeout=600)
    return [os.path.join(d, "tb"), "--ieee-asserts=disable"]


def simulate(us, stim, wa, wb):
    """Outputs of every use for every (a, b, c) bit pattern: list (per stimulus) of lists of bit strings."""
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        n = sum(outwidth(u) for u in us)
        cmd = netlist(d, functions_top(us, wa, wb), COMB_TB.format(wa=wa - 1, wb=wb - 1, n=n - 1))
        with open(os.path.join(d, "stim.txt"), "w") as f:
            f.write("".join("%s %s %d\n" % (V.bits(x, wa), V.bits(y, wb), c) for x, y, c in stim))
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        lines = [x for x in p.stdout.split("\n") if x and set(x) <= set("01UXZWLH-")]
        if p.returncode != 0 or "\nEND" not in p.stdout or len(lines) != len(stim):
            raise V.BuildError("netlist simulation ended early: " + p.stdout[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = []
    for ln in lines:
        row, at = [], 0
        for u in us:
            w = outwidth(u)
            row.append(ln[len(ln) - at - w:len(ln) - at])
            at += w
        out.append(row)
    return out


SEQ_TB = """library ieee; use ieee.std_logic_1164.all; use std.textio.all;
entity tb is end entity;
architecture sim of tb is
    signal clk, rst, v : std_logic := '0'; signal m : std_logic_vector({mw} downto 0); signal d : std_logic_vector({w} downto 0); signal o : std_logic_vector({n} downto 0);
begin
    i0 : entity work.top port map(clk => clk, rst => rst, in_valid => v, in_meta => m, in_data => d, o => o);
    process
        file f : text open read_mode is "stim.txt"; variable l, k : line; variable vr, vv : std_logic; variable vm : std_logic_vector(m'range); variable vd : std_logic_vector(d'range);
        procedure sample is begin write(k, to_string(o)); writeline(OUTPUT, k); end procedure;
    begin
        while not endfile(f) loop
            readline(f, l); read(l, vr); read(l, vv); read(l, vm); read(l, vd);
            rst <= vr; v <= vv; m <= vm; d <= vd;
            wait for 1 ns; sample; wait for 1 ns; clk <= '0'; wait for 1 ns; sample; wait for 1 ns; clk <= '1'; wait for 1 ns; sample; wait for 1 ns;
        end loop;
        write(k, string'("END")); writeline(OUTPUT, k);
        wait;
    end process;
end architecture;
"""


def components_top(us, w, mw):
    """Entity top: components (kind, in, out, rnd, sat, register mode, meta width, check) with common inputs; outputs valid & meta & data of each."""
    n = sum(1 + mw + ref.width(u[2]) for u in us)
    body, at = [], 0
    for i, (kind, a, r, m, s, reg, _, chk) in enumerate(us):
        wr = ref.width(r)
        g = {0: "round_g => %s, fmt_check_g => %s" % (m, "true" if chk else "false"), 1: "saturate_g => %s" % s, 2: "round_g => %s, saturate_g => %s" % (m, s)}[kind]
        body.append("    i%d : entity work.en_cl_fix_%s generic map(in_fmt_g => %s, out_fmt_g => %s, %s, reg_mode_g => %s_s, meta_width_g => %d)\n"
                    "        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data, out_data => o(%d downto %d), out_meta => o(%d downto %d), out_valid => o(%d));"
                    % (i, ("round", "saturate", "resize")[kind], F(a), F(r), g, reg, mw, at + wr - 1, at, at + wr + mw - 1, at + wr, at + wr + mw))
        at += wr + mw + 1
    return (HEAD + "entity top is port(clk, rst, in_valid : in std_logic; in_meta : in std_logic_vector(%d downto 0); in_data : in std_logic_vector(%d downto 0); o : out std_logic_vector(%d downto 0)); end entity;\n"
            "architecture rtl of top is begin\n%s\nend architecture;\n" % (mw - 1, w - 1, n - 1, "\n".join(body)))


def simulate_components(us, seq):
    """For every component the list (per cycle) of its three samples "valid.meta.data"."""
    w, mw = ref.width(us[0][1]), us[0][6]
    d = tempfile.mkdtemp(prefix="fxv_")
    try:
        n = sum(1 + mw + ref.width(u[2]) for u in us)
        cmd = netlist(d, components_top(us, w, mw), SEQ_TB.format(w=w - 1, mw=mw - 1, n=n - 1))
        with open(os.path.join(d, "stim.txt"), "w") as f:
            f.write("".join("%d %d %s %s\n" % (r, v, V.bits(m, mw), V.bits(x, w)) for r, v, m, x in seq))
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        lines = [x for x in p.stdout.split("\n") if x and set(x) <= set("01UXZWLH-")]
        if p.returncode != 0 or "\nEND" not in p.stdout or len(lines) != 3 * len(seq):
            raise V.BuildError("netlist simulation ended early: " + p.stdout[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out, at = [], 0
    for u in us:
        wr = ref.width(u[2])
        hi = len(lines[0]) - at
        tok = ["%s.%s.%s" % (ln[hi - wr - mw - 1], ln[hi - wr - mw:hi - wr], ln[hi - wr:hi]) for ln in lines]
        out.append([tok[i:i + 3] for i in range(0, len(tok), 3)])
        at += wr + mw + 1
    return out
