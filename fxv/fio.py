"""Binding to the real VHDL text-file packages (en_tb_fileio_text_pkg, en_cl_fix_fileio_pkg, en_tb_base_pkg):
a generated command driver with one case per data type, built together with the real sources and a VUnit stand-in."""
import os, shutil, subprocess, tempfile
from . import harness as H, vhdl as V

ENTB = os.path.join(H.REPO, "lib", "en_tb", "hdl")
MODES = ("ascii_bin", "ascii_dec", "ascii_hex")
# name: (VHDL type, from slv, to slv, array type, needs signedness argument)
NS, NB, SL = "ieee.numeric_std.", "ieee.numeric_bit.", "ieee.std_logic_1164."
TYPES = {
    "sstd": (NS + "signed", NS + "signed({})", "std_logic_vector({})", "SignedArray_t", False),
    "ustd": (NS + "unsigned", NS + "unsigned({})", "std_logic_vector({})", "UnsignedArray_t", False),
    "sbit": (NB + "signed", NB + "signed(to_bitvector({}))", "to_stdlogicvector(bit_vector({}))", "SignedBitArray_t", False),
    "ubit": (NB + "unsigned", NB + "unsigned(to_bitvector({}))", "to_stdlogicvector(bit_vector({}))", "UnsignedBitArray_t", False),
    "slv": ("std_logic_vector", "{}", "{}", "SlvArray_t", True),
    "bv": ("bit_vector", "to_bitvector({})", "to_stdlogicvector({})", "BitVectorArray_t", True),
    "sulv": ("std_ulogic_vector", "{}", "{}", "SulvArray_t", True),
    "int": ("integer", NS + "to_integer(" + NS + "signed({}))", "std_logic_vector(" + NS + "to_signed({}, 32))", "integer_vector", False),
    "fix": ("std_logic_vector", "{}", "{}", "SlvArray_t", None),
    "sl": ("std_logic", "{}(0)", "one({})", None, None),
    "bit": ("bit", "to_bit({}(0))", "one(to_stdulogic({}))", None, None),
}
TNUM = {t: i for i, t in enumerate(TYPES)}
OPNUM = {"wline": 0, "rline": 1, "wfile": 2, "rfile": 3, "size": 4, "wstream": 5, "rstream": 6,
         "fmt_wline": 10, "fmt_rline": 11, "fmt_wfile": 12, "fmt_rfile": 13, "fmt_stream": 14, "modes": 15, "flatten": 20, "unflatten": 21, "unflatten_f": 22, "check": 23, "check_c": 24, "vcheck": 25, "vcheck_c": 26}


def gen():
    T = "en_tb.en_tb_fileio_text_pkg."
    F = "work.en_cl_fix_fileio_pkg."
    o = []
    w = o.append
    w("""library ieee;
    use ieee.std_logic_1164.all;
library vunit_lib;
    context vunit_lib.vunit_context;
library en_tb;
    use en_tb.en_tb_base_pkg.all;
    use en_tb.en_tb_fileio_text_pkg.text_data_mode_t;
    use en_tb.en_tb_fileio_text_private_pkg.ascii_bin;
    use en_tb.en_tb_fileio_text_private_pkg.ascii_dec;
    use en_tb.en_tb_fileio_text_private_pkg.ascii_hex;
library work;
    use work.en_cl_fix_pkg.FixFormat_t;
    use work.en_cl_fix_pkg.FixFormatArray_t;
use std.textio.line;
use std.textio.text;

entity fxv_fio is
    generic(cmd_g : string := "cmd.txt");
end entity;

architecture sim of fxv_fio is
    file out_f : text open write_mode is "STD_OUTPUT";
    subtype slv_t is std_logic_vector;
    function one(x : std_ulogic) return std_logic_vector is
        variable v : std_logic_vector(0 downto 0);
    begin
        v(0) := x;
        return v;
    end function;
    function s2v(s : string) return std_logic_vector is
        variable v : std_logic_vector(s'length-1 downto 0);
    begin
        for i in 0 to s'length-1 loop
            if s(s'high-i) = '1' then v(i) := '1'; else v(i) := '0'; end if;
        end loop;
        return v;
    end function;
    function v2s(x : std_logic_vector) return string is
        constant c : std_logic_vector(x'length-1 downto 0) := x;
        variable s : string(1 to x'length);
    begin
        for i in 1 to x'length loop
            s(i) := std_logic'image(c(x'length-i))(2);
        end loop;
        return s;
    end function;
begin
    p : process
        file cmd_f : text;
        variable head_v : line;
        -- header: op type sgn mode nbits n S I F rng x y
        type ints_t is array(0 to 11) of integer;
        variable h : ints_t;
        variable chk : checker_t;

        procedure say(s : string) is
            variable l : line;
        begin
            std.textio.write(l, s);
            std.textio.writeline(out_f, l);
        end procedure;

        impure function get return string is          -- next line of the command file, without the closing '$'
            variable l : line;
        begin
            std.textio.readline(cmd_f, l);
            return l.all(1 to l.all'length-1);
        end function;

        impure function mode return text_data_mode_t is
        begin
            case h(3) is
                when 0 => return ascii_bin;
                when 1 => return ascii_dec;
                when others => return ascii_hex;
            end case;
        end function;
        impure function sgn return Signedness_t is
        begin
            if h(2) = 1 then return Signed_s; else return Unsigned_s; end if;
        end function;
        impure function ffmt return FixFormat_t is
        begin
            return (h(6), h(7), h(8));
        end function;
        impure function gets return std_logic_vector is
        begin
            return s2v(get);
        end function;
        procedure fin(variable l : inout line) is
        begin
            if l = null then say("[null]"); else say("[" & l.all & "]"); end if;
        end procedure;
        procedure state(file f : text) is          -- reports whether f is open, leaves it as it was
            variable st : file_open_status;
        begin
            file_open(st, f, "fxv_probe.txt", read_mode);
            if st = open_ok then
                file_close(f);
                say("closed");
            else
                say("open");
            end if;
        end procedure;
""")
    calls = []
    for t, (ty, frm, to, arr, sg) in TYPES.items():
        isvec = t not in ("int", "sl", "bit")
        P = F + "cl_fix_" if sg is None and t == "fix" else T
        margs = {"fix": "ffmt, mode"}.get(t, "sgn, mode" if sg else "mode")
        if t == "sulv":
            rw = "slv"       # line/stream access of std_ulogic_vector is that of std_logic_vector (same base type)
        tyd = lambda rng: ty + rng if isvec else ty
        # ---- read a line, three index ranges
        for r, rng in enumerate(["(h(4)-1 downto 0)", "(0 to h(4)-1)", "(h(4)+3 downto 4)"]):
            if not isvec and r:
                continue
            w("""        procedure rline_%s_%d is
            variable l : line;
            variable x : %s;
        begin
            l := new string'(get);
            for i in 1 to h(5) loop
                %sread(l, x, %s);
                say(v2s(%s));
            end loop;
            fin(l);
        end procedure;""" % (t, r, tyd(rng), P, margs, to.format("x")))
            calls.append("if h(0) = 1 and h(1) = %d and h(9) = %d then rline_%s_%d; done := true; end if;" % (TNUM[t], r, t, r))
            if t in ("sl", "bit"):
                continue
            # ---- write to a line that already holds text
            w("""        procedure wline_%s_%d is
            variable l : line;
            constant pre : string := get;
            constant sep : string := get;
            procedure one(v : std_logic_vector) is
                constant x : %s := %s;
            begin
                %swrite(l, x, %s);
            end procedure;
        begin
            if pre'length > 0 then
                std.textio.write(l, pre);
            end if;
            for i in 1 to h(5) loop
                one(gets);
                if i < h(5) then
                    std.textio.write(l, sep);
                end if;
            end loop;
            fin(l);
        end procedure;""" % (t, r, tyd(rng), frm.format("v"), P, margs))
            calls.append("if h(0) = 0 and h(1) = %d and h(9) = %d then wline_%s_%d; done := true; end if;" % (TNUM[t], r, t, r))
        # ---- whole files
        if arr:
            et = arr + ("(%s)(h(4)-1 downto 0)" if t != "int" else "(%s)")
            for r, (rng, step) in enumerate([("0 to n-1", "i"), ("n-1 downto 0", "n-1-i"), ("3 to n+2", "i+3")]):
                w("""        procedure wfile_%s_%d is
            constant name : string := get;
            constant head : string := get;
            constant n : natural := h(5);
            variable d : %s;
        begin
            for i in 0 to n-1 loop
                d(%s) := %s;
            end loop;
            if h(10) = 0 then
                %swrite_file(name, d, %s);
            else
                %swrite_file(name, d, %s, head);
            end if;
            say("ok");
        end procedure;""" % (t, r, (et % rng), step, frm.format("gets"), P, margs, P, margs))
                calls.append("if h(0) = 2 and h(1) = %d and h(9) = %d then wfile_%s_%d; done := true; end if;" % (TNUM[t], r, t, r))
            rargs = {"fix": "ffmt, mode", "int": "mode"}.get(t, "h(4), sgn, mode" if sg else "h(4), mode")
            w("""        procedure rfile_%s is
            constant name : string := get;
            procedure show(d : %s) is
            begin
                say(integer'image(d'length));
                if d'length > 0 then
                    say(integer'image(d'left) & " " & integer'image(d'right));
                end if;
                for i in d'range loop
                    say(v2s(%s));
                end loop;
            end procedure;
        begin
            if h(10) < 0 then
                show(%sread_file(name, %s));
            else
                show(%sread_file(name, %s, h(10)));
            end if;
        end procedure;""" % (t, arr, to.format("d(i)"), P, rargs, P, rargs))
            calls.append("if h(0) = 3 and h(1) = %d then rfile_%s; done := true; end if;" % (TNUM[t], t))
        # ---- streams
        if t != "sulv":
            if t != "int" and t not in ("sl", "bit"):
                w("""        procedure wstream_%s is
            file f : text;
            constant name : string := get;
            procedure one(v : std_logic_vector) is
                constant x : %s := %s;
            begin
                %swrite(f, x, %s);
            end procedure;
        begin
            file_open(f, name, write_mode);
            for i in 1 to h(5) loop
                one(gets);
            end loop;
            file_close(f);
            say("ok");
        end procedure;""" % (t, tyd("(h(4)-1 downto 0)"), frm.format("v"), P, margs))
                calls.append("if h(0) = 5 and h(1) = %d then wstream_%s; done := true; end if;" % (TNUM[t], t))
            if t == "fix":
                proc = None
                fargs = "ffmt, mode"
            else:
                proc = T + "read(f, x, %s, skip, close);" % ("sgn, mode" if sg else "mode")
                fargs = {"int": "mode"}.get(t, "sgn, h(4), mode" if sg or t in ("sl", "bit") else "h(4), mode")
            fn = P + "read(f, %s, skip, close)" % fargs
            fn0 = P + "read(f, %s)" % fargs
            pr0 = (T + "read(f, x, %s);" % ("sgn, mode" if sg else "mode")) if proc else "x := %s;" % fn0
            w("""        procedure rstream_%s is
            file f : text;
            constant name : string := get;
            variable x : %s;
            variable opened : boolean := false;
            variable skip : natural;
            variable close : boolean;
        begin
            for i in 1 to h(5) loop
                if not opened then
                    file_open(f, name, read_mode);
                    opened := true;
                end if;
                -- one symbol per step: form (p/f/d/g), skip digit, close flag
                iter : for once in 0 to 0 loop
                    step : block_read(get);
                end loop;
            end loop;
        end procedure;""".replace("""                iter : for once in 0 to 0 loop
                    step : block_read(get);
                end loop;
""", """                opened := not step(get);
                say(v2s(%s));
                state(f);
            end loop;
            if opened then
                file_close(f);
            end if;
            for i in 1 to 0 loop
""").replace("        begin\n            for i in 1", """            impure function step(s : string) return boolean is   -- true when the call was asked to close the file
            begin
                skip := character'pos(s(2)) - 48;
                close := s(3) = '1';
                case s(1) is
                    when 'p' => %s
                    when 'f' => x := %s;
                    when 'd' => %s
                    when others => x := %s;
                end case;
                return close and (s(1) = 'p' or s(1) = 'f');
            end function;
        begin
            for i in 1""", 1) % (t, tyd("(h(4)-1 downto 0)"), proc or "x := %s;" % fn, fn, pr0, fn0, to.format("x")))
            calls.append("if h(0) = 6 and h(1) = %d then rstream_%s; done := true; end if;" % (TNUM[t], t))
        # ---- array helpers
        if arr and t not in ("int", "fix"):
            w("""        procedure arr_%s is
            constant n : natural := h(5);
            variable a, b : %s(0 to n-1)(h(4)-1 downto 0);
            variable b2 : %s(0 to h(10)-1)(h(11)-1 downto 0);
            variable d : %s(n-1 downto 0)(h(4)-1 downto 0);
            variable fl : %s(n*h(4)-1 downto 0);
            variable fa : %s(5 to n*h(4)+4);
            variable x : %s(h(4)-1 downto 0);
            variable y : %s(h(11)-1 downto 0);
        begin
            chk.id := 7;
            case h(0) is
                when 20 =>
                    for i in 0 to n-1 loop
                        a(i) := %s;
                        d(i) := a(i);
                    end loop;
                    say(integer'image(Numel(a)));
                    fl := Flatten(a);
                    say(v2s(%s));
                    fl := Flatten(d);
                    say(v2s(%s));
                when 21 =>
                    fl := %s;
                    fa := fl;
                    Unflatten(fl, a);
                    Unflatten(fa, d);
                    b := Unflatten(fl, a);
                    for i in 0 to n-1 loop
                        say(v2s(%s) & " " & v2s(%s) & " " & v2s(%s));
                    end loop;
                when 23 | 24 =>
                    for i in 0 to n-1 loop
                        a(i) := %s;
                    end loop;
                    for i in 0 to h(10)-1 loop
                        b2(i) := %s;
                    end loop;
                    if h(0) = 23 then check_equal(a, b2, "m"); else check_equal(chk, a, b2, "m"); end if;
                    say("pass");
                when others =>
                    x := %s;
                    y := %s;
                    if h(0) = 25 then check_equal(x, y, "m"); else check_equal(chk, x, y, "m"); end if;
                    say("pass");
            end case;
        end procedure;""" % (t, arr, arr, arr, ty, ty, ty, ty, frm.format("gets"), to.format("fl"), to.format("fl"), frm.format("gets"),
                             to.format("a(i)"), to.format("d(i)"), to.format("b(i)"), frm.format("gets"), frm.format("gets"), frm.format("gets"), frm.format("gets")))
            calls.append("if h(0) >= 20 and h(1) = %d then arr_%s; done := true; end if;" % (TNUM[t], t))
    w("""        procedure formats is
            procedure show(f : FixFormat_t) is
            begin
                say(integer'image(f.S) & " " & integer'image(f.I) & " " & integer'image(f.F));
            end procedure;
            impure function getf return FixFormat_t is
                variable l : line;
                variable f : FixFormat_t;
                variable i : integer;
            begin
                std.textio.readline(cmd_f, l);
                std.textio.read(l, i); f.S := i;
                std.textio.read(l, i); f.I := i;
                std.textio.read(l, i); f.F := i;
                return f;
            end function;
            procedure wfile(n : natural) is
                variable d : FixFormatArray_t(0 to n-1);
                constant name : string := get;
            begin
                for i in 0 to n-1 loop
                    d(i) := getf;
                end loop;
                work.en_cl_fix_fileio_pkg.cl_fix_write_format_file(name, d);
                say("ok");
            end procedure;
            procedure rfile(d : FixFormatArray_t) is
            begin
                say(integer'image(d'length));
                for i in d'range loop
                    show(d(i));
                end loop;
            end procedure;
            procedure stream is
                file f : text;
                constant name : string := get;
                variable opened : boolean := false;
                variable x : FixFormat_t;
                impure function step(s : string) return boolean is
                begin
                    if s(1) = 'f' then
                        x := work.en_cl_fix_fileio_pkg.cl_fix_read_format(f, character'pos(s(2)) - 48, s(3) = '1');
                        return s(3) = '1';
                    end if;
                    x := work.en_cl_fix_fileio_pkg.cl_fix_read_format(f);
                    return false;
                end function;
            begin
                for i in 1 to h(5) loop
                    if not opened then
                        file_open(f, name, read_mode);
                        opened := true;
                    end if;
                    opened := not step(get);
                    show(x);
                    state(f);
                end loop;
                if opened then
                    file_close(f);
                end if;
            end procedure;
            procedure wstream is
                file f : text;
                constant name : string := get;
            begin
                file_open(f, name, write_mode);
                for i in 1 to h(5) loop
                    work.en_cl_fix_fileio_pkg.cl_fix_write_format(f, getf);
                end loop;
                file_close(f);
                say("ok");
            end procedure;
            variable l : line;
            variable f : FixFormat_t;
        begin
            case h(0) is
                when 10 =>
                    std.textio.write(l, get);
                    work.en_cl_fix_fileio_pkg.cl_fix_write_format(l, getf);
                    fin(l);
                when 11 =>
                    l := new string'(get);
                    work.en_cl_fix_fileio_pkg.cl_fix_read_format(l, f);
                    show(f);
                    fin(l);
                when 12 =>
                    if h(10) = 1 then wstream; else wfile(h(5)); end if;
                when 13 =>
                    if h(10) < 0 then
                        rfile(work.en_cl_fix_fileio_pkg.cl_fix_read_format_file(get));
                    else
                        rfile(work.en_cl_fix_fileio_pkg.cl_fix_read_format_file(get, h(10)));
                    end if;
                when 15 =>
                    if h(10) = 0 then
                        say(work.en_cl_fix_pkg.FixRound_t'image(work.en_cl_fix_pkg.FixRound_t'val(h(11))));
                    else
                        say(work.en_cl_fix_pkg.FixSaturate_t'image(work.en_cl_fix_pkg.FixSaturate_t'val(h(11))));
                    end if;
                when others => stream;
            end case;
        end procedure;
        procedure sizes is
            constant name : string := get;
        begin
            say(integer'image(en_tb.en_tb_fileio_text_pkg.get_file_size_lines(name)));
            if h(10) < 0 then
                say(integer'image(en_tb.en_tb_fileio_text_pkg.get_file_size_columns(name)));
            else
                say(integer'image(en_tb.en_tb_fileio_text_pkg.get_file_size_columns(name, h(10), mode)));
            end if;
        end procedure;
        variable done : boolean;
    begin
        file_open(cmd_f, cmd_g, read_mode);
        while not std.textio.endfile(cmd_f) loop
            std.textio.readline(cmd_f, head_v);
            for i in h'range loop
                std.textio.read(head_v, h(i));
            end loop;
            done := false;
""")
    for c in calls:
        w("            " + c)
    w("""            if h(0) >= 10 and h(0) < 20 then formats; done := true; end if;
            if h(0) = 4 then sizes; done := true; end if;
            assert done report "FXVBADCMD" severity failure;
            say("$");
        end loop;
        say("END");
        wait;
    end process;
end architecture;
""")
    return "\n".join(o)


def build():
    d = tempfile.mkdtemp(prefix="fxv_")
    o = ["-O1"] + V.OPT
    try:
        with open(os.path.join(d, "fxv_fio.vhd"), "w") as f:
            f.write(gen())
        stub = os.path.join(H.VERIF, "vhdl", "vunit_stub.vhd")
        L = V.ordered(ENTB)
        V.sh(["ghdl", "-a"] + o + ["--work=vunit_lib", stub], d)
        V.sh(["ghdl", "-a"] + o + ["--work=en_tb"] + L, d)
        V.sh(["ghdl", "-a"] + o + V.ordered(V.HDL) + V.ordered(os.path.join(H.REPO, "tb", "util")), d)
        V.sh(["ghdl", "-a", "-O0"] + V.OPT + ["fxv_fio.vhd"], d)
        V.sh(["ghdl", "-e"] + o + ["fxv_fio"], d)
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    return d, os.path.join(d, "fxv_fio")


def head(op, t="slv", sgn=0, mode=0, nbits=1, n=1, fmt=(0, 0, 0), rng=0, x=0, y=0):
    return " ".join(str(int(v)) for v in [OPNUM[op], TNUM[t], sgn, mode, nbits, n] + list(fmt) + [rng, x, y])


def run(exe, cmds, cwd, timeout=3600 if H.THOROUGH else 300):
    """cmds: list of lists of lines (header + payload lines; payload lines get a closing '$').  Returns list of output-line lists
    (None for commands after an abort), and the raw tail."""
    with open(os.path.join(cwd, "cmd.txt"), "w") as f:
        for c in cmds:
            f.write(c[0] + "\n")
            for l in c[1:]:
                f.write(l + "$\n")
    open(os.path.join(cwd, "fxv_probe.txt"), "w").close()
    p = subprocess.run([exe, "--ieee-asserts=disable"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out, cur, ended = [], [], False
    text = p.stdout.decode("latin-1")
    for ln in text.split("\n"):
        if ln == "$":
            out.append(cur)
            cur = []
        elif ln == "END":
            ended = True
            break
        elif not V.ASSERT.match(ln):
            cur.append(ln)
    tail = "" if ended else "\n".join(text.split("\n")[-8:])
    return out, tail
