-- Command-driven harness around the public API of en_cl_fix_pkg.  One command per line, all integers:
--   op aS aI aF bS bI bF rS rI rF rnd sat x dir sep n   followed by n operand groups
-- Operand groups follow on lines of their own.  sep=1: newline after every result (so assertion warnings can be attributed to single values).
-- n=-1: all values of a (unary) or all pairs (binary).  n=-2: a is the previous result, one b operand follows.
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
use std.textio.all;
library work;
    use work.en_cl_fix_pkg.all;
    use work.fxv_txt.all;

entity fxv_driver is
    generic(cmd_g : string := "cmd.txt");
end entity;

architecture sim of fxv_driver is
    file cmd_f : text;

    function rs(fmt : FixFormat_t) return string is
    begin
        return integer'image(fmt.S) & "," & integer'image(fmt.I) & "," & integer'image(fmt.F);
    end function;

    function bs(b : boolean) return string is
    begin
        if b then return "1"; else return "0"; end if;
    end function;

    function mkreal(hi, lo, e : integer) return real is
        variable r : real := real(hi) * 2.0**26 + real(lo);
        variable n : integer := e;
    begin
        while n > 500 loop r := r * 2.0**500; n := n - 500; end loop;
        while n < -500 loop r := r * 2.0**(-500); n := n + 500; end loop;
        return r * 2.0**n;
    end function;

    function relation(i : integer) return string is
    begin
        case i is
            when 0 => return "=";
            when 1 => return "!=";
            when 2 => return "<";
            when 3 => return ">";
            when 4 => return "<=";
            when 5 => return ">=";
            when 6 => return "==";
            when 7 => return "/=";
            when 8 => return "<>";
            when 9 => return "=<";
            when 10 => return "=>";
            when 11 => return " =";
            when 12 => return "";
            when 13 => return "<<";
            when 14 => return "! ";
            when 15 => return "< ";
            when 16 => return "lt";
            when 17 => return "!";
            when 18 => return "<=>";
            when others => return "=!";
        end case;
    end function;

    -- Apply one operation. The result is returned as text.
    function exec(op : integer; a : std_logic_vector; af : FixFormat_t; b : std_logic_vector; bf : FixFormat_t;
                  rf : FixFormat_t; rnd : FixRound_t; sat : FixSaturate_t; x : integer) return string is
    begin
        case op is
            when 0  => return to_string(cl_fix_round(a, af, rf, rnd));
            when 1  => return to_string(cl_fix_saturate(a, af, rf, sat));
            when 2  => return to_string(cl_fix_resize(a, af, rf, rnd, sat));
            when 3  => return bs(cl_fix_in_range(a, af, rf, rnd));
            when 4  => return to_string(cl_fix_abs(a, af, rf, rnd, sat));
            when 5  => return to_string(cl_fix_neg(a, af, rf, rnd, sat));
            when 6  => return to_string(cl_fix_add(a, af, b, bf, rf, rnd, sat));
            when 7  => return to_string(cl_fix_sub(a, af, b, bf, rf, rnd, sat));
            when 8  => return to_string(cl_fix_addsub(a, af, b, bf, '1', rf, rnd, sat));
            when 9  => return to_string(cl_fix_addsub(a, af, b, bf, '0', rf, rnd, sat));
            when 10 => return to_string(cl_fix_mult(a, af, b, bf, rf, rnd, sat));
            when 11 => return to_string(cl_fix_shift(a, af, x, rf, rnd, sat));
            when 12 => return bs(cl_fix_compare("=", a, af, b, bf)) & bs(cl_fix_compare("!=", a, af, b, bf))
                            & bs(cl_fix_compare("<", a, af, b, bf)) & bs(cl_fix_compare(">", a, af, b, bf))
                            & bs(cl_fix_compare("<=", a, af, b, bf)) & bs(cl_fix_compare(">=", a, af, b, bf));
            when 14 => return bs(cl_fix_compare(relation(x), a, af, b, bf));
            when 13 => return std_logic'image(cl_fix_sign(a, af))(2 to 2);
            when 16 => return to_string(cl_fix_to_real(a, af), "%.17e");
            when 17 => return integer'image(cl_fix_to_integer(a, af));
            when 18 => return to_string(a, af);                     -- text form of a value
            when 19 => return to_string(cl_fix_from_real(cl_fix_to_real(a, af), af));
            when 20 => return to_string(cl_fix_from_integer(cl_fix_to_integer(a, af), af));
            -- defaults
            when 30 => return to_string(cl_fix_round(a, af, rf));
            when 31 => return to_string(cl_fix_saturate(a, af, rf));
            when 32 => return to_string(cl_fix_resize(a, af, rf));
            when 33 => return bs(cl_fix_in_range(a, af, rf));
            when 34 => return to_string(cl_fix_abs(a, af));
            when 35 => return to_string(cl_fix_neg(a, af));
            when 36 => return to_string(cl_fix_add(a, af, b, bf));
            when 37 => return to_string(cl_fix_sub(a, af, b, bf));
            when 38 => return to_string(cl_fix_addsub(a, af, b, bf, 'H'));
            when 39 => return to_string(cl_fix_addsub(a, af, b, bf, 'L'));
            when 40 => return to_string(cl_fix_mult(a, af, b, bf));
            when 41 => return to_string(cl_fix_shift(a, af, x, rf));
            when 42 => return to_string(cl_fix_round(a, af, rf, rnd, false));  -- format check off
            when 46 => return to_string(cl_fix_add(a, af, b, bf, rf));
            when 47 => return to_string(cl_fix_sub(a, af, b, bf, rf));
            when 48 => return to_string(cl_fix_addsub(a, af, b, bf, '1', rf));
            when 49 => return to_string(cl_fix_addsub(a, af, b, bf, '0', rf));
            when 50 => return to_string(cl_fix_mult(a, af, b, bf, rf));
            when 44 => return to_string(cl_fix_abs(a, af, rf));
            when 45 => return to_string(cl_fix_neg(a, af, rf));
            when others => report "unknown op" severity failure; return "";
        end case;
    end function;

    -- Same, with the operand in a different index range / with weak drive strengths
    function exec_dir(dir : integer; op : integer; a : std_logic_vector; af : FixFormat_t; b : std_logic_vector; bf : FixFormat_t;
                  rf : FixFormat_t; rnd : FixRound_t; sat : FixSaturate_t; x : integer) return string is
        variable aup : std_logic_vector(0 to a'length-1) := a;
        variable bup : std_logic_vector(0 to b'length-1) := b;
        variable aof : std_logic_vector(a'length+6 downto 7) := a;
        variable bof : std_logic_vector(3 to b'length+2) := b;
    begin
        case dir is
            when 1 => return exec(op, aup, af, bup, bf, rf, rnd, sat, x);
            when 2 => return exec(op, aof, af, bof, bf, rf, rnd, sat, x);
            when 3 =>
                for i in aup'range loop
                    if aup(i) = '1' then aup(i) := 'H'; else aup(i) := 'L'; end if;
                end loop;
                return exec(op, aup, af, bup, bf, rf, rnd, sat, x);
            when others => return exec(op, a, af, b, bf, rf, rnd, sat, x);
        end case;
    end function;

    function fmtop(op : integer; af, bf : FixFormat_t; x, y : integer; rnd : FixRound_t; sat : FixSaturate_t; rf : FixFormat_t) return string is
    begin
        case op is
            when 60 => return rs(cl_fix_add_fmt(af, bf));
            when 61 => return rs(cl_fix_sub_fmt(af, bf));
            when 62 => return rs(cl_fix_addsub_fmt(af, bf));
            when 63 => return rs(cl_fix_mult_fmt(af, bf));
            when 64 => return rs(cl_fix_neg_fmt(af));
            when 65 => return rs(cl_fix_abs_fmt(af));
            when 66 => return rs(cl_fix_shift_fmt(af, x, y));
            when 67 => return rs(cl_fix_shift_fmt(af, x));
            when 68 => return rs(cl_fix_round_fmt(af, x, rnd));
            when 69 => return rs(choose(x > 0, af, bf));
            when 70 => return integer'image(cl_fix_width(af));
            when 71 => return to_string(cl_fix_max_value(af));
            when 72 => return to_string(cl_fix_min_value(af));
            when 73 => return to_string(af);
            when 74 => return rs(cl_fix_format_from_string(to_string(af)));
            when 75 => return to_string(rnd) & "," & to_string(cl_fix_round_from_string(to_string(rnd))) & "," & bs(cl_fix_round_from_string(to_string(rnd)) = rnd);
            when 76 => return to_string(sat) & "," & to_string(cl_fix_saturate_from_string(to_string(sat))) & "," & bs(cl_fix_saturate_from_string(to_string(sat)) = sat);
            when 77 => return integer'image(cl_fix_recommended_pipelining(af, cl_fix_round_fmt(af, x, rnd), rnd));
            when 78 => return integer'image(cl_fix_recommended_pipelining(af, rf, sat));
            when 80 => return integer'image(cl_fix_recommended_pipelining(af, rf, rnd));
            when 81 => return integer'image(cl_fix_recommended_pipelining(af, rf, rnd, false));
            when 79 => return integer'image(cl_fix_recommended_pipelining(af, rf, rnd, sat));
            when others => report "unknown op" severity failure; return "";
        end case;
    end function;

begin
    p_main : process
        variable l      : line;
        variable op, x, y, z, rn, sa, dir, sep, n : integer;
        variable af, bf, rf : FixFormat_t;
        variable acc    : line;

        procedure rdf(f : out FixFormat_t) is
            variable s, i, fr : integer;
        begin
            read(l, s); read(l, i); read(l, fr);
            f := (s, i, fr);
        end procedure;

        procedure emit(s : string) is
        begin
            if sep = 1 then
                write(OUTPUT, s & LF);
            else
                write(OUTPUT, s & ' ');
            end if;
        end procedure;

        procedure rdv(v : out std_logic_vector) is
        begin
            if v'length > 0 then
                read(l, v);
            end if;
        end procedure;

        procedure rdstr(s : out string; len : out natural) is
            variable c : character;
            variable ok : boolean := true;
            variable k : natural := 0;
        begin
            read(l, c);  -- one separating space
            while l'length > 0 loop
                read(l, c);
                k := k + 1;
                s(k) := c;
            end loop;
            len := k;
        end procedure;

        procedure one(wa, wb : natural; binary : boolean) is
            variable a : std_logic_vector(wa-1 downto 0);
            variable b : std_logic_vector(wb-1 downto 0);
            variable r : FixRound_t := FixRound_t'val(rn);
            variable s : FixSaturate_t := FixSaturate_t'val(sa);
        begin
            if n = -1 then
                for i in integer range 0 to 2**wa-1 loop
                    a := std_logic_vector(to_unsigned(i, wa));
                    if binary then
                        for j in integer range 0 to 2**wb-1 loop
                            b := std_logic_vector(to_unsigned(j, wb));
                            emit(exec_dir(dir, op, a, af, b, bf, rf, r, s, x));
                        end loop;
                    else
                        emit(exec_dir(dir, op, a, af, b, bf, rf, r, s, x));
                    end if;
                end loop;
            elsif n = -2 then
                for i in 1 to wa loop
                    if acc(acc'low+i-1) = '1' then a(wa-i) := '1'; else a(wa-i) := '0'; end if;
                end loop;
                if binary then readline(cmd_f, l); rdv(b); end if;
                deallocate(acc);
                acc := new string'(exec_dir(dir, op, a, af, b, bf, rf, r, s, x));
                emit(acc.all);
            else
                for k in 1 to n loop
                    readline(cmd_f, l);
                    rdv(a);
                    if binary then rdv(b); end if;
                    if dir = 9 then          -- start of a chain
                        deallocate(acc);
                        acc := new string'(exec(op, a, af, b, bf, rf, r, s, x));
                        emit(acc.all);
                    else
                        emit(exec_dir(dir, op, a, af, b, bf, rf, r, s, x));
                    end if;
                end loop;
            end if;
        end procedure;

        variable str    : string(1 to 4000);
        variable len    : natural;
        variable hi, lo, e : integer;
    begin
        file_open(cmd_f, cmd_g, read_mode);
        acc := new string'("");
        while not endfile(cmd_f) loop
            readline(cmd_f, l);
            read(l, op);
            rdf(af); rdf(bf); rdf(rf);
            read(l, rn); read(l, sa); read(l, x); read(l, dir); read(l, sep); read(l, n);
            if op >= 60 and op < 90 then
                y := dir;
                emit(fmtop(op, af, bf, x, y, FixRound_t'val(rn), FixSaturate_t'val(sa), rf));
            elsif op = 90 then      -- from_real
                for k in 1 to n loop
                    readline(cmd_f, l);
                    read(l, hi); read(l, lo); read(l, e);
                    if x = 1 then
                        emit(to_string(cl_fix_from_real(mkreal(hi, lo, e), rf)));
                    else
                        emit(to_string(cl_fix_from_real(mkreal(hi, lo, e), rf, FixSaturate_t'val(sa))));
                    end if;
                end loop;
            elsif op = 91 then      -- from_integer
                for k in 1 to n loop
                    readline(cmd_f, l);
                    read(l, hi);
                    emit(to_string(cl_fix_from_integer(hi, rf)));
                end loop;
            elsif op = 92 then      -- format from arbitrary text
                rdstr(str, len);
                emit(rs(cl_fix_format_from_string(str(1 to len))));
            elsif op = 93 then
                rdstr(str, len);
                emit(to_string(cl_fix_round_from_string(str(1 to len))));
            elsif op = 94 then
                rdstr(str, len);
                emit(to_string(cl_fix_saturate_from_string(str(1 to len))));
            elsif (op >= 6 and op <= 10) or op = 12 or op = 14 or (op >= 36 and op <= 40) or (op >= 46 and op <= 50) then
                one(cl_fix_width(af), cl_fix_width(bf), true);
            else
                one(cl_fix_width(af), 0, false);
            end if;
            write(OUTPUT, "$" & LF);
        end loop;
        write(OUTPUT, "END" & LF);
        wait;
    end process;
end architecture;
