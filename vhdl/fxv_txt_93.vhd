-- What the drivers need from the language and VHDL-93 does not have: text forms and reading of vectors.
library ieee;
    use ieee.std_logic_1164.all;
use std.textio.all;

package fxv_txt is
    function to_string(v : std_logic_vector) return string;
    function to_string(x : real; fmt : string) return string;
    procedure read(l : inout line; v : out std_logic_vector);
    procedure read(l : inout line; v : out std_logic);
end package;

package body fxv_txt is
    function to_string(v : std_logic_vector) return string is
        variable s : string(1 to v'length);
        variable k : natural := 0;
        variable c : string(1 to 3);
    begin
        for i in v'range loop
            k := k + 1;
            c := std_logic'image(v(i));
            s(k) := c(2);
        end loop;
        return s;
    end function;

    -- exact: as a sum of two integers times a power of two (the reader takes any text that denotes the number)
    function to_string(x : real; fmt : string) return string is
        variable m : real := abs(x);
        variable e : integer := 0;
        variable hi, lo : integer;
    begin
        if x /= x then return "nan"; end if;
        if m > 1.0e308 and m * 0.5 = m then return "inf"; end if;
        if m /= 0.0 then
            while m >= 2.0**53 loop m := m * 0.5; e := e + 1; end loop;
            while m < 2.0**52 loop m := m * 2.0; e := e - 1; end loop;
        end if;
        hi := integer(m * 2.0**(-26) - 0.5);            -- floor, up to the correction below
        if real(hi) * 2.0**26 > m then hi := hi - 1; end if;
        lo := integer(m - real(hi) * 2.0**26);
        if x < 0.0 then
            return "-:" & integer'image(hi) & ":" & integer'image(lo) & ":" & integer'image(e);
        end if;
        return "+:" & integer'image(hi) & ":" & integer'image(lo) & ":" & integer'image(e);
    end function;

    procedure read(l : inout line; v : out std_logic) is
        variable c : character := ' ';
    begin
        while c = ' ' loop
            read(l, c);
        end loop;
        case c is
            when '0' => v := '0';
            when '1' => v := '1';
            when 'L' => v := 'L';
            when 'H' => v := 'H';
            when 'Z' => v := 'Z';
            when 'X' => v := 'X';
            when 'U' => v := 'U';
            when 'W' => v := 'W';
            when others => v := '-';
        end case;
    end procedure;

    procedure read(l : inout line; v : out std_logic_vector) is
        variable r : std_logic_vector(1 to v'length);
    begin
        for i in r'range loop
            read(l, r(i));
        end loop;
        v := r;
    end procedure;
end package body;
