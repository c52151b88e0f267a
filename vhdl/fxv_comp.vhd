-- One pipelined component (round / saturate / resize) driven cycle by cycle from a file of "rst valid meta data" lines.
-- Three samples per clock cycle: after the rising edge with the old inputs, after the inputs changed, after the falling edge.
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
use std.textio.all;
library work;
    use work.en_cl_fix_pkg.all;
    use work.fxv_txt.all;

entity fxv_comp is
    generic(
        cmd_g : string := "cmd.txt";
        kind_g : integer := 0;
        aS : integer := 0; aI : integer := 1; aF : integer := 1;
        rS : integer := 0; rI : integer := 1; rF : integer := 1;
        rnd_g : integer := 0; sat_g : integer := 0; reg_g : integer := 0; meta_g : natural := 0; check_g : integer := 1
    );
end entity;

architecture sim of fxv_comp is
    constant a_c : FixFormat_t := (aS, aI, aF);
    constant r_c : FixFormat_t := (rS, rI, rF);
    file cmd_f : text;
    signal clk, rst, in_valid, out_valid : std_logic := '0';
    signal in_meta, out_meta : std_logic_vector(meta_g-1 downto 0);
    signal in_data : std_logic_vector(cl_fix_width(a_c)-1 downto 0);
    signal out_data : std_logic_vector(cl_fix_width(r_c)-1 downto 0);

    function reg_mode(i : integer) return RegisterMode_t is
    begin
        case i is
            when 0 => return Auto_s;
            when 1 => return Yes_s;
            when others => return No_s;
        end case;
    end function;
begin
    g0 : if kind_g = 0 generate
        i0 : entity work.en_cl_fix_round
            generic map(in_fmt_g => a_c, out_fmt_g => r_c, round_g => FixRound_t'val(rnd_g), reg_mode_g => reg_mode(reg_g), meta_width_g => meta_g, fmt_check_g => check_g = 1)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data, out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g1 : if kind_g = 1 generate
        i1 : entity work.en_cl_fix_saturate
            generic map(in_fmt_g => a_c, out_fmt_g => r_c, saturate_g => FixSaturate_t'val(sat_g), reg_mode_g => reg_mode(reg_g), meta_width_g => meta_g)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data, out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g2 : if kind_g = 2 generate
        i2 : entity work.en_cl_fix_resize
            generic map(in_fmt_g => a_c, out_fmt_g => r_c, round_g => FixRound_t'val(rnd_g), saturate_g => FixSaturate_t'val(sat_g), reg_mode_g => reg_mode(reg_g), meta_width_g => meta_g)
            port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data, out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;

    p_main : process
        variable l : line;
        variable r, v : std_logic;
        variable m : std_logic_vector(meta_g-1 downto 0);
        variable d : std_logic_vector(in_data'range);

        procedure sample is
        begin
            write(OUTPUT, std_logic'image(out_valid)(2) & '.' & to_string(out_meta) & '.' & to_string(out_data) & LF);
        end procedure;
    begin
        file_open(cmd_f, cmd_g, read_mode);
        while not endfile(cmd_f) loop
            readline(cmd_f, l);
            read(l, r); read(l, v);
            if meta_g > 0 then read(l, m); end if;
            read(l, d);
            rst <= r; in_valid <= v; in_meta <= m; in_data <= d;
            wait for 1 ns;
            sample;                 -- clock high, new inputs
            wait for 1 ns;
            clk <= '0';
            wait for 1 ns;
            sample;                 -- clock low
            wait for 1 ns;
            clk <= '1';
            wait for 1 ns;
            sample;                 -- after the rising edge
            write(OUTPUT, "$" & LF);
            wait for 1 ns;
        end loop;
        write(OUTPUT, "END" & LF);
        wait;
    end process;
end architecture;
