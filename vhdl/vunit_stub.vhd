-- Minimal stand-in for the parts of VUnit that en_tb_base_pkg refers to (so that the real packages can be analysed
-- without building VUnit).  A failed check stops the simulation, as VUnit's does by default.
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
package fxv_stub_pkg is
    type checker_t is record
        id : integer;
    end record;
    procedure check_equal(checker : checker_t; got, expected : std_logic_vector; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : unsigned; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : signed; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : integer; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : std_logic; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : boolean; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : string; msg : string := "");
    procedure check_equal(got, expected : std_logic_vector; msg : string := "");
    procedure check_equal(got, expected : unsigned; msg : string := "");
    procedure check_equal(got, expected : signed; msg : string := "");
    procedure check_equal(got, expected : integer; msg : string := "");
    procedure check_equal(got, expected : std_logic; msg : string := "");
    procedure check_equal(got, expected : boolean; msg : string := "");
    procedure check_equal(got, expected : string; msg : string := "");
    procedure check(checker : checker_t; expr : boolean; msg : string := "");
    procedure check(expr : boolean; msg : string := "");
    procedure check_true(checker : checker_t; expr : boolean; msg : string := "");
    procedure check_true(expr : boolean; msg : string := "");
    procedure check_false(checker : checker_t; expr : boolean; msg : string := "");
    procedure check_false(expr : boolean; msg : string := "");
    procedure check_relation(checker : checker_t; expr : boolean; msg : string := "");
    procedure check_relation(expr : boolean; msg : string := "");
    procedure check_failed(checker : checker_t; msg : string := "");
    procedure check_failed(msg : string := "");
    procedure check_passed(checker : checker_t; msg : string := "");
    procedure check_passed(msg : string := "");
    procedure debug(msg : string);
    procedure info(msg : string);
    procedure warning(msg : string);
    procedure error(msg : string);
    procedure failure(msg : string);
end package;

package body fxv_stub_pkg is
    procedure fail(ok : boolean; msg : string; id : integer := 0) is
    begin
        assert ok report "FXVFAIL id=" & integer'image(id) & " " & msg severity failure;
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : std_logic_vector; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(checker : checker_t; got, expected : unsigned; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(checker : checker_t; got, expected : signed; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(checker : checker_t; got, expected : integer; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(checker : checker_t; got, expected : std_logic; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(checker : checker_t; got, expected : boolean; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(checker : checker_t; got, expected : string; msg : string := "") is begin fail(got = expected, msg, checker.id); end procedure;
    procedure check_equal(got, expected : std_logic_vector; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check_equal(got, expected : unsigned; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check_equal(got, expected : signed; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check_equal(got, expected : integer; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check_equal(got, expected : std_logic; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check_equal(got, expected : boolean; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check_equal(got, expected : string; msg : string := "") is begin fail(got = expected, msg); end procedure;
    procedure check(checker : checker_t; expr : boolean; msg : string := "") is begin fail(expr, msg, checker.id); end procedure;
    procedure check(expr : boolean; msg : string := "") is begin fail(expr, msg); end procedure;
    procedure check_true(checker : checker_t; expr : boolean; msg : string := "") is begin fail(expr, msg, checker.id); end procedure;
    procedure check_true(expr : boolean; msg : string := "") is begin fail(expr, msg); end procedure;
    procedure check_false(checker : checker_t; expr : boolean; msg : string := "") is begin fail(not expr, msg, checker.id); end procedure;
    procedure check_false(expr : boolean; msg : string := "") is begin fail(not expr, msg); end procedure;
    procedure check_relation(checker : checker_t; expr : boolean; msg : string := "") is begin fail(expr, msg, checker.id); end procedure;
    procedure check_relation(expr : boolean; msg : string := "") is begin fail(expr, msg); end procedure;
    procedure check_failed(checker : checker_t; msg : string := "") is begin fail(false, msg, checker.id); end procedure;
    procedure check_failed(msg : string := "") is begin fail(false, msg); end procedure;
    procedure check_passed(checker : checker_t; msg : string := "") is begin null; end procedure;
    procedure check_passed(msg : string := "") is begin null; end procedure;
    procedure debug(msg : string) is begin null; end procedure;
    procedure info(msg : string) is begin report msg; end procedure;
    procedure warning(msg : string) is begin report msg severity warning; end procedure;
    procedure error(msg : string) is begin fail(false, msg); end procedure;
    procedure failure(msg : string) is begin fail(false, msg); end procedure;
end package body;

context vunit_context is
    library std;
        use std.textio.all;
    library ieee;
        use ieee.std_logic_1164.all;
    library vunit_lib;
        use vunit_lib.fxv_stub_pkg.all;
end context;
