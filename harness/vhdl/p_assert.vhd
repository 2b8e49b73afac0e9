-- Assertions, reports, their counts and the exit status
package assert_orc is
    procedure orc_start(exit_severity : integer);
    procedure orc_next(reported : boolean; sev : integer);
    procedure orc_conc(reported : boolean; sev : integer);   -- no check
    procedure orc_enable(sev : integer; on_off : boolean);
    attribute foreign of orc_conc : procedure is "INTERNAL _orc_conc";
    procedure orc_clear;
    impure function orc_count(sev : integer) return integer;
    procedure orc_end(has_status : boolean; status : integer; note : boolean);
    attribute foreign of orc_start : procedure is "INTERNAL _orc_start";
    attribute foreign of orc_next : procedure is "INTERNAL _orc_next";
    attribute foreign of orc_enable : procedure is "INTERNAL _orc_enable";
    attribute foreign of orc_clear : procedure is "INTERNAL _orc_clear";
    attribute foreign of orc_count : function is "INTERNAL _orc_count";
    attribute foreign of orc_end : procedure is "INTERNAL _orc_end";
    -- as in std.env of VHDL-2019
    impure function assert_count(s : severity_level) return natural;
    procedure clear_assert;
    procedure assert_enable(s : severity_level; e : boolean);
    impure function assert_enabled(s : severity_level) return boolean;
    attribute foreign of assert_count : function is "INTERNAL _std_env_get_vhdl_assert_count";
    attribute foreign of clear_assert : procedure is "INTERNAL _std_env_clear_vhdl_assert";
    attribute foreign of assert_enable : procedure is "INTERNAL _std_env_set_vhdl_assert_enable";
    attribute foreign of assert_enabled : function is "INTERNAL _std_env_get_vhdl_assert_enable";
end package;
package body assert_orc is
    procedure orc_start(exit_severity : integer) is begin end procedure;
    procedure orc_next(reported : boolean; sev : integer) is begin end procedure;
    procedure orc_enable(sev : integer; on_off : boolean) is begin end procedure;
    procedure orc_conc(reported : boolean; sev : integer) is begin end procedure;
    procedure orc_clear is begin end procedure;
    impure function orc_count(sev : integer) return integer is begin return 0; end function;
    procedure orc_end(has_status : boolean; status : integer; note : boolean) is begin end procedure;
    impure function assert_count(s : severity_level) return natural is begin return 0; end function;
    procedure clear_assert is begin end procedure;
    procedure assert_enable(s : severity_level; e : boolean) is begin end procedure;
    impure function assert_enabled(s : severity_level) return boolean is begin return true; end function;
end package body;

-- One process
entity assert1 is generic (LEVEL : integer := 3; MODE : integer := 0); end entity;
use work.sx.all;
use work.assert_orc.all;
use std.env.all;
architecture a of assert1 is
    procedure proc(b : boolean; s : severity_level) is
    begin
        assert b severity s;
    end procedure;
    impure function func(x, y : integer) return integer is
    begin
        orc_next(x < y, 2);
        assert x >= y report "less";
        orc_next(false, 0);
        return x;
    end function;
    signal c : boolean := true;
    signal r : integer := 0;
begin
    process is
        variable s : severity_level;
        variable b : boolean;
        variable n, k : integer;
        impure function sev return severity_level is
        begin
            return severity_level'val(pick(nd_int(0, 3)));
        end function;
    begin
        orc_start(LEVEL);
        s := sev;
        if MODE = 1 then        -- enable, clear
            b := nd_bool;
            assert_enable(s, b);
            orc_enable(severity_level'pos(s), b);
            check(assert_enabled(s) = b, "SetVhdlAssertEnable");
            s := sev;
        end if;
        b := nd_bool;
        orc_next(not b, severity_level'pos(s));
        assert b report "first" severity s;
        if MODE = 1 and nd_bool then
            orc_clear;
            clear_assert;
        end if;
        if MODE < 3 and nd_bool then
            s := sev;
            orc_next(true, severity_level'pos(s));
            report "second" severity s;
            orc_next(true, 0);
            report "default";
        end if;
        if MODE = 0 then
            wait for 1 ns;
            n := nd_int(-100, 100);
            n := func(n, n * 2);
            b := nd_bool;
            orc_next(not b, severity_level'pos(s));
            proc(b, s);
        elsif MODE = 2 then     -- concurrent assertion
            n := pick(nd_int(0, 1));
            c <= true, nd_bool after 1 ns;
            wait for 1 ns;
            r <= 2 * n;
            wait for 0 ns;
            wait for 0 ns;
        end if;
        orc_next(false, 0);
        for i in severity_level loop
            check(assert_count(i) = orc_count(severity_level'pos(i)), "GetVhdlAssertCount");
        end loop;
        k := 0;
        if MODE = 3 then k := pick(nd_int(0, 4)); end if;
        if k = 0 then
            orc_end(false, 0, false);
            wait;
        elsif k = 1 then
            orc_end(false, 0, true);
            stop;
        elsif k = 2 then
            orc_end(false, 0, true);
            finish;
        else
            n := nd_int(0, 255);
            orc_end(true, n, true);
            if k = 3 then stop(n); else finish(n); end if;
        end if;
        check(false, "continues after stop or finish");
    end process;

    g: if MODE = 2 generate
        signal told : boolean;
    begin
        -- evaluated once when C changes (and at the start)
        assert c report "concurrent" severity warning;
        p: postponed assert r < 2 severity error;
        process (c) is
        begin
            if not c then orc_conc(true, 1); end if;
        end process;
        postponed process (r) is
        begin
            if r >= 2 then orc_conc(true, 2); end if;
        end process;
    end generate;
end architecture;

-- Messages of functions called while the design is prepared, such as of
-- resolution functions, do not count
entity assert2 is end entity;
use work.sx.all;
use work.assert_orc.all;
architecture a of assert2 is
    type t is ('0', '1', 'X');
    type tv is array (natural range <>) of t;
    function res1(v : tv) return t is
    begin
        assert v'length < 2 report "conflict" severity error;
        return v(v'left);
    end function;
    function res2(v : tv) return t is
        variable r : t := '0';
    begin
        for i in v'range loop
            if v(i) = 'X' then
                report "unknown" severity failure;
            elsif v(i) = '1' then
                r := '1';
            end if;
        end loop;
        return r;
    end function;
    signal s : res1 t := '0';
    signal q : res2 t := '0';
    function f(n : integer) return integer is
    begin
        assert n < 5 report "too large" severity error;
        assert n < 7 report "much too large" severity failure;
        return n;
    end function;
begin
    process is
        variable n : integer;
    begin
        orc_start(3);
        n := pick(nd_int(0, 1));
        s <= t'val(n);
        q <= '1' after 1 ns;
        if n > 5 then
            n := f(6) + f(8);
        end if;
        wait for 2 ns;
        if nd_bool then
            n := nd_int(0, 8);
            orc_next(n >= 5, 2);
            if n >= 7 then
                assert n < 5 report "too large" severity error;
                orc_next(true, 3);
                assert n < 7 report "much too large" severity failure;
            else
                n := f(n);
            end if;
        end if;
        orc_end(false, 0, false);
        wait;
    end process;
    q <= '0';
end architecture;
