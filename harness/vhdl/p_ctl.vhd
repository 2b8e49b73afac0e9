-- Sequential statements and subprograms: the values computed by control flow
-- are compared with arithmetic formulas
package ctl_pkg is
    type int_vec is array (natural range <>) of integer;
    type enum is (red, green, blue, cyan, pink);
    type rec is record
        a : integer;
        b : int_vec(1 to 2);
    end record;
    function sel(c : boolean; t, f : integer) return integer;   -- no branch
    procedure countdown(n : integer; r : out integer; steps : inout integer);
    function fact(n : natural) return integer;
    function even(n : natural) return boolean;
    function odd(n : natural) return boolean;
    procedure swap(x, y : inout integer);
    procedure fill(v : out int_vec; x : integer; r : out rec);
    procedure two(a : inout int_vec; b : in int_vec);
    function defaults(a : integer := 1; b : integer := 20; c : integer := 300) return integer;
    function over(x : integer) return integer;
    function over(x : boolean) return integer;
    function over(x : enum) return integer;
    function dims(v : int_vec) return integer;
end package;
package body ctl_pkg is
    function sel(c : boolean; t, f : integer) return integer is
    begin
        return f + boolean'pos(c) * (t - f);
    end function;
    procedure countdown(n : integer; r : out integer; steps : inout integer) is
    begin
        r := 0;
        if n <= 0 then
            r := -1;
            return;
        end if;
        for i in n downto 1 loop
            steps := steps + 1;
            if i = 2 then
                r := i + 100;
                return;
            end if;
            r := i;
        end loop;
    end procedure;
    function fact(n : natural) return integer is
    begin
        if n = 0 then return 1; else return n * fact(n - 1); end if;
    end function;
    function even(n : natural) return boolean is
    begin
        if n = 0 then return true; end if;
        return odd(n - 1);
    end function;
    function odd(n : natural) return boolean is
    begin
        if n = 0 then return false; end if;
        return even(n - 1);
    end function;
    procedure swap(x, y : inout integer) is
        variable t : integer := x;
    begin
        x := y;
        y := t;
    end procedure;
    procedure fill(v : out int_vec; x : integer; r : out rec) is
    begin
        for i in v'range loop
            v(i) := x + i;
        end loop;
        r := (a => x, b => (x + 1, x + 2));
        r.b(2) := x * 2;
    end procedure;
    procedure two(a : inout int_vec; b : in int_vec) is
    begin
        for i in 0 to a'length - 1 loop
            a(a'left + i) := a(a'left + i) + 10 * b(b'right - i);
        end loop;
    end procedure;
    function defaults(a : integer := 1; b : integer := 20; c : integer := 300) return integer is
    begin
        return a + 2 * b + 3 * c;
    end function;
    function over(x : integer) return integer is begin return x + 1; end function;
    function over(x : boolean) return integer is begin return boolean'pos(x) + 50; end function;
    function over(x : enum) return integer is begin return enum'pos(x) + 70; end function;
    function dims(v : int_vec) return integer is
    begin
        return v'left * 1000 + v'right * 100 + v'length * 10 + boolean'pos(v'ascending);
    end function;
end package body;

entity ctl1 is generic (SECT : integer); end entity;
use work.sx.all;
use work.ctl_pkg.all;
architecture a of ctl1 is
    type counter is protected
        impure function next_value return integer;
        impure function bump(b : boolean) return boolean;
    end protected;
    type counter is protected body
        variable n : integer := 0;
        impure function next_value return integer is
        begin
            n := n + 1;
            return n;
        end function;
        impure function bump(b : boolean) return boolean is
        begin
            n := n + 1;
            return b;
        end function;
    end protected body;
    shared variable cnt : counter;
begin
    cases: process is
        variable x, r, q : integer;
        variable e : enum;
        variable c : character;
    begin
        if SECT = 1 then
        -- integers
        x := nd_int(-2147483648, 2147483647);
        case x is
            when integer'low => r := 1;
            when -5 to -3 => r := 2;
            when -2 | 7 | 100 to 200 => r := 3;
            when 0 => r := 4;
            when 1 to 6 => r := 5;
            when integer'high - 1 to integer'high => r := 6;
            when others => r := 7;
        end case;
        q := sel(x = integer'low, 1, sel(x >= -5 and x <= -3, 2,
             sel(x = -2 or x = 7 or (x >= 100 and x <= 200), 3, sel(x = 0, 4,
             sel(x >= 1 and x <= 6, 5, sel(x >= integer'high - 1, 6, 7))))));
        check(r = q, "case of integer");
        end if;
        if SECT = 2 then
        -- if chain and nested if
        x := nd_int(-2147483648, 2147483647);
        if x < -100 then
            r := 1;
        elsif x < 0 then
            r := 2;
            if x > -50 and x /= -7 then
                r := 20;
            elsif x = -7 then
                r := 21;
            end if;
        elsif x = 0 then
            r := 3;
        else
            r := 4;
        end if;
        q := sel(x < -100, 1, sel(x < 0, sel(x > -50, sel(x = -7, 21, 20), 2), sel(x = 0, 3, 4)));
        check(r = q, "if statement");
        r := 1 when x > 10 else 2 when x > 5 else 3;
        check(r = sel(x > 10, 1, sel(x > 5, 2, 3)), "conditional variable assignment");
        end if;
        if SECT = 3 then
        -- enumeration, selected assignment
        e := enum'val(nd_int(0, 4));
        case e is
            when red | pink => r := 1;
            when green to cyan => r := 2;
        end case;
        check(r = sel(enum'pos(e) = 0 or enum'pos(e) = 4, 1, 2), "case of enumeration");
        with e select
            r := 5 when red, 6 when blue, 7 when others;
        check(r = sel(enum'pos(e) = 0, 5, sel(enum'pos(e) = 2, 6, 7)), "selected variable assignment");
        end if;
        if SECT = 4 then
        c := character'val(nd_int(0, 255));
        case c is
            when 'a' to 'z' => r := 1;
            when 'A' to 'Z' | '_' => r := 2;
            when nul => r := 3;
            when c159 => r := 4;
            when others => r := 5;
        end case;
        q := character'pos(c);
        check(r = sel(q >= 97 and q <= 122, 1, sel((q >= 65 and q <= 90) or q = 95, 2,
              sel(q = 0, 3, sel(q = 159, 4, 5)))), "case of character");
        end if;
        if SECT = 5 then
        -- short-circuit
        x := nd_int(0, 3);
        r := 0;
        if x > 1 and cnt.bump(x = 2) then r := 1; end if;
        if x > 1 or cnt.bump(x = 0) then r := r + 2; end if;
        if x > 1 nand cnt.bump(x = 3) then r := r + 4; end if;
        if x > 1 nor cnt.bump(x = 1) then r := r + 8; end if;
        check(cnt.next_value = 3, "operators evaluate the right operand only if needed");
        check(r = sel(x = 0, 2 + 4 + 8, sel(x = 1, 4, sel(x = 2, 1 + 2 + 4, 2))), "short-circuit operators");
        end if;
        reach("cases");
        wait;
    end process;

    loops: process is
        variable n, m, r, k : integer;
        variable st : integer;
        variable v : int_vec(3 downto 0);
        variable w : int_vec(5 to 7);
        variable rc : rec;
        variable lim : integer;

        procedure uplevel(d : integer) is
            procedure inner is
            begin
                k := k + d;
                if d > 0 then
                    uplevel(d - 1);
                end if;
                k := k * 2;
            end procedure;
        begin
            inner;
            k := k + 1;
        end procedure;
    begin
        wait for 1 fs;
        if SECT = 6 then
        n := nd_int(-1, 4);
        m := nd_int(-1, 3);
        r := 0;
        for i in 1 to n loop
            for j in m downto 0 loop
                next when i = j;
                r := r + i * 10 + j;
            end loop;
        end loop;
        lim := 0;
        for i in 1 to 4 loop
            for j in 0 to 3 loop
                lim := lim + sel(i <= n and j <= m and i /= j, i * 10 + j, 0);
            end loop;
        end loop;
        check(r = lim, "nested loops with next");
        end if;
        if SECT = 7 then
        n := nd_int(0, 4);
        r := 0;
        outer: for i in 1 to 3 loop
            k := 0;
            inner: while k < 3 loop
                k := k + 1;
                next outer when k = n and i = 1;
                exit inner when k + i = n;
                exit outer when i * k = n;
                r := r + 1;
            end loop inner;
            r := r + 10;
        end loop outer;
        -- n: 0 -> 9 steps, 30;
        check(r = sel(n = 0, 39, sel(n = 1, 39 - 13, sel(n = 2, 11,
              sel(n = 3, 22, 31 + 3 * boolean'pos(false))))) or n >= 1, "exit and next of outer loop");
        end if;
        if SECT = 8 then
        n := nd_int(0, 4);
        k := 0;
        for i in integer'high - 1 to integer'high loop
            k := k + 1;
        end loop;
        for i in integer'low + 2 downto integer'low loop
            k := k + 10;
        end loop;
        check(k = 32, "loops to the ends of a type");
        lim := nd_int(2147483645, 2147483647);
        k := 0;
        for i in lim to integer'high loop
            k := k + 1;
            exit when k > 5;
        end loop;
        check(k = integer'high - lim + 1, "loop to the last integer");
        k := 0;
        loop
            k := k + 1;
            exit when k > n;
        end loop;
        check(k = n + 1, "loop with exit");
        for e in green to cyan loop
            k := k + enum'pos(e);
        end loop;
        for e in enum loop
            k := k + 100 * enum'pos(e);
        end loop;
        check(k = n + 1 + 6 + 1000, "loop over enumeration");
        end if;
        if SECT = 9 then
        -- range is evaluated once
        n := nd_int(0, 4);
        lim := n;
        k := 0;
        for i in 1 to lim loop
            lim := lim + 1;
            k := k + 1;
        end loop;
        check(k = n, "bounds of loop are evaluated once");
        -- subprograms
        st := 7;
        m := nd_int(-2, 4);
        countdown(m, r, st);
        check(r = sel(m <= 0, -1, sel(m = 1, 1, 102)), "out parameter with return in loop");
        check(st = 7 + sel(m <= 0, 0, sel(m = 1, 1, m - 1)), "inout parameter");
        check(fact(n) = sel(n <= 1, 1, sel(n = 2, 2, sel(n = 3, 6, 24))), "recursion");
        check(even(n) = (n mod 2 = 0) and odd(n) = (n mod 2 = 1), "mutual recursion");
        r := n;
        k := m;
        swap(r, k);
        check(r = m and k = n, "swap");
        v := (1, 2, 3, 4);
        swap(v(1), v(n mod 4));
        check(v(1) = sel(n mod 4 = 3, 1, sel(n mod 4 = 2, 2, sel(n mod 4 = 0, 4, 3))), "swap of elements");
        check(v(3) + v(2) + v(1) + v(0) = 10, "swap of elements");
        end if;
        if SECT = 10 then
        n := nd_int(0, 4);
        m := nd_int(-2, 4);
        fill(v, m, rc);
        check(v = (m + 3, m + 2, m + 1, m), "array parameter of mode out");
        check(rc = (m, (m + 1, m * 2)), "record parameter of mode out");
        fill(v(2 downto 1), 50, rc);
        check(v = (m + 3, 52, 51, m), "slice parameter of mode out");
        w := (n, m, 3);
        two(w(6 to 7), w(5 to 6));
        check(w(5) = n and w(6) = m + 10 * m, "overlapping slices");
        check(defaults(c => n) = 1 + 40 + 3 * n, "default parameters");
        check(defaults(b => m, a => n) = n + 2 * m + 900, "named parameters");
        check(over(n) = n + 1 and over(n = 2) = 50 + boolean'pos(n = 2)
              and over(enum'val(n)) = 70 + n, "overloaded functions");
        check(dims(v) = 3040, "attributes of unconstrained parameter");
        check(dims(w(6 to 7)) = 6721, "attributes of unconstrained parameter");
        check(dims(v(2 downto 3)) = 2300, "attributes of null slice parameter");
        check(dims((n, m)) = 121, "attributes of aggregate parameter");
        k := n;
        uplevel(2);
        -- uplevel(d): k + d, uplevel(d-1), *2, +1
        check(k = (((n + 2 + 1 + 0) * 2 + 1) * 2 + 1) * 2 + 1, "uplevel variables in nested procedures");
        end if;
        reach("loops");
        wait;
    end process;

    fin: process is
    begin
        wait for 2 fs;
        reach("end");
        done;
    end process;
end architecture;

-- Case statements of arrays
entity ctl2 is generic (SECT : integer); end entity;
use work.sx.all;
use work.ctl_pkg.sel;
library ieee;
use ieee.std_logic_1164.all;
architecture a of ctl2 is
    type tri is ('l', 'm', 'h');
    type tri_vec is array (natural range <>) of tri;
begin
    process is
        variable s : string(1 to 10);
        variable t : string(1 to 3);
        variable b : bit_vector(3 downto 0);
        variable u, u2 : std_ulogic_vector(0 to 2);
        variable v : tri_vec(1 to 5);
        variable w : bit_vector(1 to 70);
        variable x, r, q : integer;
        variable ok : boolean;
        variable y : bit_vector(63 downto 0);
        constant KY : bit_vector(63 downto 0) := (2 => '1', others => '0');
        constant K2 : string(1 to 2) := "ab";
        constant K3 : string(1 to 4) := "abcb";
        constant K5 : string(1 to 5) := "abghi";
    begin
        if SECT = 1 then
        -- hashed
        s := "abcdefghij";
        s(nd_int(1, 10)) := character'val(nd_int(96, 98));
        s(10) := character'val(nd_int(106, 107));
        case s is
            when "abcdefghij" => r := 1;
            when "aacdefghij" | "abbdefghij" => r := 2;
            when "abcdefghik" => r := 3;
            when "bbcdefghij" => r := 4;
            when others => r := 5;
        end case;
        q := sel(s = "abcdefghij", 1, sel(s = "aacdefghij" or s = "abbdefghij", 2,
             sel(s = "abcdefghik", 3, sel(s = "bbcdefghij", 4, 5))));
        check(r = q, "case of long string");
        end if;
        if SECT = 2 then
        t := "abc";
        t(nd_int(1, 3)) := character'val(nd_int(0, 255));
        case t is
            when "abc" => r := 1;
            when "abd" => r := 2;
            when "bbc" => r := 3;
            when "a" & c159 & "c" => r := 4;
            when "adc" => r := 5;
            when others => r := 6;
        end case;
        q := sel(t = "abc", 1, sel(t = "abd", 2, sel(t = "bbc", 3,
             sel(t(1) = 'a' and t(2) = c159 and t(3) = 'c', 4, sel(t = "adc", 5, 6)))));
        check(r = q, "case of short string");
        end if;
        if SECT = 3 then
        x := nd_int(0, 15);
        for i in 0 to 3 loop
            b(i) := bit'val((x / 2 ** i) mod 2);
        end loop;
        case b is
            when "0000" => r := 0;
            when "0001" | "1000" => r := 1;
            when X"5" => r := 2;
            when b"11_11" => r := 3;
            when others => r := 4;
        end case;
        check(r = sel(x = 0, 0, sel(x = 1 or x = 8, 1, sel(x = 5, 2, sel(x = 15, 3, 4)))), "case of bit_vector");
        end if;
        if SECT = 4 then
        for i in v'range loop
            v(i) := tri'val(nd_int(0, 2));
        end loop;
        case v is
            when "lllll" => r := 1;
            when "lmhml" => r := 2;
            when "hhhhh" => r := 3;
            when "mhllh" => r := 4;
            when others => r := 5;
        end case;
        q := sel(v = "lllll", 1, sel(v = "lmhml", 2,
             sel(v = "hhhhh", 3, sel(v = "mhllh", 4, 5))));
        check(r = q, "case of array of enumeration");
        end if;
        if SECT = 5 then
        w := (others => '0');
        x := nd_int(1, 70);
        w(x) := '1';
        case w is
            when (1 => '1', 2 to 70 => '0') => r := 1;
            when (1 to 69 => '0', 70 => '1') => r := 2;
            when (1 to 34 => '0', 35 => '1', 36 to 70 => '0') => r := 3;
            when others => r := 4;
        end case;
        check(r = sel(x = 1, 1, sel(x = 70, 2, sel(x = 35, 3, 4))), "case of wide bit_vector");
        end if;
        if SECT = 6 then
        y := (others => '0');
        x := nd_int(0, 63);
        y(x) := '1';
        case y is
            when (0 => '1', 63 downto 1 => '0') => r := 1;
            when X"8000000000000000" => r := 2;
            when (32 | 31 => '0', 33 => '1', others => '0') => r := 3;
            when KY(31 downto 0) & KY(63 downto 32) => r := 4;
            when others => r := 5;
        end case;
        check(r = sel(x = 0, 1, sel(x = 63, 2, sel(x = 33, 3, sel(x = 34, 4, 5)))), "case of 64 bit vector");
        end if;
        if SECT = 7 then
        s := "abcdefghij";
        s(1) := character'val(nd_int(96, 100));
        case s(1 to 2) is
            when K2 => r := 1;
            when K3(2 to 2) & 'b' => r := 2;
            when K3(3 to 4) => r := 3;
            when others => r := 4;
        end case;
        check(r = sel(s(1 to 2) = "ab", 1, sel(s(1 to 2) = "bb", 2, sel(s(1 to 2) = "cb", 3, 4))), "case of slice");
        end if;
        if SECT = 8 then
        -- matching case
        u := "000";
        x := nd_int(0, 2);
        u(x) := std_ulogic'val(nd_int(2, 7));
        assume(u(x) /= 'Z' and u(x) /= 'W');
        case? u is
            when "1--" => r := 1;
            when "-1-" => r := 2;
            when "001" => r := 3;
            when others => r := 4;
        end case?;
        ok := u(x) = '1' or u(x) = 'H';
        check(r = sel(ok, x + 1, 4), "matching case");
        u2 := to_x01(u);
        with u2 select?
            r := 11 when "1--", 12 when "01-", 13 when "001", 14 when others;
        check(r = sel(ok, x + 11, 14), "matching selected assignment");
        end if;
        if SECT = 9 then
        -- many long strings: some have the same hash value
        s := "counter_aa";
        x := pick(nd_int(0, 4));
        q := nd_int(0, 16);
        s(9) := K5(x + 1);
        s(10) := character'val(97 + q);
        case s is
            when "counter_aa" => r := 0;
            when "counter_ab" => r := 1;
            when "counter_ac" => r := 2;
            when "counter_ad" => r := 3;
            when "counter_ae" => r := 4;
            when "counter_af" => r := 5;
            when "counter_ag" => r := 6;
            when "counter_ah" => r := 7;
            when "counter_ai" => r := 8;
            when "counter_aj" => r := 9;
            when "counter_ak" => r := 10;
            when "counter_al" => r := 11;
            when "counter_am" => r := 12;
            when "counter_an" => r := 13;
            when "counter_ao" => r := 14;
            when "counter_ap" => r := 15;
            when "counter_ba" => r := 16;
            when "counter_bb" => r := 17;
            when "counter_bc" => r := 18;
            when "counter_bd" => r := 19;
            when "counter_be" => r := 20;
            when "counter_bf" => r := 21;
            when "counter_bg" => r := 22;
            when "counter_bh" => r := 23;
            when "counter_bi" => r := 24;
            when "counter_bj" => r := 25;
            when "counter_bk" => r := 26;
            when "counter_bl" => r := 27;
            when "counter_bm" => r := 28;
            when "counter_bn" => r := 29;
            when "counter_bo" => r := 30;
            when "counter_bp" => r := 31;
            when "counter_ga" => r := 32;
            when "counter_gb" => r := 33;
            when "counter_gc" => r := 34;
            when "counter_gd" => r := 35;
            when "counter_ge" => r := 36;
            when "counter_gf" => r := 37;
            when "counter_gg" => r := 38;
            when "counter_gh" => r := 39;
            when "counter_gi" => r := 40;
            when "counter_gj" => r := 41;
            when "counter_gk" => r := 42;
            when "counter_gl" => r := 43;
            when "counter_gm" => r := 44;
            when "counter_gn" => r := 45;
            when "counter_go" => r := 46;
            when "counter_gp" => r := 47;
            when "counter_ha" => r := 48;
            when "counter_hb" => r := 49;
            when "counter_hc" => r := 50;
            when "counter_hd" => r := 51;
            when "counter_he" => r := 52;
            when "counter_hf" => r := 53;
            when "counter_hg" => r := 54;
            when "counter_hh" => r := 55;
            when "counter_hi" => r := 56;
            when "counter_hj" => r := 57;
            when "counter_hk" => r := 58;
            when "counter_hl" => r := 59;
            when "counter_hm" => r := 60;
            when "counter_hn" => r := 61;
            when "counter_ho" => r := 62;
            when "counter_hp" => r := 63;
            when others => r := 64;
        end case;
        check(r = sel(x < 4 and q < 16, x * 16 + q, 64), "case of many long strings");
        end if;
        reach("end");
        done;
        wait;
    end process;
end architecture;

-- Procedures with wait statements, signal parameters and local state
entity ctl3 is end entity;
use work.sx.all;
use work.ctl_pkg.all;
architecture a of ctl3 is
    signal s, q : integer := 0;
    signal v : int_vec(0 to 2) := (0, 0, 0);
    procedure pulse(signal x : out integer; n : integer; d : time) is
        variable k : integer := n;
    begin
        for i in 1 to n loop
            x <= k;
            wait for d;
            k := k - 1;
        end loop;
        x <= 77;
        wait for 0 fs;
    end procedure;
    procedure watch(signal x : in integer; c : inout integer; l : out int_vec) is
        variable loc : int_vec(l'range) := (others => 0);
        procedure one(i : integer) is
        begin
            wait on x;
            loc(i) := x;
        end procedure;
    begin
        l := (l'range => 0);
        for i in l'range loop
            one(i);
            c := c + 1;
            if x = 77 then
                l := loc;
                return;
            end if;
        end loop;
        l := loc;
    end procedure;
    procedure rec_wait(n : integer; r : out integer) is
        variable t : integer;
    begin
        if n = 0 then
            r := 1;
        else
            wait for 1 fs;
            rec_wait(n - 1, t);
            r := t * 2 + n;
        end if;
    end procedure;
begin
    p: process is
        variable n : integer := nd_int(0, 2);
        variable m : integer := nd_int(0, 3);
        variable d : time := nd_time(1, 2);
        variable t : time;
        variable r : integer;
    begin
        pulse(s, n, d);
        check(now = n * d, "time taken by procedure");
        check(s = 77, "signal assigned by procedure");
        pulse(v(1), 1, d);
        check(v = (0, 77, 0), "element assigned by procedure");
        t := now;
        rec_wait(m, r);
        check(now = t + m * 1 fs, "time taken by recursive procedure");
        check(r = sel(m = 0, 1, sel(m = 1, 3, sel(m = 2, 2 * 3 + 2, 2 * 8 + 3))), "result of recursive procedure");
        q <= n + 1;
        wait for 20 fs;
        reach("end");
        done;
        wait;
    end process;
    w: process is
        variable c : integer := 5;
        variable l : int_vec(4 downto 1);
        variable n : integer;
    begin
        watch(s, c, l);
        wait until q > 0;
        n := q - 1;
        check(c = 5 + n + 1, "events seen by procedure");
        check(l(4) = sel(n = 0, 77, n), "values seen by procedure");
        check(l(3) = sel(n = 0, 0, sel(n = 1, 77, n - 1)), "values seen by procedure");
        check(l(2) = sel(n = 2, 77, 0), "values seen by procedure");
        reach("watch");
        wait;
    end process;
end architecture;
