library ieee;
use ieee.std_logic_1164.all;
package res_orc is
    procedure r_init(id, v : integer);
    procedure r_add(id, v : integer; t : time);
    impure function r_value(id : integer; t : time) return integer;
    impure function r_std(first, last : integer; t : time) return integer;
    impure function r_sum(first, last : integer; t : time) return integer;
    impure function f_value(id : integer; t : time; d : integer) return integer;
    attribute foreign of r_init : procedure is "INTERNAL _r_init";
    attribute foreign of r_add : procedure is "INTERNAL _r_add";
    attribute foreign of r_value : function is "INTERNAL _r_value";
    attribute foreign of r_std : function is "INTERNAL _r_std";
    attribute foreign of r_sum : function is "INTERNAL _r_sum";
    attribute foreign of f_value : function is "INTERNAL _f_value";
    type iv is array (natural range <>) of integer;
    function sum(x : iv) return integer;
    subtype rint is sum integer;
    type rec is record a, b : integer; end record;
    type recv is array (natural range <>) of rec;
    function rsum(x : recv) return rec;
    subtype rrec is rsum rec;
    type ivv is array (natural range <>) of iv(0 to 1);
    function vsum(x : ivv) return iv;
    subtype riv is vsum iv(0 to 1);
    subtype eiv is (sum) iv(0 to 1);
    constant N : integer := -1000;    -- disconnected
end package;
package body res_orc is
    procedure r_init(id, v : integer) is begin end procedure;
    procedure r_add(id, v : integer; t : time) is begin end procedure;
    impure function r_value(id : integer; t : time) return integer is
    begin return 0; end function;
    impure function r_std(first, last : integer; t : time) return integer is
    begin return 0; end function;
    impure function r_sum(first, last : integer; t : time) return integer is
    begin return 0; end function;
    impure function f_value(id : integer; t : time; d : integer) return integer is
    begin return 0; end function;
    function sum(x : iv) return integer is
        variable r : integer := 0;
    begin
        for i in x'range loop
            r := r + x(i) + 1000;
        end loop;
        return r;
    end function;
    function rsum(x : recv) return rec is
        variable r : rec := (0, 0);
    begin
        for i in x'range loop
            r.a := r.a + x(i).a + 1000;
            r.b := r.b + x(i).b + 1000;
        end loop;
        return r;
    end function;
    function vsum(x : ivv) return iv is
        variable r : iv(0 to 1) := (0, 0);
    begin
        for i in x'range loop
            r(0) := r(0) + x(i)(0) + 1000;
            r(1) := r(1) + x(i)(1) + 1000;
        end loop;
        return r;
    end function;
end package body;

-- std_logic with 1, 2 and 3 drivers
library ieee;
use ieee.std_logic_1164.all;
entity res1 is generic (N : integer := 3; K : integer := 1; GAP : integer := 2;
    LOW3 : integer := 2; HIGH3 : integer := 4); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of res1 is
    signal s, d2 : std_logic;
begin
    g: for p in 1 to N generate
        process is
            variable t : time := 0 fs;
            variable v : integer;
        begin
            r_init(p, 0);
            for i in 1 to K loop
                t := t + nd_time(1, GAP);
                if p = 3 then
                    v := pick(nd_int(LOW3, HIGH3));
                elsif p = 2 then
                    v := pick(nd_int(0, 8));
                else
                    v := nd_int(0, 8);
                end if;
                s <= transport std_ulogic'val(v) after t;
                r_add(p, v, t);
            end loop;
            wait;
        end process;
        -- the same without delta cycles: copies of the contribution
        g2: if p <= 2 generate
            process is
                variable v : integer;
            begin
                for i in 1 to K * GAP loop
                    wait for 1 fs;
                    v := r_value(p, now);
                    d2 <= std_ulogic'val(v);
                end loop;
                wait;
            end process;
        end generate;
    end generate;
    mon: process is
        variable e : boolean;
    begin
        check(s = 'U', "initial value");
        wait for nd_time(1, K * GAP + 1);
        wait for 0 fs;
        check(std_ulogic'pos(s) = r_std(1, N, now), "resolved value of all drivers");
        check(std_ulogic'pos(d2) = r_std(1, 2, now), "resolved value of two drivers");
        check(std_ulogic'pos(s'last_value) = r_std(1, N, now - s'last_event - 1 fs)
              or s'last_event > now, "last value of resolved signal");
        reach("end");
        done;
    end process;
    ev: process (s) is
    begin
        if now > 0 fs then
            check(r_std(1, N, now) /= r_std(1, N, now - 1 fs), "event iff change");
        end if;
    end process;
end architecture;

-- Drivers for parts of a resolved vector, directly and through ports
library ieee;
use ieee.std_logic_1164.all;
entity res_sub is
    port (x : inout std_logic_vector(0 to 1); y : out std_logic);
end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of res_sub is
begin
    process is
        variable t : time;
        variable v : integer;
    begin
        for i in 0 to 1 loop
            r_init(10 + i, 0);
            r_init(14, 0);
        end loop;
        t := nd_time(1, 2);
        v := nd_int(0, 8);
        x(1) <= std_ulogic'val(v) after t;
        r_add(11, v, t);
        y <= std_ulogic'val(v) after t;
        r_add(14, v, t);
        x(0) <= 'Z';
        r_add(10, 4, 0 fs);
        wait;
    end process;
end architecture;

library ieee;
use ieee.std_logic_1164.all;
entity res2 is generic (V : integer := 8; LOW1 : integer := 2; HIGH1 : integer := 4); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of res2 is
    signal s : std_logic_vector(0 to 3);
    -- drivers: element e, source k: number 16 + 4 * e + k
begin
    p0: process is    -- all of it
        variable t : time;
        variable n : integer;
    begin
        t := nd_time(1, 2);
        n := nd_int(8 - V, 8);
        for e in 0 to 3 loop
            r_init(16 + 4 * e, 0);
            r_add(16 + 4 * e, n, t);
        end loop;
        s <= (others => std_ulogic'val(n)) after t;
        wait;
    end process;
    p1: process is    -- one element
        variable t : time;
        variable n : integer;
    begin
        t := 1 fs;
        n := pick(nd_int(LOW1, HIGH1));
        r_init(17 + 4, 0);
        r_add(17 + 4, n, t);
        s(1) <= std_ulogic'val(n) after t;
        wait;
    end process;
    -- elements 1 and 2 as inout, 3 as out
    u: entity work.res_sub port map (s(1 to 2), s(3));
    mon: process is
        variable e1, e2, e3, x1 : integer;
    begin
        wait for nd_time(1, 3);
        wait for 0 fs;
        check(std_ulogic'pos(s(0)) = r_std(16, 16, now), "element with one driver");
        check(std_ulogic'pos(s(1)) = r_std(20, 21, now) or r_value(10, now) /= 4, "element with three drivers");
        r_init(1, 0); r_init(2, 0);
        r_add(1, r_value(24, now), 0 fs);
        r_add(2, r_value(11, now), 0 fs);
        check(std_ulogic'pos(s(2)) = r_std(1, 2, now), "element with driver in port");
        r_add(1, r_value(28, now), 0 fs);
        r_add(2, r_value(14, now), 0 fs);
        check(std_ulogic'pos(s(3)) = r_std(1, 2, now), "element with port of mode out");
        reach("end");
        done;
    end process;
end architecture;

-- User-defined resolution of scalars, records, arrays, elements
entity res3 is generic (K : integer := 1); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of res3 is
    signal one, two, three : rint := 0;
    signal r : rrec := (0, 0);
    signal w : riv := (0, 0);
begin
    g: for p in 1 to 3 generate
        process is
            variable t : time := 0 fs;
            variable v : integer;
        begin
            r_init(p, 0);
            for i in 1 to K loop
                t := t + nd_time(1, 2);
                v := nd_int(0, 9);
                r_add(p, v, t);
                three <= transport v after t;
            end loop;
            wait;
        end process;
        g1: if p = 1 generate
            process is
                variable v : integer;
            begin
                wait for 1 fs;
                v := r_value(1, now);
                one <= v;
                wait for 0 fs;
                check(one = v + 1000, "one driver is resolved");
                wait;
            end process;
        end generate;
        gg: if p <= 2 generate
            process is
                variable t : time := 0 fs;
                variable v : integer;
            begin
                r_init(p + 4, 0);
                for i in 1 to K loop
                    t := t + nd_time(1, 2);
                    v := nd_int(0, 9);
                    r_add(p + 4, v, t);
                    two <= transport v after t;
                    r <= transport (v, v + 1) after t;
                    w <= transport (v, v + 1) after t;
                end loop;
                wait;
            end process;
        end generate;
    end generate;
    mon: process is
        variable x : integer;
    begin
        check(three = 3000 and two = 2000, "initial value is resolved");
        wait for nd_time(1, 2 * K + 1);
        wait for 0 fs;
        check(three = r_sum(1, 3, now), "three drivers");
        x := r_sum(5, 6, now);
        check(two = x, "two drivers");
        check(r.a = x, "record");
        check(w(0) = x, "array");
        check(r.b = x + 2 or r.b = x or r.b = x + 1, "record field");
        reach("end");
        done;
    end process;
end architecture;

-- Guarded signals: bus and register
entity res4 is generic (K : integer := 2; GAP : integer := 2); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of res4 is
    signal b : rint bus := 0;
    signal r : rint register := 0;
begin
    g: for p in 1 to 2 generate
        process is
            variable t : time := 0 fs;
            variable v : integer;
        begin
            r_init(p, 0);
            for i in 1 to K loop
                t := t + nd_time(1, GAP);
                v := nd_int(-1, 2);
                if v = -1 then
                    b <= transport null after t;
                    r <= transport null after t;
                    r_add(p, N, t);
                else
                    b <= transport v after t;
                    r <= transport v after t;
                    r_add(p, v, t);
                end if;
            end loop;
            wait;
        end process;
    end generate;
    mon: process is
        variable x, keep : integer := 2000;
    begin
        check(b = 2000 and r = 2000, "initial value is resolved");
        for i in 1 to K * GAP + 1 loop
            wait for 1 fs;
            x := r_sum(1, 2, now);
            wait for 0 fs;
            check(b = x, "bus");
            if r_value(1, now) /= N or r_value(2, now) /= N then
                keep := x;
            end if;
            check(r = keep, "register keeps its value when all drivers are off");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- Guarded blocks and disconnection times
entity res5 is generic (GAP : integer := 3); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of res5 is
    signal b : rint bus := 0;
    signal g1, g2 : boolean := false;
    signal d : integer := 0;
    disconnect b : rint after 1 fs;
begin
    stim: process is
        variable t1, t2 : time;
        variable v : integer;
    begin
        t1 := nd_time(1, GAP);
        t2 := t1 + nd_time(1, GAP);
        g1 <= transport true after t1;
        g1 <= transport false after t2;
        r_init(1, N);
        r_init(2, N);
        v := nd_int(0, 5);
        d <= transport v after 2 fs;
        r_add(1, 0, t1);
        if t1 >= 2 fs then
            r_add(1, v, t1);
        elsif t2 > 2 fs then
            r_add(1, v, 2 fs);
        end if;
        r_add(1, N, t2 + 1 fs);
        t1 := nd_time(1, GAP);
        g2 <= transport true after t1;
        r_add(2, 7, t1);
        wait;
    end process;
    b1: block (g1) is
    begin
        b <= guarded d;
    end block;
    b2: block (g2) is
    begin
        b <= guarded 7;
    end block;
    mon: process is
    begin
        for i in 1 to 2 * GAP + 2 loop
            wait for 1 fs;
            for j in 1 to 3 loop wait for 0 fs; end loop;
            check(b = r_sum(1, 2, now), "bus driven by guarded blocks");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- Resolved records with an array field which is driven in parts, also as
-- subelements of an unresolved record and of an array
package res6_pack is
    type iv is array (natural range <>) of integer;
    type rec is record n : integer; v : iv(1 to 4); end record;
    type recv is array (natural range <>) of rec;
    function rsum(x : recv) return rec;
    subtype rrec is rsum rec;
    type rarr is array (1 to 2) of rrec;
    type outer is record x, y : integer; r : rrec; z : integer; t : rarr; end record;
    constant INIT : rec := (0, (others => 0));
end package;
package body res6_pack is
    function rsum(x : recv) return rec is
        variable r : rec := (0, (others => 0));
    begin
        for i in x'range loop
            r.n := r.n + x(i).n + 1000;
            for j in r.v'range loop
                r.v(j) := r.v(j) + x(i).v(j) + 1000;
            end loop;
        end loop;
        return r;
    end function;
end package body;

entity res6 is end entity;
use work.sx.all;
use work.res6_pack.all;
architecture a of res6 is
    signal s : rrec := INIT;
    signal o : outer := (0, 0, INIT, 0, (INIT, INIT));
    type ivv is array (1 to 3) of iv(0 to 4);
    type pt is protected
        procedure set(p, i, v : integer);
        impure function get(p, i : integer) return integer;
    end protected;
    type pt is protected body
        variable d : ivv;
        procedure set(p, i, v : integer) is begin d(p)(i) := v; end procedure;
        impure function get(p, i : integer) return integer is begin return d(p)(i); end function;
    end protected body;
    shared variable va : pt;
begin
    g: for p in 1 to 2 generate
        process is
            variable v : integer;
        begin
            for i in 0 to 4 loop
                va.set(p, i, nd_int(-100, 100));
            end loop;
            wait for 1 fs;
            s.n <= va.get(p, 0);
            o.r.n <= va.get(p, 0);
            o.t(2).n <= va.get(p, 0);
            if p = 1 then
                s.v(1 to 2) <= (va.get(p, 1), va.get(p, 2));
                s.v(3 to 4) <= (va.get(p, 3), va.get(p, 4));
                o.r.v(1) <= va.get(p, 1);
                o.r.v(2 to 4) <= (va.get(p, 2), va.get(p, 3), va.get(p, 4));
                o.t(2).v(1 to 3) <= (va.get(p, 1), va.get(p, 2), va.get(p, 3));
                o.t(2).v(4) <= va.get(p, 4);
                o.t(1) <= INIT;
                wait for 2 fs;
                va.set(1, 3, nd_int(-100, 100));
                s.v(3) <= va.get(1, 3);
                o.r.v(3) <= va.get(1, 3);
                o.t(2).v(3) <= va.get(1, 3);
            else
                s.v <= (va.get(p, 1), va.get(p, 2), va.get(p, 3), va.get(p, 4));
                o.r.v <= (va.get(p, 1), va.get(p, 2), va.get(p, 3), va.get(p, 4));
                o.t(2).v <= (va.get(p, 1), va.get(p, 2), va.get(p, 3), va.get(p, 4));
                o.t(1).v(2) <= va.get(p, 2);
                o.t(1).n <= 5;
                o.t(1).v(1) <= 6;
                o.t(1).v(3 to 4) <= (7, 8);
            end if;
            wait;
        end process;
    end generate;
    mon: process is
        variable e : iv(0 to 4);
        variable x, z : integer;
    begin
        x := nd_int(-100, 100);
        z := nd_int(-100, 100);
        o.x <= x;
        o.z <= z;
        for w in 1 to 2 loop
            wait for 2 fs;
            for i in 0 to 4 loop
                e(i) := va.get(1, i) + va.get(2, i) + 2000;
            end loop;
            check(conj(s.n = e(0), conj(conj(s.v(1) = e(1), s.v(2) = e(2)), conj(s.v(3) = e(3), s.v(4) = e(4)))),
                "resolved record driven in parts");
            check(conj(o.r.n = e(0), conj(conj(o.r.v(1) = e(1), o.r.v(2) = e(2)), conj(o.r.v(3) = e(3), o.r.v(4) = e(4)))),
                "resolved record inside record");
            check(conj(o.t(2).n = e(0), conj(conj(o.t(2).v(1) = e(1), o.t(2).v(2) = e(2)), conj(o.t(2).v(3) = e(3), o.t(2).v(4) = e(4)))),
                "array of resolved records");
            check(conj(o.t(1).n = 2005, conj(conj(o.t(1).v(1) = 2006, o.t(1).v(2) = 2000 + va.get(2, 2)), conj(o.t(1).v(3) = 2007, o.t(1).v(4) = 2008))),
                "other element of array");
            check(conj(conj(o.x = x, o.y = 0), o.z = z), "unresolved fields");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- Resolution functions of enumeration types and subtypes with one to three
-- drivers
library ieee;
use ieee.std_logic_1164.all;
package res7_pkg is
    type e3 is (a, b, c);
    type e3v is array (natural range <>) of e3;
    function atleast(x : e3v) return e3;     -- not the identity for a driver
    function highest(x : e3v) return e3;
    subtype rat is atleast e3;
    subtype rhi is highest e3 range b to c;
    type e20 is (l0, l1, l2, l3, l4, l5, l6, l7, l8, l9, l10, l11, l12, l13, l14, l15, l16, l17, l18, l19);
    type e20v is array (natural range <>) of e20;
    function highest(x : e20v) return e20;
    subtype rhi20 is highest e20;
    type bv is array (natural range <>) of boolean;
    function wired(x : bv) return boolean;
    subtype rbool is wired boolean;
    type iv is array (natural range <>) of integer;
    type rat_vec is array (natural range <>) of rat;
    function max_of(x : iv) return integer;
    function std_of(x : iv) return integer;
end package;
package body res7_pkg is
    function atleast(x : e3v) return e3 is
        variable r : e3 := b;
    begin
        for i in x'range loop
            if x(i) > r then r := x(i); end if;
        end loop;
        return r;
    end function;
    function highest(x : e3v) return e3 is
        variable r : e3 := a;
    begin
        for i in x'range loop
            if x(i) > r then r := x(i); end if;
        end loop;
        return r;
    end function;
    function highest(x : e20v) return e20 is
        variable r : e20 := l0;
    begin
        for i in x'range loop
            if x(i) > r then r := x(i); end if;
        end loop;
        return r;
    end function;
    function wired(x : bv) return boolean is
        variable r : boolean := false;
    begin
        for i in x'range loop
            r := r or x(i);
        end loop;
        return r;
    end function;
    function max_of(x : iv) return integer is
        variable r : integer := 0;
    begin
        for i in x'range loop
            if x(i) > r then r := x(i); end if;
        end loop;
        return r;
    end function;
    -- 0, 1, 2 for X, 0, 1
    function std_of(x : iv) return integer is
    begin
        for i in x'range loop
            if x(i) /= x(x'left) then return 0; end if;
        end loop;
        return x(x'left);
    end function;
end package body;

entity res7 is end entity;
library ieee;
use ieee.std_logic_1164.all;
use work.res7_pkg.all;
use work.sx.all;
architecture a of res7 is
    signal a1, a2, a3 : rat;
    signal h1, h2, h3 : rhi;
    signal x1, x2, x3 : x01;
    signal b1, b2, b3 : rbool;
    signal t1, t2, t3 : rhi20;
    signal v : rat_vec(1 to 3);
    type val_t is protected
        procedure put(i, x : integer);
        impure function get(i : integer) return integer;
    end protected;
    type val_t is protected body
        variable c : work.res7_pkg.iv(0 to 2);
        procedure put(i, x : integer) is begin c(i) := x; end procedure;
        impure function get(i : integer) return integer is begin return c(i); end function;
    end protected body;
    shared variable val : val_t;
begin
    p0: process is
        variable n : integer := nd_int(0, 2);
    begin
        val.put(0, n);
        n := pick(n);
        a1 <= e3'val(n);  a2 <= e3'val(n);  a3 <= e3'val(n);
        v(1) <= e3'val(n); v(2) <= e3'val(n); v(3) <= e3'val(n);
        h1 <= e3'val(1 + n mod 2); h2 <= e3'val(1 + n mod 2); h3 <= e3'val(1 + n mod 2);
        x1 <= std_ulogic'val(n + 1); x2 <= std_ulogic'val(n + 1); x3 <= std_ulogic'val(n + 1);
        b1 <= n = 1; b2 <= n = 1; b3 <= n = 1;
        t1 <= e20'val(n * 9); t2 <= e20'val(n * 9); t3 <= e20'val(n * 9);
        wait;
    end process;
    p1: process is
        variable n : integer := nd_int(0, 2);
    begin
        val.put(1, n);
        n := pick(n);
        a2 <= e3'val(n);  a3 <= e3'val(n);
        v(2) <= e3'val(n); v(3) <= e3'val(n);
        h2 <= e3'val(1 + n mod 2); h3 <= e3'val(1 + n mod 2);
        x2 <= std_ulogic'val(n + 1); x3 <= std_ulogic'val(n + 1);
        b2 <= n = 1; b3 <= n = 1;
        t2 <= e20'val(n * 9); t3 <= e20'val(n * 9);
        wait;
    end process;
    p2: process is
        variable n : integer := nd_int(0, 2);
    begin
        val.put(2, n);
        n := pick(n);
        a3 <= e3'val(n);
        v(3) <= e3'val(n);
        h3 <= e3'val(1 + n mod 2);
        x3 <= std_ulogic'val(n + 1);
        b3 <= n = 1;
        t3 <= e20'val(n * 9);
        wait;
    end process;
    mon: process is
        variable n0, n1, n2 : integer;
    begin
        wait for 1 fs;
        n0 := val.get(0);
        n1 := val.get(1);
        n2 := val.get(2);
        check(e3'pos(a1) = max_of((n0, 1)), "enumeration with one driver");
        check(e3'pos(a2) = max_of((n0, n1, 1)), "enumeration with two drivers");
        check(e3'pos(a3) = max_of((n0, n1, n2, 1)), "enumeration with three drivers");
        check(e3'pos(v(1)) = max_of((n0, 1)), "element with one driver");
        check(e3'pos(v(2)) = max_of((n0, n1, 1)), "element with two drivers");
        check(e3'pos(v(3)) = max_of((n0, n1, n2, 1)), "element with three drivers");
        check(e3'pos(h1) = 1 + n0 mod 2, "enumeration subtype with one driver");
        check(e3'pos(h2) = 1 + max_of((n0 mod 2, n1 mod 2)), "enumeration subtype with two drivers");
        check(e3'pos(h3) = 1 + max_of((n0 mod 2, n1 mod 2, n2 mod 2)), "enumeration subtype with three drivers");
        check(std_ulogic'pos(x1) = n0 + 1, "X01 with one driver");
        check(std_ulogic'pos(x2) = std_of((n0, n1)) + 1, "X01 with two drivers");
        check(std_ulogic'pos(x3) = std_of((n0, n1, n2)) + 1, "X01 with three drivers");
        check(b1 = (n0 = 1), "boolean with one driver");
        check(b2 = (n0 = 1 or n1 = 1), "boolean with two drivers");
        check(b3 = (n0 = 1 or n1 = 1 or n2 = 1), "boolean with three drivers");
        check(e20'pos(t1) = n0 * 9, "large enumeration with one driver");
        check(e20'pos(t2) = max_of((n0, n1)) * 9, "large enumeration with two drivers");
        check(e20'pos(t3) = max_of((n0, n1, n2)) * 9, "large enumeration with three drivers");
        reach("end");
        done;
    end process;
end architecture;
