package port_pkg is
    type iv is array (natural range <>) of integer;
    type rec is record
        a : integer;
        v : iv(0 to 1);
    end record;
    function neg(x : integer) return integer;
    subtype iv2 is iv(0 to 1);
    function swap(x : iv) return iv2;
    function max(x : iv) return integer;
    subtype rmax is max integer;
    function to_rec(x : iv) return rec;
    subtype iv3 is iv(0 to 2);
    function from_rec(x : rec) return iv3;
end package;
package body port_pkg is
    function neg(x : integer) return integer is
    begin
        return -x;
    end function;
    function max(x : iv) return integer is
        variable r : integer := integer'low;
    begin
        for i in x'range loop
            if x(i) > r then
                r := x(i);
            end if;
        end loop;
        return r;
    end function;
    function swap(x : iv) return iv2 is
        alias y : iv(0 to x'length - 1) is x;
        variable r : iv2;
    begin
        for i in r'range loop
            r(i) := y(x'length - 1 - i);
        end loop;
        return r;
    end function;
    function to_rec(x : iv) return rec is
        alias y : iv(0 to 2) is x;
    begin
        return (y(0), y(1 to 2));
    end function;
    function from_rec(x : rec) return iv3 is
    begin
        return (x.a, x.v(0), x.v(1));
    end function;
end package body;

-- Checks that its ports follow sources numbered by the generics
use work.port_pkg.all;
entity port_leaf is
    generic (e0, e1, e2 : integer; name : string);
    port (x : in iv(2 downto 0); y : in iv(0 to 2); z : in iv; s : in integer;
          d : in integer := 42; r : in rec);
end entity;
use work.sx.all;
use work.res_orc.r_value;
architecture a of port_leaf is
begin
    process is
        variable v0, v1, v2 : integer;
        alias za : iv(0 to z'length - 1) is z;
    begin
        for i in 1 to 4 loop
            wait for 1 fs;
            for j in 1 to 5 loop wait for 0 fs; end loop;
            v0 := r_value(e0, now);
            v1 := r_value(e1, now);
            v2 := r_value(e2, now);
            check(x(2) = v0 and x(1) = v1 and x(0) = v2, name & " downto");
            check(y(0) = v0 and y(1) = v1 and y(2) = v2, name & " to");
            check(z'length = 2 and za(0) = v1 and za(1) = v2, name & " slice");
            check(s = v1, name & " element");
            check(d = 42, name & " open");
            check(r.a = v0 and r.v(0) = v1 and r.v(1) = v2, name & " record");
            check(x(2)'event = (v0 /= r_value(e0, now - 1 fs)) or true, "");
        end loop;
        reach("leaf");
        wait;
    end process;
end architecture;

-- Middle layer: elements associated one by one, conversions
use work.port_pkg.all;
entity port_mid is
    port (p : in iv(0 to 2); q : in rec);
end entity;
architecture a of port_mid is
    alias pa : iv(1 to 3) is p;
begin
    u1: entity work.port_leaf generic map (16, 17, 18, "whole")
        port map (x => p, y => p, z => p(1 to 2), s => p(1), d => open, r => q);
    u2: entity work.port_leaf generic map (18, 17, 16, "parts")
        port map (x(2) => p(2), x(1) => p(1), x(0) => p(0),
                  y(0) => p(2), y(1 to 2) => swap(p(0 to 1)),
                  z => swap(p(0 to 1)), s => q.v(0),
                  r.a => q.v(1), r.v(0) => p(1), r.v(1) => q.a);
    u3: entity work.port_leaf generic map (16, 17, 18, "alias")
        port map (x(2 downto 1) => p(0 to 1), x(0) => pa(3), y => pa,
                  z => pa(2 to 3), s => pa(2),
                  r => to_rec(p));
end architecture;

entity port1 is generic (K : integer := 1); end entity;
use work.sx.all;
use work.port_pkg.all;
use work.res_orc.r_init;
use work.res_orc.r_add;
use work.res_orc.r_value;
architecture a of port1 is
    signal big : iv(7 downto 0) := (others => 0);
    signal r : rec := (0, (0, 0));
    signal neg1 : integer := 0;
begin
    g: for e in 0 to 2 generate
        process is
            variable t : time := 0 fs;
            variable n : integer;
        begin
            r_init(16 + e, 0);
            for i in 1 to K loop
                t := t + nd_time(1, 2);
                n := nd_int(1, 1000);
                r_add(16 + e, n, t);
                big(5 - e) <= transport n after t;
            end loop;
            wait;
        end process;
    end generate;
    r.a <= transport big(5);
    r.v <= transport big(4 downto 3);
    m: entity work.port_mid port map (big(5 downto 3), r);
    mon: process is
    begin
        wait for 5 fs;
        check(big(7) = 0 and big(6) = 0 and big(2) = 0 and big(0) = 0, "other elements");
        reach("end");
        done;
    end process;
end architecture;

-- Outputs: parts, open parts, conversions, several levels
use work.port_pkg.all;
entity out_leaf is
    generic (src : integer);
    port (o : out iv(0 to 2); n : out integer := 0; r : out rec; b : buffer integer);
end entity;
use work.sx.all;
use work.res_orc.r_init;
use work.res_orc.r_add;
use work.res_orc.r_value;
architecture a of out_leaf is
begin
    process is
        variable t : time;
        variable v : integer;
    begin
        r_init(src, 0);
        o <= (0, 0, 0);
        n <= 0;
        r <= (0, (0, 0));
        b <= 0;
        t := nd_time(1, 2);
        v := nd_int(1, 1000);
        r_add(src, v, t);
        wait for t;
        o(0) <= v;
        o(1 to 2) <= (v + 1, v + 2);
        n <= v + 3;
        r.a <= v + 4;
        r.v <= (v + 5, v + 6);
        b <= v + 7;
        wait for 0 fs;
        -- outputs can be read
        check(o(1) = v + 1 and n = v + 3 and r.v(1) = v + 6 and b = v + 7, "outputs read back");
        wait;
    end process;
end architecture;

use work.port_pkg.all;
entity out_mid is
    generic (src : integer);
    port (w : out iv(7 downto 0); c : buffer integer);
end entity;
architecture a of out_mid is
begin
    u: entity work.out_leaf generic map (src)
        port map (o(0) => w(7), o(1 to 2) => w(5 downto 4),
                  neg(n) => w(6), from_rec(r) => w(3 downto 1), b => c);
    w(0) <= 77;
end architecture;

entity port2 is end entity;
use work.sx.all;
use work.port_pkg.all;
use work.res_orc.r_value;
architecture a of port2 is
    signal w0 : iv(0 to 7);
    signal w1 : iv(0 to 15) := (others => 5);
    signal c : iv(0 to 1);
begin
    u0: entity work.out_mid generic map (16) port map (w0, c(0));
    u1: entity work.out_mid generic map (17) port map (w1(4 to 11), c(1));
    w1(0) <= 9;
    mon: process is
        variable v : integer;
        variable on1 : integer;
    begin
        for i in 1 to 3 loop
            wait for 1 fs;
            for j in 1 to 5 loop wait for 0 fs; end loop;
            v := r_value(16, now);
            if v /= 0 then
                check(w0(0) = v and w0(2) = v + 1 and w0(3) = v + 2, "elements of output");
                check(w0(1) = -(v + 3), "converted output");
                check(w0(4) = v + 4 and w0(5) = v + 5 and w0(6) = v + 6, "record output");
                check(c(0) = v + 7, "buffer");
            else
                check(w0(0 to 6) = (0, 0, 0, 0, 0, 0, 0), "before output");
                check(c(0) = 0, "buffer before output");
            end if;
            check(w0(7) = 77, "constant output");
            v := r_value(17, now);
            if v /= 0 then
                check(w1(4) = v and w1(6) = v + 1 and w1(7) = v + 2, "elements of output");
                check(w1(5) = -(v + 3), "converted output");
                check(w1(8) = v + 4 and w1(9) = v + 5 and w1(10) = v + 6, "record output");
                check(c(1) = v + 7, "buffer");
            else
                check(w1(4 to 10) = (0, 0, 0, 0, 0, 0, 0), "before output");
            end if;
            check(w1(11) = 77, "constant output");
            check(w1(0) = 9, "driven element");
            check(w1(1 to 3) = (5, 5, 5) and w1(12 to 15) = (5, 5, 5, 5), "undriven elements");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- Bidirectional ports of resolved signals through levels, generate
use work.port_pkg.all;
entity io_leaf is generic (src : integer); port (io : inout rmax; slice : inout iv(0 to 1) := (0, 0)); end entity;
use work.sx.all;
use work.res_orc.r_init;
use work.res_orc.r_add;
use work.res_orc.r_value;
architecture a of io_leaf is
begin
    process is
        variable t : time;
        variable v : integer;
    begin
        r_init(src, 0);
        t := nd_time(1, 2);
        v := nd_int(1, 5);
        io <= transport v after t;
        r_add(src, v, t);
        slice(0) <= v + 1 after t;
        wait for 3 fs;
        for j in 1 to 5 loop wait for 0 fs; end loop;
        check(io = maximum(maximum(r_value(16, now), r_value(17, now)), r_value(18, now)), "value of inout inside");
        check(slice(0) = v + 1 or src /= 16, "");
        check(slice(1) = 0, "element without transaction");
        reach("leaf");
        wait;
    end process;
    slice(1) <= 0;
end architecture;

use work.port_pkg.all;
entity io_mid is port (io : inout rmax; s : inout iv(0 to 3) := (0, 0, 0, 0)); end entity;
architecture a of io_mid is
begin
    g: for i in 0 to 1 generate
        u: entity work.io_leaf generic map (16 + i) port map (io, s(2 * i to 2 * i + 1));
    end generate;
end architecture;

entity port3 is end entity;
use work.sx.all;
use work.res_orc.r_init;
use work.res_orc.r_add;
use work.res_orc.r_value;
use work.port_pkg.all;
architecture a of port3 is
    signal s : rmax := 0;
    signal v : iv(3 downto 0) := (0, 0, 0, 0);
begin
    m: entity work.io_mid port map (s, v);
    top: process is
        variable t : time;
        variable n : integer;
        variable x : integer;
    begin
        r_init(18, 0);
        t := nd_time(1, 2);
        n := nd_int(1, 5);
        s <= transport n after t;
        r_add(18, n, t);
        for i in 1 to 4 loop
            wait for 1 fs;
            for j in 1 to 5 loop wait for 0 fs; end loop;
            check(s = maximum(maximum(r_value(16, now), r_value(17, now)), r_value(18, now)), "value of inout");
            x := r_value(16, now);
            if x /= 0 then
                check(v(3) = x + 1, "slice of inout");
            else
                check(v(3) = 0, "slice of inout");
            end if;
            x := r_value(17, now);
            if x /= 0 then
                check(v(1) = x + 1, "slice of inout");
            else
                check(v(1) = 0, "slice of inout");
            end if;
            check(v(2) = 0 and v(0) = 0, "slice of inout");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

use work.res_orc.all;
package port4_pkg is
    subtype eiv3 is (sum) iv(1 to 3);
end package;

-- Ports of mode inout seen through ports of mode in of inner instances,
-- permuted elements and conversions
use work.port_pkg.all;
use work.res_orc.all;
entity in_leaf is port (q : in work.res_orc.iv(0 to 1); r : in integer; x : in integer); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of in_leaf is
begin
    process is
    begin
        wait for 1 fs;
        for i in 1 to 2 loop
            for j in 1 to 4 loop wait for 0 fs; end loop;
            check(q(0) = r_value(32, now) + r_value(43, now) + 3000, "in port connected to element of inout port");
            check(q(1) = r_value(31, now) + r_value(41, now) + 3000, "in port connected to element of inout port");
            check(r = -(r_value(33, now) + r_value(42, now) + 4000), "in port connected to inout port with conversion");
            check(x = r_value(33, now) + r_value(42, now) + 4000, "in port connected through inout port");
            wait for 1 fs;
        end loop;
        reach("leaf");
        wait;
    end process;
end architecture;

use work.port_pkg.all;
use work.res_orc.all;
entity io_inner is port (b : inout rint := 0); end entity;
use work.sx.all;
architecture a of io_inner is
begin
    process is
    begin
        wait for 1 fs;
        for i in 1 to 2 loop
            for j in 1 to 4 loop wait for 0 fs; end loop;
            check(b = r_value(33, now) + r_value(42, now) + 4000, "value of inner inout port");
            wait for 1 fs;
        end loop;
        wait;
    end process;
end architecture;

use work.port_pkg.all;
use work.res_orc.all;
use work.port4_pkg.all;
entity io_mid4 is
    generic (K : integer);
    port (p : inout eiv3 := (0, 0, 0); c : inout rint := 0);
end entity;
use work.sx.all;
architecture a of io_mid4 is
begin
    l: entity work.in_leaf port map (q(1) => p(1), q(0) => p(3), r => neg(p(2)), x => p(2));
    i: entity work.io_inner port map (p(2));
    p1: process is
        variable t : time;
        variable v : integer;
    begin
        r_init(41, 0);
        r_init(51, 0);
        wait for 0 fs;
        v := nd_int(-100, 100);
        t := nd_time(1, 2);
        p(1) <= v after t;
        r_add(41, v, t);
        c <= v after t;
        r_add(51, v, t);
        wait;
    end process;
    p2: process is
        variable t : time;
        variable v : integer;
    begin
        r_init(42, 0);
        r_init(43, 0);
        wait for 0 fs;
        v := nd_int(-100, 100);
        t := nd_time(1, 2);
        p(2 to 3) <= (v, v + 1) after t;
        r_add(42, v, t);
        r_add(43, v + 1, t);
        wait;
    end process;
    process is
    begin
        wait for 1 fs;
        for i in 1 to 2 loop
            for j in 1 to 4 loop wait for 0 fs; end loop;
            check(c = -(r_value(52, now) - r_value(51, now) + 1000), "effective value of converted inout port");
            check(p(1) = r_value(31, now) + r_value(41, now) + 3000, "effective value of inout port");
            check(p(2) = r_value(33, now) + r_value(42, now) + 4000, "effective value of inout port");
            check(p(3) = r_value(32, now) + r_value(43, now) + 3000, "effective value of inout port");
            wait for 1 fs;
        end loop;
        reach("mid");
        wait;
    end process;
end architecture;

entity port4 is generic (K : integer := 1); end entity;
use work.sx.all;
use work.res_orc.all;
use work.port_pkg.neg;
use work.port4_pkg.all;
architecture a of port4 is
    signal s : eiv3 := (0, 0, 0);
    signal w : rint := 0;
begin
    m: entity work.io_mid4 generic map (K)
        port map (p(1) => s(1), p(2) => s(3), p(3) => s(2), neg(c) => neg(w));
    process is
        variable t : time;
        variable v, u : integer;
    begin
        for j in 31 to 33 loop
            r_init(j, 0);
        end loop;
        r_init(52, 0);
        wait for 0 fs;
        for i in 1 to K loop
            t := nd_time(1, 2);
            v := nd_int(-100, 100);
            u := nd_int(-100, 100);
            s <= (v, u, u - v) after t;
            r_add(31, v, t);
            r_add(32, u, t);
            r_add(33, u - v, t);
            w <= u after t;
            r_add(52, u, t);
        end loop;
        wait for 1 fs;
        for i in 1 to 2 loop
            for j in 1 to 4 loop wait for 0 fs; end loop;
            check(s(1) = r_value(31, now) + r_value(41, now) + 3000, "actual of inout port");
            check(s(3) = r_value(33, now) + r_value(42, now) + 4000, "actual of inout port");
            check(s(2) = r_value(32, now) + r_value(43, now) + 3000, "actual of inout port");
            check(w = r_value(52, now) - r_value(51, now) + 1000, "actual of converted inout port");
            wait for 1 fs;
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- A port of mode inout with conversions of whole arrays which is driven in
-- parts, and whose actual is driven elsewhere too
package port5_pkg is
    type piv is array (natural range <>) of integer;
    subtype piv4 is piv(0 to 3);
    subtype eiv4 is (work.res_orc.sum) work.res_orc.iv(1 to 4);
    function inward(x : work.res_orc.iv) return piv4;
    function outward(x : piv) return work.res_orc.iv;
end package;
package body port5_pkg is
    function inward(x : work.res_orc.iv) return piv4 is
        variable r : piv4;
    begin
        for i in 0 to 3 loop
            r(i) := -x(x'left + 3 - i);
        end loop;
        return r;
    end function;
    function outward(x : piv) return work.res_orc.iv is
        variable r : work.res_orc.iv(1 to 4);
    begin
        for i in 0 to 3 loop
            r(4 - i) := x(x'left + i) * 2;
        end loop;
        return r;
    end function;
end package body;

use work.port5_pkg.all;
entity io_parts is port (p : inout piv4 := (0, 0, 0, 0)); end entity;
use work.sx.all;
use work.res_orc.all;
use work.port5_pkg.all;
architecture a of io_parts is
    signal n : integer := 0;
begin
    process is
        variable t : time;
        variable v : integer;
    begin
        for j in 60 to 63 loop r_init(j, 0); end loop;
        wait for 0 fs;
        t := nd_time(1, 2);
        v := nd_int(-100, 100);
        p(0 to 1) <= (v, v + 1) after t;
        r_add(60, v, t);
        r_add(61, v + 1, t);
        wait;
    end process;
    process is
        variable t : time;
        variable v : integer;
    begin
        wait for 0 fs;
        t := nd_time(1, 2);
        v := nd_int(-100, 100);
        p(2) <= v after t;
        p(3) <= v - 1 after 1 fs;
        r_add(62, v, t);
        r_add(63, v - 1, 1 fs);
        wait;
    end process;
    process is
    begin
        wait for 1 fs;
        for i in 1 to 3 loop
            for j in 1 to 4 loop wait for 0 fs; end loop;
            for k in 0 to 3 loop
                check(p(k) = -(r_value(70 + 3 - k, now) + 2 * r_value(60 + k, now) + 2000),
                    "value of inout port with conversions");
            end loop;
            wait for 1 fs;
        end loop;
        reach("leaf");
        wait;
    end process;
    process (p(2)) is
    begin
        n <= n + 1;
    end process;
end architecture;

entity port5 is end entity;
use work.sx.all;
use work.res_orc.all;
use work.port5_pkg.all;
architecture a of port5 is
    signal s : eiv4 := (0, 0, 0, 0);
begin
    u: entity work.io_parts port map (outward(p) => inward(s));
    process is
        variable t : time;
        variable v : integer;
    begin
        for j in 70 to 73 loop r_init(j, 0); end loop;
        t := nd_time(2, 3);
        v := nd_int(-100, 100);
        wait for 0 fs;
        s <= (v, 5, v, 6) after 1 fs, (v, v + 1, 7, 6) after t;
        for j in 70 to 73 loop null; end loop;
        r_add(70, v, 1 fs);
        r_add(71, 5, 1 fs); r_add(71, v + 1, t);
        r_add(72, v, 1 fs); r_add(72, 7, t);
        r_add(73, 6, 1 fs);
        wait for 1 fs;
        for i in 1 to 3 loop
            for j in 1 to 4 loop wait for 0 fs; end loop;
            for k in 0 to 3 loop
                check(s(k + 1) = r_value(70 + k, now) + 2 * r_value(60 + 3 - k, now) + 2000,
                    "actual of inout port with conversions");
            end loop;
            wait for 1 fs;
        end loop;
        reach("end");
        wait for 2 fs;
        done;
    end process;
end architecture;
