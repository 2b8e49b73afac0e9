-- Scalar: forced and released at any time while its driver changes
entity force1 is generic (K : integer := 2; GAP : integer := 2); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of force1 is
    signal s : integer := 0;
    signal events : integer := 0;
begin
    drv: process is
        variable t : time := 0 fs;
        variable v : integer;
    begin
        r_init(1, 0);
        for i in 1 to K loop
            t := t + nd_time(1, GAP);
            v := nd_int(0, 1);
            s <= transport v after t;
            r_add(1, v, t);
        end loop;
        wait;
    end process;
    frc: process is
        variable d : time;
        variable v : integer;
    begin
        r_init(2, -2000);
        for i in 1 to K loop
            wait for nd_time(1, GAP);
            v := nd_int(-1, 1);
            if v = -1 then
                s <= release;
                r_add(2, -2000, now);
            else
                s <= force v;
                r_add(2, v, now);
            end if;
        end loop;
        wait;
    end process;
    ev: process (s) is
    begin
        if now > 0 fs then
            check(s /= s'last_value, "event with change");
            check(s'event, "event");
        end if;
    end process;
    mon: process is
    begin
        check(s = 0, "initial");
        for i in 1 to K * GAP + 2 loop
            wait for 1 fs;
            for j in 1 to 3 loop wait for 0 fs; end loop;
            check(s = f_value(2, now, r_value(1, now)), "forced or driven value");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- Elements and slices, with ports below
library ieee;
use ieee.std_logic_1164.all;
use work.res_orc.all;
entity force_sub is
    port (i0 : in integer; iv0 : in iv(1 downto 0); i : in iv(0 to 2); o : out integer);
end entity;
use work.sx.all;
architecture a of force_sub is
    signal inner : integer := 0;
begin
    o <= i(1) + 100;
    inner <= i(0);
    process is
    begin
        wait for 1 fs;
        loop
            for j in 1 to 3 loop wait for 0 fs; end loop;
            check(i(0) = i0, "the same signal in two ports");
            check(iv0(1) = i(1), "the same signal in two ports");
            check(iv0(0) = i(2), "the same signal in two ports");
            wait for 1 fs;
        end loop;
    end process;
end architecture;

entity force2 is generic (K : integer := 1; GAP : integer := 2; F : integer := 2); end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of force2 is
    signal v : iv(0 to 2) := (0, 0, 0);
    signal o : integer := 100;
begin
    g: for e in 0 to 2 generate
        process is
            variable t : time := 0 fs;
            variable n : integer;
        begin
            r_init(e, 0);
            for i in 1 to K loop
                t := t + nd_time(1, GAP);
                n := nd_int(1, 3);
                v(e) <= transport n after t;
                r_add(e, n, t);
            end loop;
            wait;
        end process;
    end generate;
    u: entity work.force_sub port map (v(0), v(1 to 2), v, o);
    frc: process is
        variable n, op : integer;
    begin
        for e in 0 to 2 loop
            r_init(4 + e, -2000);
        end loop;
        for i in 1 to F loop
            wait for nd_time(1, GAP);
            n := nd_int(4, 6);
            op := pick(nd_int(0, 6));
            case op is
                when 0 => v <= force (n, n + 1, n);
                    r_add(4, n, now); r_add(5, n + 1, now); r_add(6, n, now);
                when 1 => v(1) <= force n;
                    r_add(5, n, now);
                when 2 => v(1 to 2) <= force (n + 1, n);
                    r_add(5, n + 1, now); r_add(6, n, now);
                when 3 => v <= release;
                    for e in 4 to 6 loop r_add(e, -2000, now); end loop;
                when 4 => v(1) <= release;
                    r_add(5, -2000, now);
                when 5 => v(0 to 1) <= release;
                    r_add(4, -2000, now); r_add(5, -2000, now);
                when others => v(0) <= force n; v(2) <= release;
                    r_add(4, n, now); r_add(6, -2000, now);
            end case;
        end loop;
        wait;
    end process;
    mon: process is
    begin
        for i in 1 to F * GAP + 1 loop
            wait for 1 fs;
            for j in 1 to 4 loop wait for 0 fs; end loop;
            for e in 0 to 2 loop
                check(v(e) = f_value(4 + e, now, r_value(e, now)), "forced or driven element");
            end loop;
            check(o = v(1) + 100, "port follows forced value");
        end loop;
        reach("end");
        done;
    end process;
end architecture;

-- Resolved signal, forced driving value, external name
library ieee;
use ieee.std_logic_1164.all;
entity force3_sub is end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of force3_sub is
    signal s : rint := 0;
    signal p : integer := 0;
begin
    g: for e in 1 to 2 generate
        process is
            variable t : time;
            variable n : integer;
        begin
            r_init(e, 0);
            t := nd_time(1, 3);
            n := nd_int(1, 3);
            s <= transport n after t;
            r_add(e, n, t);
            wait;
        end process;
    end generate;
    mon: process is
        variable x : integer;
    begin
        for i in 1 to 6 loop
            wait for 1 fs;
            for j in 1 to 4 loop wait for 0 fs; end loop;
            x := r_sum(1, 2, now);
            check(s = f_value(4, now, x), "forced or resolved value");
            check(p = s, "concurrent assignment follows");
        end loop;
        reach("end");
        done;
    end process;
    p <= s;
end architecture;

entity force3 is end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of force3 is
begin
    u: entity work.force3_sub;
    frc: process is
        alias x is << signal .force3.u.s : rint >>;
        variable v : integer;
    begin
        r_init(4, -2000);
        for i in 1 to 2 loop
            wait for nd_time(1, 2);
            v := nd_int(-1, 2);
            if v = -1 then
                x <= release;
                r_add(4, -2000, now);
            else
                x <= force v;
                r_add(4, v, now);
            end if;
        end loop;
        wait;
    end process;
end architecture;

-- Ports of mode out and inout: forcing the driving value
use work.res_orc.all;
entity force4_sub is port (o : out integer; io : inout integer); end entity;
use work.sx.all;
architecture a of force4_sub is
begin
    process is
        variable t : time;
        variable n : integer;
    begin
        r_init(1, integer'low);
        t := nd_time(0, 2);
        n := nd_int(1, 3);
        o <= transport n after t;
        io <= transport n after t;
        r_add(1, n, t);
        wait;
    end process;
    frc: process is
        variable v : integer;
    begin
        r_init(4, -2000);
        for i in 1 to 2 loop
            wait for nd_time(1, 2);
            v := nd_int(-1, 2);
            if v = -1 then
                o <= release;
                io <= release;
                r_add(4, -2000, now);
            else
                o <= force out v;
                io <= force out v;
                r_add(4, v, now);
            end if;
        end loop;
        wait;
    end process;
end architecture;

entity force4 is end entity;
use work.sx.all;
use work.res_orc.all;
architecture a of force4 is
    signal a, b : integer;
    signal copy : integer;
begin
    u: entity work.force4_sub port map (a, b);
    copy <= b;
    mon: process is
        variable x : integer;
    begin
        for i in 1 to 6 loop
            wait for 1 fs;
            for j in 1 to 4 loop wait for 0 fs; end loop;
            x := f_value(4, now, r_value(1, now));
            check(a = x, "out port");
            check(b = x, "inout port");
            check(copy = x, "copy of inout port");
        end loop;
        reach("end");
        done;
    end process;
end architecture;
