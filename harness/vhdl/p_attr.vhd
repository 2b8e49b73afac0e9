package attr_orc is
    procedure h_init(id, v : integer);
    procedure h_add(id, v : integer; t : time);
    impure function h_value(id : integer; t : time) return integer;
    impure function h_last_event(id : integer; t : time) return time;
    impure function h_last_active(id : integer; t : time) return time;
    impure function h_last_value(id : integer; t : time) return integer;
    impure function h_count(id : integer; t : time) return integer;
    attribute foreign of h_init : procedure is "INTERNAL _h_init";
    attribute foreign of h_add : procedure is "INTERNAL _h_add";
    attribute foreign of h_value : function is "INTERNAL _h_value";
    attribute foreign of h_last_event : function is "INTERNAL _h_last_event";
    attribute foreign of h_last_active : function is "INTERNAL _h_last_active";
    attribute foreign of h_last_value : function is "INTERNAL _h_last_value";
    attribute foreign of h_count : function is "INTERNAL _h_count";
    type int_vec is array (natural range <>) of integer;
    type rec is record
        x : integer;
        y : int_vec(0 to 1);
    end record;
    function minimum2(a, b : time) return time;
end package;
package body attr_orc is
    procedure h_init(id, v : integer) is begin end procedure;
    procedure h_add(id, v : integer; t : time) is begin end procedure;
    impure function h_value(id : integer; t : time) return integer is
    begin return 0; end function;
    impure function h_last_event(id : integer; t : time) return time is
    begin return 0 fs; end function;
    impure function h_last_active(id : integer; t : time) return time is
    begin return 0 fs; end function;
    impure function h_last_value(id : integer; t : time) return integer is
    begin return 0; end function;
    impure function h_count(id : integer; t : time) return integer is
    begin return 0; end function;
    function minimum2(a, b : time) return time is
    begin
        if a < b then return a; else return b; end if;
    end function;
end package body;

-- Scalar signal
entity attr1 is
    generic (K : integer := 3; GAP : integer := 3; D : time := 2 fs);
end entity;
use work.sx.all;
use work.attr_orc.all;
architecture a of attr1 is
    signal s : integer := 0;
begin
    stim: process is
        variable t, te, ta : time := 0 fs;
        variable v : integer;
        variable tr : bit;
    begin
        h_init(0, 0);
        tr := s'transaction;      -- initial value is not specified
        for i in 1 to K loop
            t := t + nd_time(1, GAP);
            v := nd_int(0, 1);
            s <= transport v after t;
            h_add(0, v, t);
        end loop;
        wait for nd_time(0, K * GAP + 3);
        -- after all delta cycles of this time
        for i in 1 to 4 loop
            wait for 0 fs;
        end loop;
        te := h_last_event(0, now);
        ta := h_last_active(0, now);
        check(s = h_value(0, now), "value");
        check(not s'event and not s'active, "no event or activity after the cycle");
        check(s'last_event = te, "last_event");
        check(s'last_active = ta, "last_active");
        check(s'last_value = h_last_value(0, now), "last_value");
        check(s'delayed(D) = h_value(0, now - D), "delayed");
        check(s'stable(D) = (te >= D), "stable");
        check(s'quiet(D) = (ta >= D), "quiet");
        check(s'stable and s'quiet, "stable and quiet after the cycle");
        check((s'transaction /= tr) = (h_count(0, now) mod 2 = 1), "transaction");
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait on s'transaction;
        check(s = h_value(0, now), "value in cycle");
        check(s'active, "active");
        check(s'event = (h_last_event(0, now) = 0 fs), "event");
        check(s'last_value = h_last_value(0, now), "last_value in cycle");
        check(s'last_active = 0 fs, "last_active in cycle");
        check(s'last_event = h_last_event(0, now), "last_event in cycle");
        check(s'delayed = h_value(0, now - 1 fs), "delayed by a delta");
        check(s'stable = not s'event, "stable in cycle");
        check(not s'quiet, "quiet in cycle");
        check(not s'quiet(D), "quiet for a time in cycle");
        wait for 0 fs;
        check(not s'active and not s'event, "activity ends with the cycle");
        check(s'delayed = s, "delayed in next delta");
    end process;

    ev: process is   -- wakes exactly for events
        variable n : time := -1 fs;
    begin
        wait on s;
        check(s'event and h_last_event(0, now) = 0 fs, "event wakes process");
        check(now /= n, "one event for each cycle");
        n := now;
    end process;

    st: process is   -- 'STABLE(T) is a signal whose events are as defined
    begin
        wait on s'stable(D);
        if s'stable(D) then
            check(h_last_event(0, now) = D, "stable becomes true");
        else
            check(h_last_event(0, now) = 0 fs, "stable becomes false");
        end if;
        wait on s'stable(D);
        if s'stable(D) then
            check(h_last_event(0, now) = D, "stable becomes true");
        else
            check(h_last_event(0, now) = 0 fs, "stable becomes false");
        end if;
    end process;

    dl: process is
    begin
        wait on s'delayed(D);
        check(h_last_event(0, now - D) = 0 fs, "delayed has event when signal did");
        check(s'delayed(D) = h_value(0, now - D), "delayed value");
    end process;
end architecture;

-- Composite signal whose elements are driven by different processes, and
-- through ports
entity attr_sub is
    generic (D : time);
    port (p : in work.attr_orc.int_vec(0 to 2);
          e : in integer);
end entity;
use work.sx.all;
use work.attr_orc.all;
architecture a of attr_sub is
begin
    process is
    begin
        wait on p'transaction;
        check(p'active, "port array active");
        check(p'event = (h_last_event(0, now) = 0 fs or h_last_event(1, now) = 0 fs),
              "port array event");
        check(p(0)'event = (h_last_event(0, now) = 0 fs), "port element 0 event");
        check(p(0)'active = (h_last_active(0, now) = 0 fs), "port element 0 active");
        check(e'event = (h_last_event(1, now) = 0 fs), "port event");
        check(e'active = (h_last_active(1, now) = 0 fs), "port active");
        check(p'last_active = 0 fs, "port array last_active in cycle");
        check(not p(2)'active, "port element without driver");
    end process;
end architecture;
entity attr2 is
    generic (K : integer := 2; LESS : integer := 1; GAP : integer := 2; D : time := 2 fs);
end entity;
use work.sx.all;
use work.attr_orc.all;
architecture a of attr2 is
    signal s : int_vec(0 to 2) := (0, 0, 0);
begin
    u: entity work.attr_sub generic map (D) port map (s, s(1));

    g: for j in 0 to 1 generate
        drv: process is
            variable t : time := 0 fs;
            variable v : integer;
        begin
            h_init(j, 0);
            for i in 1 to K - j * LESS loop
                t := t + nd_time(1, GAP);
                v := nd_int(0, 1);
                s(j) <= transport v after t;
                h_add(j, v, t);
            end loop;
            wait;
        end process;
    end generate;

    stim: process is
        variable t0, t1, te, ta : time;
        variable v : int_vec(0 to 2);
    begin
        wait for nd_time(1, K * GAP + 3);
        -- after all delta cycles of this time
        for i in 1 to 4 loop
            wait for 0 fs;
        end loop;
        t0 := h_last_event(0, now);
        t1 := h_last_event(1, now);
        te := minimum2(t0, t1);
        ta := minimum2(h_last_active(0, now), h_last_active(1, now));
        check(s'last_event = te, "array last_event");
        check(s'last_active = ta, "array last_active");
        check(s(0)'last_event = t0, "element 0 last_event");
        check(s(1 to 2)'last_event = t1, "slice last_event");
        check(s(2)'last_event = time'high, "element 2 last_event");
        v := s'last_value;
        check(v(0) = h_last_value(0, now), "element 0 of last_value");
        check(v(1) = h_last_value(1, now), "element 1 of last_value");
        check(v(2) = 0, "element 2 of last_value");
        check(s'stable(D) = (te >= D), "array stable");
        check(s'quiet(D) = (ta >= D), "array quiet");
        v := s'delayed(D);
        check(v(0) = h_value(0, now - D), "element 0 of delayed");
        check(v(1) = h_value(1, now - D), "element 1 of delayed");
        reach("end");
        done;
        wait;
    end process;
    
    dyn: process is
        variable j : integer;
    begin
        wait on s;
        j := nd_int(0, 1);
        check(s(j)'event = (h_last_event(j, now) = 0 fs), "event of dynamic element");
        check(s(j)'active = (h_last_active(j, now) = 0 fs), "activity of dynamic element");
        check(s(j)'last_event = h_last_event(j, now), "last_event of dynamic element");
        check(s(j)'last_value = h_last_value(j, now), "last_value of dynamic element");
        wait;
    end process;
end architecture;

-- Record with nested array
entity attr3 is
    generic (K : integer := 2; GAP : integer := 2; D : time := 2 fs);
end entity;
use work.sx.all;
use work.attr_orc.all;
architecture a of attr3 is
    signal s : rec := (0, (0, 0));
begin
    drv: process is
        variable t : time := 0 fs;
        variable v : integer;
    begin
        h_init(0, 0);
        h_init(1, 0);
        h_init(2, 0);
        for i in 1 to K loop
            t := t + nd_time(1, GAP);
            v := nd_int(0, 1);
            if nd_bool then
                s.x <= transport v after t;
                h_add(0, v, t);
            else
                s.y <= transport (v, v) after t;
                h_add(1, v, t);
                h_add(2, v, t);
            end if;
        end loop;
        wait;
    end process;

    stim: process is
        variable t0, t1 : time;
        variable v : rec;
    begin
        wait for nd_time(1, K * GAP + 3);
        for i in 1 to 4 loop
            wait for 0 fs;
        end loop;
        t0 := h_last_event(0, now);
        t1 := h_last_event(1, now);
        check(s'last_event = minimum2(t0, t1), "record last_event");
        check(s.y'last_event = t1, "field last_event");
        check(s.y(1)'last_active = h_last_active(2, now), "subelement last_active");
        check(s'stable(D) = (minimum2(t0, t1) >= D), "record stable");
        v := s'last_value;
        check(v.x = h_last_value(0, now), "field x of last_value");
        check(v.y(1) = h_last_value(2, now), "field y of last_value");
        v := s'delayed(D);
        check(v.x = h_value(0, now - D), "field x of delayed");
        check(v.y(0) = h_value(1, now - D), "field y of delayed");
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait on s;
        check(s'event, "record event");
        check(s.x'event = (h_last_event(0, now) = 0 fs), "field x event");
        check(s.y'event = (h_last_event(1, now) = 0 fs), "field y event");
        check(s.y(1)'active = (h_last_active(1, now) = 0 fs), "field y active");
    end process;
end architecture;

-- Signal with several sources: drivers and a port of mode inout
package attr_res is
    function max_of (x : work.attr_orc.int_vec) return integer;
    subtype mint is max_of integer;
    function conv (x : integer) return integer;
end package;
package body attr_res is
    function max_of (x : work.attr_orc.int_vec) return integer is
        variable r : integer := 0;
    begin
        for i in x'range loop
            if x(i) > r then
                r := x(i);
            end if;
        end loop;
        return r;
    end function;
    function conv (x : integer) return integer is
    begin
        return -x;
    end function;
end package body;
entity attr_conv is
    port (p : in integer);
end entity;
use work.sx.all;
use work.attr_orc.all;
architecture a of attr_conv is
begin
    process is
        variable n, m : integer := 0;
        variable t : time := 0 fs;
    begin
        wait on p'transaction for 5 fs - now;
        if now < 5 fs then
            check(p'active, "active in port with conversion");
            check(p'last_active = 0 fs, "last_active in port with conversion");
            check(p = h_value(2, now), "value of port with conversion");
            check(p'event = (h_value(2, now) /= h_value(2, now - 1 fs)), "event of port with conversion");
            n := n + 1;
        else
            while t < now loop
                t := t + 1 fs;
                if h_last_active(2, t) = 0 fs then
                    m := m + 1;
                end if;
            end loop;
            check(n = m, "transactions in port with conversion");
            wait;
        end if;
    end process;
end architecture;

entity attr_src is
    generic (K : integer; GAP : integer);
    port (q : inout work.attr_res.mint := 0; r : out integer := 0);
end entity;
use work.sx.all;
use work.attr_orc.all;
architecture a of attr_src is
begin
    process is
        variable t : time := 0 fs;
        variable v : integer;
    begin
        h_init(2, 0);
        for i in 1 to K loop
            t := t + nd_time(1, GAP);
            v := nd_int(0, 2);
            q <= transport v after t;
            r <= transport v after t;
            h_add(2, v, t);
        end loop;
        wait;
    end process;
    process is
        variable n, m : integer := 0;
        variable t : time := 0 fs;
    begin
        wait on q'transaction for 5 fs - now;
        if now < 5 fs then
            check(q'active, "active in port");
            check(q'last_active = 0 fs, "last_active in port");
            n := n + 1;
        else
            while t < now loop
                t := t + 1 fs;
                if h_last_active(2, t) = 0 fs or h_last_active(1, t) = 0 fs
                    or h_last_active(0, t) = 0 fs then
                    m := m + 1;
                end if;
            end loop;
            check(n = m, "transactions in port");
            wait;
        end if;
    end process;
    process is
    begin
        wait for 3 fs;
        wait for 0 fs;
        wait for 0 fs;
        check(q'last_active = minimum2(h_last_active(2, now),
              minimum2(h_last_active(1, now), h_last_active(0, now))), "last_active of inout port");
        check(r'last_active = h_last_active(2, now), "last_active of out port");
        wait;
    end process;
end architecture;
entity attr4 is
    generic (K : integer := 2; GAP : integer := 2; D : time := 2 fs);
end entity;
use work.sx.all;
use work.attr_orc.all;
use work.attr_res.all;
architecture a of attr4 is
    signal s : mint := 0;
    signal w : integer := 0;
    impure function value(t : time) return integer is
    begin
        return max_of((h_value(0, t), h_value(1, t), h_value(2, t)));
    end function;
    impure function last_active(t : time) return time is
    begin
        return minimum2(h_last_active(2, t), minimum2(h_last_active(1, t), h_last_active(0, t)));
    end function;
begin
    u: entity work.attr_src generic map (1, GAP) port map (q => s, conv(r) => w);
    c: entity work.attr_conv port map (p => conv(w));

    g: for j in 0 to 1 generate
        drv: process is
            variable t : time := 0 fs;
            variable v : integer;
        begin
            h_init(j, 0);
            for i in 1 to K - 1 loop
                t := t + nd_time(1, GAP);
                v := nd_int(0, 1);
                s <= transport v after t;
                h_add(j, v, t);
            end loop;
            wait;
        end process;
    end generate;

    stim: process is
        variable te, tt : time;
        variable lv : integer;
    begin
        wait for nd_time(1, K * GAP + 1);
        for i in 1 to 4 loop
            wait for 0 fs;
        end loop;
        te := time'high;
        lv := 0;
        tt := 0 fs;
        while tt < now loop
            tt := tt + 1 fs;
            if value(tt) /= value(tt - 1 fs) then
                te := now - tt;
                lv := value(tt - 1 fs);
            end if;
        end loop;
        check(s = value(now), "value of resolved signal");
        check(s'last_active = last_active(now), "last_active of resolved signal");
        check(s'last_event = te, "last_event of resolved signal");
        check(te = time'high or s'last_value = lv, "last_value of resolved signal");
        check(s'stable(D) = (te >= D), "resolved signal stable");
        check(s'quiet(D) = (last_active(now) >= D), "resolved signal quiet");
        check(w'last_active = h_last_active(2, now), "last_active of signal connected to out port");
        check(w = -h_value(2, now), "value of signal connected to out port");
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait on s'transaction;
        check(s = value(now), "value of resolved signal in cycle");
        check(s'active and s'last_active = 0 fs, "activity of resolved signal");
        check(s'event = (value(now) /= value(now - 1 fs)), "event of resolved signal");
    end process;
end architecture;
