package wait_orc is
    impure function h_wake(sens, c0, v0, c1, v1 : integer; t0, limit : time) return time;
    impure function h_events(sens : integer; t : time) return integer;
    attribute foreign of h_wake : function is "INTERNAL _h_wake";
    attribute foreign of h_events : function is "INTERNAL _h_events";
end package;
package body wait_orc is
    impure function h_wake(sens, c0, v0, c1, v1 : integer; t0, limit : time) return time is
    begin return 0 fs; end function;
    impure function h_events(sens : integer; t : time) return integer is
    begin return 0; end function;
end package body;

-- One process and two wait statements out of a list
entity wait1 is generic (K : integer := 2; GAP : integer := 3; KINDS : integer := 10; SECOND : integer := 2; LESS : integer := 1); end entity;
use work.sx.all;
use work.attr_orc.all;
use work.wait_orc.all;
architecture a of wait1 is
    signal s, c, z : integer := 0;
    signal v : int_vec(0 to 1) := (0, 0);
    signal armed : time := time'high;   -- when the waiter is due
begin
    stim: process is
        procedure drive(signal x, y : out integer; id : integer) is
            variable t : time := 0 fs;
            variable n : integer;
        begin
            h_init(id, 0);
            for i in 1 to K - id * LESS loop
                t := t + nd_time(1, GAP);
                n := 1 - (i mod 2);
                if i > 1 then
                    n := nd_int(0, 1);
                else
                    n := 1;
                end if;
                x <= transport n after t;
                y <= transport n after t;
                h_add(id, n, t);
            end loop;
        end procedure;
    begin
        drive(s, v(0), 0);
        drive(c, z, 1);
        wait;
    end process;

    
    waiter: process is
        variable t0, tmo, due : time;
        variable k, j : integer;
        procedure in_proc(signal x : in integer; tt : time) is
        begin
            wait until x = 1 for tt;
        end procedure;
    begin
        wait for nd_time(0, 2);
        for i in 1 to 2 loop
            t0 := now;
            if i = 1 then
                k := pick(nd_int(0, KINDS));
                tmo := nd_time(0, 4);
            elsif SECOND > 2 then
                k := pick(nd_int(0, KINDS));
                tmo := nd_time(0, 4);
            else
                k := pick(nd_int(2, 2 + SECOND));
                tmo := 2 fs;
            end if;
            case k is
                when 0 => due := h_wake(1, -1, 0, -1, 0, t0, time'high);
                          armed <= due; wait on s;
                when 1 => due := h_wake(1, 0, 1, -1, 0, t0, time'high);
                          armed <= due; wait until s = 1;
                when 2 => due := t0 + tmo;
                          armed <= due; wait for tmo;
                when 3 => due := h_wake(1, -1, 0, -1, 0, t0, t0 + tmo);
                          armed <= due; wait on s for tmo;
                when 4 => due := h_wake(3, 0, 1, 1, 1, t0, t0 + tmo);
                          armed <= due; wait until s = 1 and c = 1 for tmo;
                when 5 => due := h_wake(2, 0, 1, -1, 0, t0, t0 + tmo);
                          armed <= due; wait on c until s = 1 for tmo;
                when 6 => due := h_wake(3, -1, 0, -1, 0, t0, time'high);
                          armed <= due; wait on s, c;
                when 7 => due := h_wake(1, 0, 1, -1, 0, t0, t0 + tmo);
                          armed <= due; in_proc(s, tmo);
                when 8 => due := h_wake(1, 1, 0, -1, 0, t0, t0 + tmo);
                          armed <= due; wait on s until c = 0 for tmo;
                when 9 => due := h_wake(3, 0, 0, 1, 1, t0, time'high);
                          armed <= due; wait on s, c until s = 0 and c = 1;
                when others =>
                          due := h_wake(1, -1, 0, -1, 0, t0, t0 + tmo);
                          armed <= due; wait on v for tmo;
            end case;
            check(now = due, "process resumes at the right time");
            if k /= 10 and k /= 2 and due > t0 then
                check(s'event = (h_last_event(0, now) = 0 fs), "event after resumption");
                check(c'event = (h_last_event(1, now) = 0 fs), "event after resumption");
                check(s = h_value(0, now) and c = h_value(1, now), "values after resumption");
            end if;
        end loop;
        reach("end");
        done;
    end process;

    monitor: process is
    begin
        wait for 100 fs;
        check(armed > now, "process which was due did not resume");
        reach("never");
        done;
    end process;
end architecture;

-- Sensitivity lists, process (all), concurrent statements, dynamic and
-- composite signals; each process runs once per cycle with an event
entity wait2 is generic (K : integer := 2; GAP : integer := 2); end entity;
use work.sx.all;
use work.attr_orc.all;
use work.wait_orc.all;
architecture a of wait2 is
    type rec2 is record x, y : integer; end record;
    signal s0, s1 : integer := 0;
    signal v : int_vec(0 to 2) := (0, 0, 0);
    signal r : rec2 := (0, 0);
    signal y1, y2, y4 : integer := 0;
    signal w1, w2, w3 : int_vec(0 to 2) := (0, 0, 0);
    signal r1, r2 : rec2 := (0, 0);
    signal idx : integer := 0;
    type cnt_t is protected
        procedure inc(n : integer);
        impure function get(n : integer) return integer;
    end protected;
    type cnt_t is protected body
        variable c : int_vec(0 to 15) := (others => 0);
        procedure inc(n : integer) is begin c(n) := c(n) + 1; end procedure;
        impure function get(n : integer) return integer is begin return c(n); end function;
    end protected body;
    shared variable cnt : cnt_t;
begin
    drv0: process is
        variable t : time := 0 fs;
        variable n : integer;
    begin
        h_init(0, 0);
        for i in 1 to K loop
            t := t + nd_time(1, GAP);
            n := nd_int(0, 1);
            s0 <= transport n after t;
            v(0) <= transport n after t;
            r.x <= transport n after t;
            h_add(0, n, t);
        end loop;
        wait;
    end process;
    drv1: process is
        variable t : time := 0 fs;
        variable n : integer;
    begin
        h_init(1, 0);
        for i in 1 to K loop
            t := t + nd_time(1, GAP);
            n := nd_int(0, 1);
            s1 <= transport n after t;
            v(1) <= transport n after t;
            r.y <= transport n after t;
            h_add(1, n, t);
        end loop;
        wait;
    end process;

    p0: process (s0) is begin cnt.inc(0); end process;
    p1: process (s0, s1) is begin cnt.inc(1); end process;
    p2: process (all) is
    begin
        cnt.inc(2);
        y2 <= s0 + s1;
    end process;
    p3: process (v) is begin cnt.inc(3); end process;
    p4: process (v(1)) is begin cnt.inc(4); end process;
    p5: process (v(1 to 2)) is begin cnt.inc(5); end process;
    p6: process (r) is begin cnt.inc(6); end process;
    p7: process (r.y) is begin cnt.inc(7); end process;
    p8: process is begin cnt.inc(8); wait on s0, v(0), r.x, s0; end process;
    p9: process (all) is
    begin
        cnt.inc(9);
        if v(0) = 1 then
            y4 <= r.y;
        else
            y4 <= 7;
        end if;
    end process;
    g10: for j in 0 to 1 generate
        p: process is
        begin
            cnt.inc(10 + j);
            wait on v(j);
        end process;
    end generate;
    y1 <= s0 * 2 + s1;
    w1 <= v;
    w2 <= transport v after 2 fs;
    w3(0 to 1) <= v(0 to 1);
    w3(2) <= v(1);
    r1 <= r;
    r2.y <= r.x;
    r2.x <= r.y;

    mon: process is
        variable e0, e1, e01, a0, a1 : integer;
    begin
        wait for nd_time(1, K * GAP + 1);
        for i in 1 to 4 loop wait for 0 fs; end loop;
        e0 := h_events(1, now);
        e1 := h_events(2, now);
        e01 := h_events(3, now);
        check(cnt.get(0) = e0 + 1, "process (s0)");
        check(cnt.get(1) = e01 + 1, "process (s0, s1)");
        check(cnt.get(2) = e01 + 1, "process (all)");
        check(cnt.get(3) = e01 + 1, "process (v)");
        check(cnt.get(4) = e1 + 1, "process (v(1))");
        check(cnt.get(5) = e1 + 1, "process (v(1 to 2))");
        check(cnt.get(6) = e01 + 1, "process (r)");
        check(cnt.get(7) = e1 + 1, "process (r.y)");
        check(cnt.get(8) = e0 + 1, "wait on the same signal twice");
        check(cnt.get(9) = e01 + 1, "process (all) with branches");
        check(cnt.get(10) = e0 + 1 and cnt.get(11) = e1 + 1, "elements in generate");
        a0 := h_value(0, now);
        a1 := h_value(1, now);
        check(y1 = a0 * 2 + a1, "concurrent assignment");
        check(y2 = a0 + a1, "combinational process");
        check(w1 = (a0, a1, 0), "transfer of array");
        check(w2 = (h_value(0, now - 2 fs), h_value(1, now - 2 fs), 0), "transfer of array with delay");
        check(w3 = (a0, a1, a1), "transfer of parts of array");
        check(r1 = (a0, a1), "transfer of record");
        check(r2 = (a1, a0), "transfer of fields");
        if a0 = 1 then
            check(y4 = a1, "combinational process with branches");
        else
            check(y4 = 7, "combinational process with branches");
        end if;
        reach("end");
        done;
        wait;
    end process;
end architecture;

-- Many timeouts: each at its time, in order
entity wait3 is generic (N : integer := 3; GAP : integer := 3); end entity;
use work.sx.all;
architecture a of wait3 is
    type cnt_t is protected
        procedure at(t : time);
    end protected;
    type cnt_t is protected body
        variable prev : time := 0 fs;
        variable n : integer := 0;
        procedure at(t : time) is
        begin
            check(t >= prev, "time never goes back");
            prev := t;
        end procedure;
    end protected body;
    shared variable ord : cnt_t;
begin
    g: for i in 1 to N generate
        p: process is
            variable d, t : time := 0 fs;
        begin
            d := nd_time(0, GAP + 2);
            wait for d;
            t := t + d;
            check(now = t, "first timeout");
            ord.at(now);
            d := nd_time(1, GAP);
            wait for d;
            t := t + d;
            check(now = t, "second timeout");
            ord.at(now);
            wait;
        end process;
    end generate;
    mon: process is
    begin
        wait for 60 fs;
        check(now = 60 fs, "end time");
        reach("end");
        done;
    end process;
end architecture;

-- Known finding: process (all) does not wait on signals which are read by
-- functions it calls (IEEE 1076-2008 section 11.3)
entity wait4 is end entity;
use work.sx.all;
architecture a of wait4 is
    signal s0, y : integer := 0;
    impure function look return integer is
    begin
        return s0 * 10;
    end function;
begin
    p11: process (all) is
    begin
        y <= look;
    end process;
    process is
        variable v : integer;
    begin
        v := nd_int(0, 1);
        s0 <= v;
        wait for 1 fs;
        check(y = v * 10, "process (all) which calls a function reading a signal");
        reach("end");
        done;
    end process;
end architecture;

-- Several processes wait for the same signal, some of which resume by their
-- timeout and leave the others waiting
entity wait4 is
    generic (N : integer := 4; MAXT : integer := 3);
end entity;
use work.sx.all;
architecture a of wait4 is
    type time_vec is array (natural range <>) of time;
    type flag_vec is array (natural range <>) of boolean;
    signal s  : integer := 0;
    signal t  : time_vec(1 to N) := (others => 0 fs);   -- timeouts
    signal f  : flag_vec(1 to N) := (others => false);  -- has a timeout
    signal e1, e2 : time := 0 fs;
    signal go : boolean;
begin
    stim: process is
        variable d1, d2 : time;
        variable no : integer;
    begin
        no := nd_int(1, N);
        for i in 1 to N loop
            f(i) <= i = no or i = 3;
            t(i) <= nd_time(1, MAXT);
        end loop;
        d1 := nd_time(1, MAXT);
        d2 := nd_time(1, 2);
        e1 <= d1;
        e2 <= d1 + d2;
        go <= true;
        wait for 0 fs;
        s <= 1 after d1, 2 after d1 + d2, 3 after 20 fs;
        wait for 30 fs;
        reach("end");
        done;
        wait;
    end process;
    g: for i in 1 to N generate
        process is
            variable w : time;
        begin
            wait until go;
            if f(i) then
                wait on s for t(i);
                w := t(i);
                if e1 < w then w := e1; end if;
                check(now = w, "resumes by event or timeout");
                if now = e1 then
                    -- an event in the cycle of the timeout
                    check(s'event = (e1 <= t(i)), "event at resumption");
                end if;
                if i = 3 then
                    -- leaves a gap between the waiting processes
                    wait for 10 fs;
                    check(now = w + 10 fs, "resumes by timeout");
                    w := 10 fs;
                else
                    wait on s for 50 fs;
                end if;
                if i = 3 then
                    null;
                elsif w < e1 then
                    check(now = e1, "resumes by the first event");
                else
                    check(now = e2, "resumes by the second event");
                end if;
            else
                wait on s;
                check(now = e1, "resumes by the first event");
                wait on s for e2 - e1;
                check(now = e2, "resumes by the second event or timeout");
            end if;
            if now < e2 then
                wait on s;
                check(now = e2, "resumes by the second event");
            end if;
            wait on s;
            check(now = 20 fs, "resumes by the third event");
            reach("third");
            wait;
        end process;
    end generate;
end architecture;
