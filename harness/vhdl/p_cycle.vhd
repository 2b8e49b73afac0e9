package cycle_orc is
    procedure c_wait(p : integer; w : time);
    procedure c_assign(p, s, v : integer; w : time);
    impure function c_now(p : integer) return time;
    impure function c_value(p, s : integer) return integer;
    impure function c_event(p, s : integer) return boolean;
    impure function c_final(s : integer; t : time) return integer;
    impure function c_times return integer;
    procedure c_stop(t : time);
    impure function c_due(t : time) return integer;
    procedure c_happened(i : integer; t : time);
    attribute foreign of c_wait : procedure is "INTERNAL _c_wait";
    attribute foreign of c_assign : procedure is "INTERNAL _c_assign";
    attribute foreign of c_now : function is "INTERNAL _c_now";
    attribute foreign of c_value : function is "INTERNAL _c_value";
    attribute foreign of c_event : function is "INTERNAL _c_event";
    attribute foreign of c_final : function is "INTERNAL _c_final";
    attribute foreign of c_times : function is "INTERNAL _c_times";
    attribute foreign of c_stop : procedure is "INTERNAL _c_stop";
    attribute foreign of c_due : function is "INTERNAL _c_due";
    attribute foreign of c_happened : procedure is "INTERNAL _c_happened";
    type iv is array (natural range <>) of integer;
    type counter is protected
        procedure inc;
        impure function get return integer;
    end protected;
end package;
package body cycle_orc is
    procedure c_wait(p : integer; w : time) is begin end procedure;
    procedure c_assign(p, s, v : integer; w : time) is begin end procedure;
    impure function c_now(p : integer) return time is begin return 0 fs; end function;
    impure function c_value(p, s : integer) return integer is begin return 0; end function;
    impure function c_event(p, s : integer) return boolean is begin return false; end function;
    impure function c_final(s : integer; t : time) return integer is begin return 0; end function;
    impure function c_times return integer is begin return 0; end function;
    procedure c_stop(t : time) is begin end procedure;
    impure function c_due(t : time) return integer is begin return 0; end function;
    procedure c_happened(i : integer; t : time) is begin end procedure;
    type counter is protected body
        variable n : integer := 0;
        procedure inc is begin n := n + 1; end procedure;
        impure function get return integer is begin return n; end function;
    end protected body;
end package body;

-- N processes of K steps: wait for 0 .. W fs (0: one delta cycle), look at all
-- signals, assign one signal after 0 .. W fs
entity cycle1 is generic (N : integer := 2; K : integer := 2; W : integer := 1); end entity;
use work.sx.all;
use work.cycle_orc.all;
architecture a of cycle1 is
    signal s : iv(0 to N * K - 1) := (others => 0);
    signal comb : integer := 0;
    shared variable runs, late : counter;
begin
    g: for p in 0 to N - 1 generate
        process is
            variable d : time;
            variable v : integer;
        begin
            for i in 0 to K - 1 loop
                d := nd_time(0, W);
                c_wait(p, d);
                wait for d;
                check(now = c_now(p), "time of the step");
                for j in s'range loop
                    check(s(j) = c_value(p, j), "value seen by process");
                    check(s(j)'event = c_event(p, j), "event seen by process");
                end loop;
                d := nd_time(0, W);
                v := nd_int(1, 3);
                c_assign(p, p * K + i, v, d);
                if i = 0 then s(p * K) <= v after d; elsif i = 1 then s(p * K + 1) <= v after d; end if;
                check(s(p * K + i) = c_value(p, p * K + i),
                      "assignment has no effect in this cycle");
            end loop;
            wait;
        end process;
    end generate;

    post: postponed process (s) is
    begin
        runs.inc;
        for j in s'range loop
            check(s(j) = c_final(j, now), "postponed process sees final values");
        end loop;
        comb <= s(0) after 1 fs;
    end process;

    post2: postponed assert s(0) = c_final(0, now)
        report "postponed assertion" severity failure;

    fin: process is
    begin
        wait for 40 fs;
        check(runs.get = c_times + 1, "postponed process runs once per time");
        for j in s'range loop
            check(s(j) = c_final(j, now), "final value");
        end loop;
        check(comb = s(0), "postponed process assigns signal");
        reach("end");
        done;
    end process;
end architecture;

-- Zero delay chains: each stage one delta cycle later; limit on delta cycles
entity cycle2 is end entity;
use work.sx.all;
use work.cycle_orc.all;
architecture a of cycle2 is
    signal s : iv(0 to 3) := (others => 0);
    signal n, m : integer := 0;
    signal v : integer := 0;
    signal t1 : integer := 0;
begin
    g: for i in 0 to 2 generate
        s(i + 1) <= s(i);
    end generate;
    process is
        variable k, x : integer;
    begin
        wait for nd_time(0, 1);
        x := nd_int(1, 5);
        s(0) <= x;
        for i in 0 to 4 loop
            for j in 0 to 3 loop
                if j < i then
                    check(s(j) = x, "stage has the value");
                else
                    check(s(j) = 0, "stage does not have the value yet");
                end if;
            end loop;
            wait for 0 fs;
        end loop;
        wait for 1 fs;
        -- count down in delta cycles
        k := nd_int(0, 20);
        assume(k /= 11 and k /= 12 and k /= 10 and k /= 9);
        expect_error(k > 10, "delta cycle limit");
        n <= k;
        wait for 1 fs;
        passed;
        check(m = k, "number of delta cycles");
        reach("end");
        done;
    end process;
    process (n, v) is
    begin
        if m < n then
            m <= m + 1;
            v <= v + 1;
        end if;
    end process;
end architecture;

-- Stop time
entity stop1 is end entity;
use work.sx.all;
use work.cycle_orc.all;
architecture a of stop1 is
    signal s : integer := 0;
    signal z : iv(0 to 2) := (0, 0, 0);
begin
    g: for i in 0 to 1 generate
        process is
            variable t : time := 0 fs;
            variable d : time;
            variable id : integer;
        begin
            c_stop(5 fs);
            for j in 1 to 2 loop
                d := nd_time(1, 5);
                t := t + d;
                id := c_due(t);
                wait for d;
                c_happened(id, now);
            end loop;
            wait;
        end process;
    end generate;
    process is
        variable d : time := nd_time(1, 9);
        variable id : integer;
    begin
        id := c_due(d);
        s <= 1 after d;
        wait on s;
        c_happened(id, now);
        -- one more in the next delta cycle of the same time
        id := c_due(now);
        z(0) <= 1;
        wait on z;
        c_happened(id, now);
        wait;
    end process;
end architecture;

-- Many timeouts of which one or two are cancelled by an event
package cycle3_pkg is
    type perm is array (0 to 7) of integer;
    type perms is array (0 to 3) of perm;
    constant keys : perms := (
        (10, 50, 20, 60, 70, 30, 40, 45), (10, 60, 20, 70, 80, 30, 40, 50),
        (80, 70, 60, 50, 40, 30, 20, 10), (40, 40, 20, 60, 20, 70, 70, 30));
end package;
entity cycle3 is generic (FIRST : integer := 0; LAST : integer := 3); end entity;
use work.sx.all;
use work.cycle3_pkg.all;
architecture a of cycle3 is
    signal kill : perm := (others => 0);
    type state_t is protected
        procedure set(who1, who2 : integer; t1, t2 : time);
        impure function killed(who : integer) return boolean;
        impure function at(who : integer) return time;
    end protected;
    type state_t is protected body
        variable w1, w2 : integer;
        variable a1, a2 : time;
        procedure set(who1, who2 : integer; t1, t2 : time) is
        begin
            w1 := who1;
            w2 := who2;
            a1 := t1;
            a2 := t2;
        end procedure;
        impure function killed(who : integer) return boolean is
        begin
            return who = w1 or who = w2;
        end function;
        impure function at(who : integer) return time is
        begin
            if who = w1 then return a1; else return a2; end if;
        end function;
    end protected body;
    shared variable state : state_t;
begin
    stim: process is
        variable k, k2 : integer;
        variable t, t2 : time;
    begin
        for ph in FIRST to LAST loop
            k := pick(nd_int(0, 7));
            k2 := pick(nd_int(0, 7));
            t := nd_time(1, 3);
            t2 := nd_time(1, 3);
            assume(k /= k2);
            state.set(k, k2, now + t, now + t2);
            g: for i in kill'range loop
                if k = i then
                    kill(i) <= kill(i) + 1 after t;
                elsif k2 = i then
                    kill(i) <= kill(i) + 1 after t2;
                end if;
            end loop;
            wait for 200 fs;
        end loop;
        reach("end");
        done;
        wait;
    end process;

    g: for i in 0 to 7 generate
        g1: if i mod 2 = 0 generate
            process is
                variable base, d : time;
            begin
                for ph in FIRST to LAST loop
                    base := now;
                    wait on kill(i) for keys(ph)(i) * 1 fs;
                    if state.killed(i) then
                        check(now = state.at(i), "timeout cancelled by event");
                        wait on kill(i) for 90 fs;
                        check(now = state.at(i) + 90 fs, "timeout after cancelled timeout");
                    else
                        check(now = base + keys(ph)(i) * 1 fs, "timeout");
                    end if;
                    wait on kill(i) for base + 200 fs - now;
                    check(now = base + 200 fs, "last timeout");
                end loop;
                wait;
            end process;
        end generate;
        g2: if i mod 2 = 1 generate
            postponed process is
                variable base, d : time;
            begin
                for ph in FIRST to LAST loop
                    base := now;
                    wait on kill(i) for keys(ph)(i) * 1 fs;
                    if state.killed(i) then
                        check(now = state.at(i), "timeout of postponed process cancelled by event");
                        wait on kill(i) for 90 fs;
                        check(now = state.at(i) + 90 fs, "timeout of postponed process after cancelled timeout");
                    else
                        check(now = base + keys(ph)(i) * 1 fs, "timeout of postponed process");
                    end if;
                    wait on kill(i) for base + 200 fs - now;
                    check(now = base + 200 fs, "last timeout of postponed process");
                end loop;
                wait;
            end process;
        end generate;
    end generate;
end architecture;
