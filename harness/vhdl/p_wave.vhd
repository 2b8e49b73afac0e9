package wave_orc is
    procedure orc_init(d, v : integer);
    procedure orc_sampled(d : integer);
    procedure orc_assign(d, v : integer; delay, rej : time);
    procedure orc_append(d, v : integer; delay : time);
    procedure orc_active(d, v : integer);
    procedure orc_value(d, v : integer);
    procedure orc_end(d : integer);
    attribute foreign of orc_init : procedure is "INTERNAL _orc_init";
    attribute foreign of orc_sampled : procedure is "INTERNAL _orc_sampled";
    attribute foreign of orc_assign : procedure is "INTERNAL _orc_assign";
    attribute foreign of orc_append : procedure is "INTERNAL _orc_append";
    attribute foreign of orc_value : procedure is "INTERNAL _orc_value";
    attribute foreign of orc_active : procedure is "INTERNAL _orc_active";
    attribute foreign of orc_end : procedure is "INTERNAL _orc_end";
end package;
package body wave_orc is
    procedure orc_init(d, v : integer) is begin end procedure;
    procedure orc_sampled(d : integer) is begin end procedure;
    procedure orc_assign(d, v : integer; delay, rej : time) is begin end procedure;
    procedure orc_append(d, v : integer; delay : time) is begin end procedure;
    procedure orc_active(d, v : integer) is begin end procedure;
    procedure orc_value(d, v : integer) is begin end procedure;
    procedure orc_end(d : integer) is begin end procedure;
end package body;

-- Symbolic sequence of assignments to one driver of an integer signal
entity wave1 is
    generic (K : integer := 3; MAXT : integer := 7; MAXV : integer := 2);
end entity;
use work.sx.all;
use work.wave_orc.all;
architecture a of wave1 is
    signal s : integer := 0;
begin
    stim: process is
        variable v : integer;
        variable d, r : time;
    begin
        orc_init(0, 0);
        for i in 1 to K loop
            v := nd_int(0, MAXV);
            d := nd_time(0, MAXT);
            if nd_bool then
                r := nd_time(0, MAXT);
                assume(r <= d);
                s <= reject r inertial v after d;
                orc_assign(0, v, d, r);
            else
                s <= transport v after d;
                orc_assign(0, v, d, 0 fs);
            end if;
            if i = K - 1 then
                wait for nd_time(0, 3);
            end if;
        end loop;
        wait for MAXT * 1 fs + 10 fs;
        orc_end(0);
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait on s'transaction;
        orc_active(0, s);
    end process;
end architecture;

-- Waveforms with several elements
entity wave_el is
    generic (K : integer := 2; MAXT : integer := 3; MAXV : integer := 1);
end entity;
use work.sx.all;
use work.wave_orc.all;
architecture a of wave_el is
    signal s : integer := 0;
begin
    stim: process is
        variable v1, v2 : integer;
        variable d1, d2, r : time;
    begin
        orc_init(0, 0);
        for i in 1 to K loop
            v1 := nd_int(0, MAXV);
            d1 := nd_time(0, MAXT);
            v2 := nd_int(0, MAXV);
            d2 := d1 + nd_time(1, MAXT);
            if nd_bool then
                r := nd_time(0, MAXT);
                assume(r <= d1);
                s <= reject r inertial v1 after d1, v2 after d2;
                orc_assign(0, v1, d1, r);
            else
                s <= transport v1 after d1, v2 after d2;
                orc_assign(0, v1, d1, 0 fs);
            end if;
            orc_append(0, v2, d2);
            if i < K then
                wait for nd_time(0, 4);
            else
                wait for 2 fs;
            end if;
        end loop;
        s <= v1;         -- plain assignments
        orc_assign(0, v1, 0 fs, 0 fs);
        wait for MAXT * 2 * 1 fs + 10 fs;
        orc_end(0);
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait on s'transaction;
        orc_active(0, s);
    end process;
end architecture;

-- Arrays: whole, slice, and element assignments.  Each element is its own
-- driver.
package wave_t is
    type byte is range 0 to 255;
    type byte_vec is array (natural range <>) of byte;
    type int_vec is array (natural range <>) of integer;
end package;
entity wave_vec is
    generic (K : integer := 2; MAXT : integer := 4; MAXV : integer := 1;
             SPLIT : boolean := false);
end entity;
use work.sx.all;
use work.wave_orc.all;
use work.wave_t.all;
architecture a of wave_vec is
    signal s : byte_vec(0 to 2) := (0, 0, 0);
begin
    stim: process is
        variable v : byte_vec(0 to 2);
        variable d : time;
        variable j : integer;
    begin
        for i in 0 to 2 loop
            orc_init(i, 0);
            orc_sampled(i);
        end loop;
        for i in 1 to K loop
            for e in v'range loop
                v(e) := byte(nd_int(0, MAXV));
            end loop;
            d := nd_time(0, MAXT);
            s <= v after d;
            for e in v'range loop
                orc_assign(e, integer(v(e)), d, d);
            end loop;
            if i = K - 1 then
                wait for nd_time(0, 2);
            end if;
        end loop;
        if SPLIT then
            wait for nd_time(0, 2);
            j := nd_int(0, 2);
            d := nd_time(0, MAXT);
            if nd_bool then
                s(j) <= v(0) after d;
                orc_assign(j, integer(v(0)), d, d);
            else
                assume(j < 2);
                s(j to j + 1) <= v(0 to 1) after d;
                orc_assign(j, integer(v(0)), d, d);
                orc_assign(j + 1, integer(v(1)), d, d);
            end if;
        end if;
        wait for MAXT * 1 fs + 10 fs;
        for e in v'range loop
            orc_end(e);
        end loop;
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait for 1 fs;
        wait for 0 fs;
        wait for 0 fs;
        wait for 0 fs;
        for e in s'range loop
            orc_value(e, integer(s(e)));
        end loop;
    end process;
end architecture;

-- As above where the value of the whole array is larger than a machine word
entity wave_wide is
    generic (K : integer := 1; MAXT : integer := 4; MAXV : integer := 1; N : integer := 6);
end entity;
use work.sx.all;
use work.wave_orc.all;
use work.wave_t.all;
architecture a of wave_wide is
    signal s : int_vec(0 to N - 1) := (others => 0);
begin
    stim: process is
        variable v : int_vec(0 to N - 1);
        variable d : time;
        variable j : integer;
    begin
        for i in v'range loop
            orc_init(i, 0);
            orc_sampled(i);
        end loop;
        for i in 1 to K loop
            v := (1 => 5, 2 => 6 + i, 3 => 7, others => 8);
            v(0) := nd_int(0, MAXV);
            d := nd_time(0, MAXT);
            s <= transport v after d, v(N - 1) & v(0 to N - 2) after d + 1 fs;
            for e in v'range loop
                orc_assign(e, v(e), d, 0 fs);
                orc_append(e, v((e + N - 1) mod N), d + 1 fs);
            end loop;
            wait for nd_time(0, 3);
            j := nd_int(0, N);
            if j <= N - 2 then
                s(j + 1) <= v(0) after 2 fs;
                orc_assign(j + 1, v(0), 2 fs, 2 fs);
            elsif j = N - 1 then
                s(0 to 2) <= v(1 to 3) after 2 fs;
                for e in 0 to 2 loop
                    orc_assign(e, v(e + 1), 2 fs, 2 fs);
                end loop;
            end if;
        end loop;
        v(0) := nd_int(0, MAXV);
        s <= v after 3 fs;
        for e in v'range loop
            orc_assign(e, v(e), 3 fs, 3 fs);
        end loop;
        wait for MAXT * 1 fs + 10 fs;
        for e in v'range loop
            orc_end(e);
        end loop;
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait for 1 fs;
        wait for 0 fs;
        wait for 0 fs;
        wait for 0 fs;
        for e in s'range loop
            orc_value(e, s(e));
        end loop;
    end process;
end architecture;

-- Null transactions: a driver of a bus signal is disconnected by them.  The
-- resolution function gives 100 when there are no connected drivers.
package wave_null_pack is
    type int_vec is array (natural range <>) of integer;
    function resolved (x : int_vec) return integer;
    subtype rint is resolved integer;
end package;
package body wave_null_pack is
    function resolved (x : int_vec) return integer is
        variable r : integer := 0;
    begin
        if x'length = 0 then
            return 100;
        end if;
        for i in x'range loop
            r := r + x(i);
        end loop;
        return r;
    end function;
end package body;
entity wave_null is
    generic (K : integer := 3; MAXT : integer := 4; MAXV : integer := 1);
end entity;
use work.sx.all;
use work.wave_orc.all;
use work.wave_null_pack.all;
architecture a of wave_null is
    signal s : rint bus := 0;
begin
    stim: process is
        variable v : integer;
        variable d, r : time;
    begin
        orc_init(0, 0);
        for i in 1 to K loop
            v := nd_int(0, MAXV);
            d := nd_time(0, MAXT);
            r := nd_time(0, MAXT);
            assume(r <= d);
            if nd_bool then
                s <= reject r inertial v after d;
                orc_assign(0, v, d, r);
            else
                s <= reject r inertial null after d;
                orc_assign(0, 100, d, r);
            end if;
            if i = K - 1 then
                wait for nd_time(0, 2);
            end if;
        end loop;
        wait for MAXT * 1 fs + 10 fs;
        orc_end(0);
        reach("end");
        done;
        wait;
    end process;

    mon: process is
    begin
        wait on s'transaction;
        orc_active(0, s);
    end process;
end architecture;
