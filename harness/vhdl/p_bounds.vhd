package bounds_pkg is
    type iv is array (integer range <>) of integer;
    type en is (e0, e1, e2, e3, e4, e5, e6, e7, e8, e9);
    subtype sen is en range e2 to e6;
    subtype dsen is en range e6 downto e2;
    type ev is array (en range <>) of integer;
    type mat is array (integer range <>, integer range <>) of integer;
    type ivp is access iv;
    type ip is access integer;
    subtype small is integer range -5 to 9;
    subtype dsmall is integer range 9 downto -5;
    subtype sreal is real range -1.5 to 2.5;
    subtype iv4 is iv(1 to 4);
    type rec is record n : small; v : iv(2 to 4); end record;
    function fsmall(x : integer) return small;
    function fiv4(n : integer) return iv4;
    function psmall(x : small) return integer;
    function piv(x : iv4) return integer;
    function dyn(lo, hi : integer) return iv;
    function noret(x : integer) return integer;
    procedure osmall(x : integer; variable o : out integer);
end package;
package body bounds_pkg is
    function fsmall(x : integer) return small is
    begin
        return x;
    end function;
    function fiv4(n : integer) return iv4 is
        variable r : iv(1 to n) := (others => 3);
    begin
        return r;
    end function;
    function psmall(x : small) return integer is
    begin
        return x;
    end function;
    function piv(x : iv4) return integer is
    begin
        return x(1);
    end function;
    function dyn(lo, hi : integer) return iv is
        variable r : iv(lo to hi);
    begin
        for i in r'range loop
            r(i) := i * 10;
        end loop;
        return r;
    end function;
    function noret(x : integer) return integer is
    begin
        if x > 5 then
            return x;
        end if;
    end function;
    procedure osmall(x : integer; variable o : out integer) is
    begin
        o := x;
    end procedure;
end package body;

-- Index of an element
entity bounds1 is generic (LO : integer := 0; HI : integer := 17); end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds1 is
    signal s : iv(1 to 4) := (10, 20, 30, 40);
    signal sd : iv(4 downto 1) := (40, 30, 20, 10);
begin
    process is
        variable a : iv(1 to 4) := (10, 20, 30, 40);
        variable d : iv(4 downto 1) := (40, 30, 20, 10);
        variable neg : iv(-3 to 2) := (-30, -20, -10, 0, 10, 20);
        variable e : ev(e1 to e4) := (10, 20, 30, 40);
        variable m : mat(1 to 3, 5 downto 2);
        variable p : ivp;
        variable i, j, r, l, h : integer;
        variable arm : integer;
        constant c : iv(1 to 4) := (10, 20, 30, 40);
        procedure unc(x : iv; i : integer; o : out integer) is
        begin
            o := x(i);
        end procedure;
        procedure uncw(x : inout iv; i : integer) is
        begin
            x(i) := 77;
        end procedure;
        procedure sigw(signal x : out iv; i : integer) is
        begin
            x(i) <= 99;
        end procedure;
        function nest(x : iv; i : integer) return integer is
            alias y : iv(10 to 10 + x'length - 1) is x;
        begin
            return y(i);
        end function;
    begin
        wait for 1 fs;
        arm := pick(nd_int(LO, HI));
        i := nd_int(integer'low, integer'high);
        j := nd_int(-1, 6);
        case arm is
            when 0 => expect_error(i < 1 or i > 4, "index of array"); r := a(i); passed; check(r = i * 10, "element");
            when 1 => expect_error(i < 1 or i > 4, "index of downto array"); r := d(i); passed; check(r = i * 10, "element");
            when 2 => expect_error(i < -3 or i > 2, "negative index"); r := neg(i); passed; check(r = i * 10, "element");
            when 3 => expect_error(i < 1 or i > 4, "index of target"); a(i) := 7; passed;
                for k in 1 to 4 loop
                    if k = i then check(a(k) = 7, "written"); else check(a(k) = k * 10, "not written"); end if;
                end loop;
            when 4 => expect_error(i < 1 or i > 4, "index of signal"); r := s(i); passed; check(r = i * 10, "element");
            when 5 => expect_error(i < 1 or i > 4, "index of signal target");
                sigw(s, i); passed;
                wait for 1 fs;
                for k in 1 to 4 loop
                    if k = i then check(s(k) = 99, "written"); else check(s(k) = k * 10, "not written"); end if;
                end loop;
            when 6 => expect_error(i < 1 or i > 4, "index of unconstrained parameter"); unc(a, i, r); passed; check(r = i * 10, "element");
            when 7 => expect_error(i < 1 or i > 4, "index of unconstrained downto parameter"); unc(d, i, r); passed; check(r = i * 10, "element");
            when 8 => expect_error(i < 1 or i > 4, "index of inout parameter"); uncw(d, i); passed; check(d(i) = 77, "written");
            when 9 => assume(j >= 1 and j <= 4); j := pick(j);
                expect_error(i < j or i > 4, "index of slice"); unc(a(j to 4), i, r); passed; check(r = i * 10, "element");
            when 10 => expect_error(i < 10 or i > 13, "index of alias"); r := nest(d, i); passed; check(r = (14 - i) * 10, "element of alias");
            when 11 => i := nd_int(0, 9);
                expect_error(i < 1 or i > 4, "enumeration index"); r := e(en'val(i)); passed; check(r = i * 10, "element");
            when 12 => i := nd_int(-10, 10); j := pick(nd_int(-10, 10));
                for k in 1 to 3 loop for q in 2 to 5 loop m(k, q) := k * 10 + q; end loop; end loop;
                expect_error(i < 1 or i > 3 or j < 2 or j > 5, "two-dimensional index"); r := m(i, j); passed;
                check(r = i * 10 + j, "element of matrix");
            when 13 => l := pick(nd_int(-1, 2)); h := pick(nd_int(-1, 4));
                p := new iv'(dyn(l, h));
                expect_error(i < l or i > h, "index of allocated array"); r := p(i); passed; check(r = i * 10, "element");
            when 14 => l := pick(nd_int(-1, 2)); h := pick(nd_int(-1, 4));
                expect_error(i < l or i > h, "index of function result"); r := dyn(l, h)(i); passed; check(r = i * 10, "element");
            when 15 => expect_error(i < 1 or i > 4, "index of constant"); r := c(i); passed; check(r = i * 10, "element");
            when 16 => expect_error(i < 1 or i > 4, "index of downto signal"); r := sd(i); passed; check(r = i * 10, "element");
            when others =>
                expect_error(j /= 1, "null access"); 
                if j = 1 then p := new iv(1 to 2); end if;
                p(1) := 5; passed; check(p(1) = 5, "allocated element");
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- Slices and lengths
entity bounds2 is generic (LO : integer := 0; HI : integer := 15); end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds2 is
    signal s : iv(1 to 4) := (10, 20, 30, 40);
begin
    process is
        variable a, b : iv(1 to 4) := (10, 20, 30, 40);
        variable d : iv(4 downto 1) := (40, 30, 20, 10);
        variable i, j, k, l, r : integer;
        variable p : ivp;
        variable arm : integer;
        impure function sum(x : iv) return integer is
            variable r : integer := 0;
        begin
            for i in x'range loop
                r := r + x(i);
            end loop;
            return r;
        end function;
        procedure clr(x : out iv) is
        begin
            for i in x'range loop x(i) := 0; end loop;
        end procedure;
    begin
        wait for 1 fs;
        arm := pick(nd_int(LO, HI));
        i := nd_int(-1, 6);
        j := nd_int(-1, 6);
        case arm is
            when 0 => expect_error(i <= j and (i < 1 or j > 4), "slice");
                r := a(i to j)'length; passed;
                if i <= j then check(r = j - i + 1, "length of slice"); else check(r = 0, "length of null slice"); end if;
            when 1 => expect_error(i >= j and (i > 4 or j < 1), "downto slice");
                r := sum(d(i downto j)); passed;
                if i >= j then check(r = (i * (i + 1) - j * (j - 1)) * 5, "slice"); else check(r = 0, "null slice"); end if;
            when 2 => i := pick(i); j := pick(j); assume(i >= 1 and i <= j and j <= 4);
                k := nd_int(0, 5); l := nd_int(0, 5);
                expect_error((k <= l and (k < 1 or l > 4)) or (k > l) or (k <= l and l - k /= j - i), "slice assignment");
                a(i to j) := b(k to l); passed;
                for q in 1 to 4 loop
                    if q >= i and q <= j then check(a(q) = (k + q - i) * 10, "assigned"); else check(a(q) = q * 10, "kept"); end if;
                end loop;
            when 3 => k := nd_int(-2, 8);
                expect_error(k /= 4, "assignment of array with other length");
                a := dyn(1, k); passed; check(a = (10, 20, 30, 40), "assigned");
            when 4 => k := nd_int(-2, 8);
                expect_error(k /= 4, "result of function with constrained array"); r := fiv4(k)(2); passed; check(r = 3, "result");
            when 5 => k := nd_int(-2, 8);
                expect_error(k /= 4, "array parameter"); r := piv(dyn(1, k)); passed; check(r = 10, "parameter");
            when 6 => -- overlapping
                i := pick(nd_int(1, 3));
                a(i to i + 1) := a(2 to 3); passed;
                for q in 1 to 4 loop
                    if q = i then check(a(q) = 20, "overlap"); elsif q = i + 1 then check(a(q) = 30, "overlap"); else check(a(q) = q * 10, "overlap"); end if;
                end loop;
            when 7 => expect_error(i <= j and (i < 1 or j > 4), "slice of out parameter");
                clr(a(i to j)); passed;
                for q in 1 to 4 loop
                    if q >= i and q <= j then check(a(q) = 0, "cleared"); else check(a(q) = q * 10, "kept"); end if;
                end loop;
            when 8 => expect_error(i <= j and (i < 1 or j > 4), "slice of signal");
                r := sum(s(i to j)); passed;
                if i <= j then check(r = (j * (j + 1) - i * (i - 1)) * 5, "slice"); else check(r = 0, "null slice"); end if;
            when 9 => k := nd_int(-2, 8);
                expect_error(k /= 4, "signal assignment of array with other length");
                s <= dyn(1, k); wait for 1 fs; passed; check(s(3) = 30, "assigned");
            when 10 => i := pick(nd_int(-1, 6)); j := pick(nd_int(-1, 6));
                expect_error(i <= j and (i < 1 or j > 4), "slice of access");
                p := new iv'(a); r := sum(p(i to j)); passed;
                if i <= j then check(r = (j * (j + 1) - i * (i - 1)) * 5, "slice"); else check(r = 0, "null slice"); end if;
            when 11 => k := nd_int(-1, 6);
                -- and, or element-wise need equal length; comparison does not
                passed;
                check((a = dyn(1, k)) = (k = 4), "comparison of different lengths");
            when 12 => k := nd_int(0, 5); l := nd_int(0, 5);
                a(1 to 2) := (k, l); passed; check(a = (k, l, 30, 40), "aggregate to slice");
            when 13 => a(2 to 2) := (i => 5); passed;
                check(a = (10, 5, 30, 40), "aggregate with one choice");
            when 14 => expect_error(i > j or j - i /= 3, "length of aggregate");
                a := (i to j => 5); passed; check(a = (5, 5, 5, 5), "range of aggregate");
            when others => k := pick(nd_int(0, 3));
                expect_error(k + 2 /= 4, "length of concatenation");
                a := dyn(1, k) & b(1) & b(4); passed; check(a(3) = 10 and a(4) = 40, "concatenation");
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- Ranges of scalar subtypes
entity bounds3 is generic (LO : integer := 0; HI : integer := 43); end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds3 is
    signal s : small := 0;
begin
    process is
        variable i, j, k, r : integer;
        variable n : small;
        variable dn : dsmall;
        variable nat : natural;
        variable pos : positive;
        variable q : sen := e2;
        variable dq : dsen := e2;
        variable x : en;
        variable rr : sreal;
        variable re : real;
        variable c : rec;
        variable t : time;
        variable p : ip;
        type sv is array (integer range <>) of small;
        type svp is access sv;
        type smp is access small;
        variable av : sv(1 to 3) := (others => 0);
        variable avp : svp;
        variable sp : smp;
        variable arm : integer;
        function sumsv(v : sv) return integer is
            variable r : integer := 0;
        begin
            for k in v'range loop
                r := r + v(k);
            end loop;
            return r;
        end function;
        type rut is record v : iv; end record;
        variable ru : rut(v(1 to 3));
        procedure decl(i : integer; o : out integer) is
            variable v : small := i;
        begin
            o := v;
        end procedure;
        procedure vec(i, j : integer; o : out integer) is
            variable v : bit_vector(i to j);
        begin
            o := v'length;
        end procedure;
        procedure cons(j : integer; o : out integer) is
            constant v : iv(1 to 3) := dyn(1, j);
        begin
            o := v(3);
        end procedure;
        procedure ali(j : integer; o : out integer) is
            constant c : bit_vector := "0110";
            alias v : bit_vector(1 to j) is c;
        begin
            o := v'length;
        end procedure;
        procedure ruc(j : integer; o : out integer) is
            variable v : rut(v(1 to j));
            variable w : rut(v(1 to 3));
        begin
            for i in v.v'range loop v.v(i) := i * 10; end loop;
            w := v;
            o := w.v(3);
        end procedure;
        procedure oproc(o : out small; v : integer) is
        begin
            o := v;
        end procedure;
        procedure sigw(signal x : out small; i : integer) is
        begin
            x <= i;
        end procedure;
    begin
        wait for 1 fs;
        arm := pick(nd_int(LO, HI));
        i := nd_int(integer'low, integer'high);
        j := nd_int(0, 9);
        case arm is
            when 0 => expect_error(i < -5 or i > 9, "subtype"); n := i; passed; check(n = i, "value");
            when 1 => expect_error(i < -5 or i > 9, "downto subtype"); dn := i; passed; check(dn = i, "value");
            when 2 => expect_error(i < 0, "natural"); nat := i; passed; check(nat = i, "value");
            when 3 => expect_error(i < 1, "positive"); pos := i; passed; check(pos = i, "value");
            when 4 => expect_error(j < 2 or j > 6, "enumeration subtype"); q := en'val(j); passed; check(en'pos(q) = j, "value");
            when 5 => expect_error(j < 2 or j > 6, "downto enumeration subtype"); dq := en'val(j); passed; check(en'pos(dq) = j, "value");
            when 6 => expect_error(i < 0 or i > 9, "'val"); x := en'val(i); passed; check(en'pos(x) = i, "val");
            when 7 => expect_error(j = 9, "'succ"); r := en'pos(en'succ(en'val(j))); passed; check(r = j + 1, "succ");
            when 8 => expect_error(j = 0, "'pred"); r := en'pos(en'pred(en'val(j))); passed; check(r = j - 1, "pred");
            when 9 => expect_error(j = 0, "'leftof"); r := en'pos(en'leftof(en'val(j))); passed; check(r = j - 1, "leftof");
            when 10 => expect_error(j = 9, "'rightof"); r := en'pos(en'rightof(en'val(j))); passed; check(r = j + 1, "rightof");
            when 11 => expect_error(i = integer'high, "integer'succ"); r := integer'succ(i); passed; check(r = i + 1, "succ");
            when 12 => expect_error(i = integer'low, "integer'pred"); r := integer'pred(i); passed; check(r = i - 1, "pred");
            when 13 => expect_error(i < -5 or i > 9, "result subtype"); r := fsmall(i); passed; check(r = i, "value");
            when 14 => expect_error(i < -5 or i > 9, "parameter subtype"); r := psmall(i); passed; check(r = i, "value");
            when 15 => expect_error(i < -5 or i > 9, "subtype of result of out parameter"); osmall(i, r); n := r; passed; check(n = i, "value");
            when 16 => expect_error(i < -5 or i > 9, "out parameter"); oproc(r, i); passed; check(r = i, "value");
            when 17 => expect_error(i < -5 or i > 9, "signal subtype"); sigw(s, i); passed; wait for 1 fs; check(s = i, "value");
            when 18 => expect_error(i < -5 or i > 9, "record field"); c.n := i; passed; check(c.n = i, "value");
            when 19 => expect_error(i < -5 or i > 9, "array aggregate"); av := (1, i, 2); passed; check(av(2) = i, "value");
            when 32 => expect_error(i < -5 or i > 9, "array aggregate with range"); av := (1 to 2 => i, 3 => 0); passed; check(av(2) = i, "value");
            when 33 => expect_error(i < -5 or i > 9, "array aggregate with others"); av := (1 => 0, others => i); passed; check(av(2) = i and av(3) = i, "value");
            when 34 => expect_error(i < -5 or i > 9, "allocated scalar"); sp := new small'(i); passed; check(sp.all = i, "value");
            when 35 => expect_error(i < -5 or i > 9, "allocated array"); avp := new sv'(3, i); passed; check(avp'length = 2, "value");
            when 36 => expect_error(i < -5 or i > 9, "declaration"); decl(i, r); passed; check(r = i, "value");
            when 37 => i := pick(nd_int(-2, 3)); j := pick(nd_int(-2, 6));
                expect_error(i <= j and i < 0, "index constraint"); vec(i, j, r); passed;
                check((r = j - i + 1) or (j < i and r = 0), "length");
            when 38 => j := nd_int(-1, 5);
                expect_error(j /= 3, "constant of constrained array"); cons(j, r); passed; check(r = 30, "value");
            when 39 => j := nd_int(-1, 5);
                expect_error(j /= 4, "length of alias"); ali(j, r); passed; check(r = 4, "length");
            when 40 => j := nd_int(-1, 5);
                expect_error(j /= 3, "field of constrained record"); ru.v := dyn(1, j); passed; check(ru.v(3) = 30, "value");
            when 41 => j := nd_int(-1, 5);
                expect_error(j /= 3, "record of other size"); ruc(j, r); passed; check(r = 30, "value");
            when 42 => expect_error(i < -5 or i > 9, "concatenation of element"); r := sumsv(av & i); passed; check(r = i, "value");
            when 20 => expect_error(i < -5 or i > 9, "qualified expression"); r := small'(i); passed; check(r = i, "value");
            when 21 => expect_error(i < -5 or i > 9, "type conversion"); r := small(i); passed; check(r = i, "value");
            when 22 => i := nd_int(-40, 40); re := real(i) / 8.0;
                expect_error(i < -12 or i > 20, "real subtype"); rr := re; passed; check(rr = re, "value");
            when 23 => j := nd_int(-3, 3);
                expect_error(j < 0, "negative delay"); s <= 1 after j * fs; passed;
            when 24 => j := nd_int(-3, 3);
                expect_error(j < 0, "negative wait"); wait for j * fs; passed;
            when 25 => expect_error(j < 5, "null pointer");
                if j >= 5 then p := new integer'(j); end if;
                r := p.all; passed; check(r = j, "pointed");
            when 26 => k := nd_int(0, 12);
                expect_error(k <= 5, "function without return"); r := noret(k); passed; check(r = k, "value");
            when 27 => expect_error(i < -5 or i > 9, "expression"); 
                assume(i > -1000000 and i < 1000000); n := i; n := small((i + 3) - 3); passed; check(n = i, "value");
            when 28 => j := nd_int(-3, 3);
                expect_error(j < 0, "negative rejection limit"); s <= reject j * fs inertial 1 after 5 fs; passed;
            when 29 => j := nd_int(-3, 3); k := nd_int(-3, 3); assume(j >= 0 and k > j or j < 0);
                expect_error(j < 0, "negative delay of waveform"); s <= transport 1 after j * fs, 2 after k * fs; passed;
            when 30 => j := nd_int(-3, 3); k := nd_int(-3, 3); assume(k >= 0 and j >= 0);
                expect_error(j > k, "rejection limit greater than first delay"); s <= reject j * fs inertial 1 after k * fs; passed;
            when others => j := nd_int(-20, 20); re := real(j) / 2.0 + 0.25;
                r := integer(re);
                check(real(r) - re <= 0.5 and re - real(r) <= 0.5, "conversion rounds to nearest");
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- Copy back of an out parameter to a variable of a narrower subtype
entity bounds4 is end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds4 is
begin
    process is
        variable n : small;
        variable i : integer;
    begin
        wait for 1 fs;
        i := nd_int(integer'low, integer'high);
        expect_error(i < -5 or i > 9, "copy back of out parameter");
        osmall(i, n);
        passed;
        check(n = i, "value");
        reach("end");
        done;
    end process;
end architecture;

-- Fields of a record aggregate
entity bounds5 is end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds5 is
begin
    process is
        variable c : rec;
        variable i : integer;
    begin
        wait for 1 fs;
        i := nd_int(integer'low, integer'high);
        expect_error(i < -5 or i > 9, "field of record aggregate");
        c := (i, (1, 2, 3));
        passed;
        check(c.n = i, "value");
        reach("end");
        done;
    end process;
end architecture;

-- Order of waveform elements
entity bounds6 is end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds6 is
    signal s : integer;
begin
    process is
        variable j, k : integer;
    begin
        wait for 1 fs;
        j := nd_int(0, 3);
        k := nd_int(0, 3);
        expect_error(k <= j, "waveform not ascending");
        s <= transport 1 after j * fs, 2 after k * fs;
        passed;
        reach("end");
        done;
    end process;
end architecture;

-- Range constraint of a subtype indication
entity bounds7 is end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds7 is
    procedure sub(i, j : integer; r : out integer) is
        subtype s is small range i to j;
    begin
        r := s'right;
    end procedure;
begin
    process is
        variable j, r : integer;
    begin
        wait for 1 fs;
        j := nd_int(0, 20);
        expect_error(j > 9, "range constraint");
        sub(0, j, r);
        passed;
        reach("end");
        done;
    end process;
end architecture;

-- Several checks in one sequence: each is made for itself
entity bounds8 is end entity;
use work.sx.all;
use work.bounds_pkg.all;
architecture a of bounds8 is
begin
    process is
        variable i, j, k, l, r, arm : integer;
        variable x, y : mat(1 to 2, 1 to 3) := (others => (others => 0));
        variable v : iv(1 to 4) := (10, 20, 30, 40);
        variable w : iv(3 to 6) := (30, 40, 50, 60);
        variable d : iv(6 downto 3) := (60, 50, 40, 30);
        variable n : small;
        variable dn : dsmall;
        variable nat : natural;
        variable pos : positive;
        variable p, q : ip;
        variable f4, g4 : iv4;
        variable n3 : iv(1 to 3);

        procedure mats(a1, a2, b1, b2 : natural) is
            variable a : mat(1 to a1, 1 to a2) := (others => (others => 3));
            variable b : mat(1 to b1, 1 to b2) := (others => (others => 4));
        begin
            x := a;
            y := b;
        end procedure;
        procedure vecs(a1, a2, a3 : natural) is
            variable a : iv(1 to a1) := (others => 3);
            variable b : iv(1 to a2) := (others => 4);
            variable c : iv(1 to a3) := (others => 5);
        begin
            f4 := a;
            g4 := b;
            n3 := c;
        end procedure;
        function two(a, b : iv; i : integer) return integer is
        begin
            return a(i) + b(i);
        end function;
        function part(a : iv; i, j : integer) return integer is
            variable s : integer := 0;
        begin
            s := a(i) + a(j);
            return s + a(i + 1);
        end function;
        impure function outer(i, j : integer) return integer is
        begin
            n := i;
            if j > 2 then
                pos := i;
                return n + pos;
            end if;
            nat := i;
            return n + nat;
        end function;
    begin
        wait for 1 fs;
        arm := pick(nd_int(0, 13));
        i := nd_int(integer'low, integer'high);
        j := nd_int(-6, 12);
        case arm is
            when 0 => i := pick(nd_int(1, 4)); j := pick(nd_int(1, 4)); k := pick(nd_int(1, 4)); l := pick(nd_int(1, 4));
                expect_error(i /= 2 or j /= 3 or k /= 2 or l /= 3, "shapes of two matrices"); mats(i, j, k, l); passed;
                check(x(2, 3) = 3 and y(2, 3) = 4, "value");
            when 1 => i := pick(nd_int(2, 5)); j := pick(nd_int(2, 5)); k := pick(nd_int(2, 5));
                expect_error(i /= 4 or j /= 4 or k /= 3, "lengths of three arrays"); vecs(i, j, k); passed;
                check(f4(4) = 3 and g4(4) = 4 and n3(3) = 5, "value");
            when 2 => expect_error(i < 3 or i > 4, "same index of two arrays"); r := v(i) + w(i); passed; check(r = 20 * i, "value");
            when 3 => expect_error(i < 3 or i > 4, "same index of two parameters"); r := two(v, d, i); passed; check(r = 20 * i, "value");
            when 4 => expect_error(j < 1 or j > 4 or i < 1 or i > 3, "two indexes of one array"); r := part(v, i, j); passed;
                check(r = 20 * i + 10 * j + 10, "value");
            when 5 => expect_error(i < 0 or i > 9, "two subtypes of one value"); n := i; nat := i; passed; check(n = i and nat = i, "value");
            when 6 => expect_error(i < 1 or i > 9, "three subtypes of one value"); nat := i; pos := i; dn := i; passed; check(dn = i, "value");
            when 7 => expect_error(i < 0 or i > 9 or (j > 2 and i < 1), "subtype in one branch"); r := outer(i, j); passed; check(r = 2 * i, "value");
            when 8 => p := new integer'(j); q := p; r := p.all;
                expect_error(j > 4, "one of two pointers is null");
                if j > 4 then q := null; end if;
                r := r + p.all + q.all; passed; check(r = 3 * j, "value");
            when 9 => p := new integer'(j); r := p.all;
                expect_error(j > 4, "pointer deallocated");
                if j > 4 then deallocate(p); end if;
                r := r + p.all; passed; check(r = 2 * j, "value");
            when 10 => p := new integer'(j); r := 0; k := nd_int(0, 4);
                expect_error(k > 1, "pointer set to null in a loop");
                for c in 1 to 4 loop
                    exit when c > k;
                    r := r + p.all;
                    p := null;
                end loop;
                passed; check(k = 0 or r = j, "value");
            when 11 => r := 0; k := nd_int(1, 6); i := k;
                expect_error(k > 4, "index changed by a loop");
                while i >= 3 loop
                    r := r + v(i);
                    i := i - 1;
                end loop;
                passed; check((k < 3 and r = 0) or (k = 3 and r = 30) or (k = 4 and r = 70), "value");
            when 12 => k := nd_int(-1, 6);
                expect_error(i < 1 or i > 4 or k < 1 or k > 4, "index of both sides"); v(i) := v(k); passed;
                check(v(i) = 10 * k, "value");
            when others => k := nd_int(-1, 8); l := nd_int(-1, 8);
                assume(l - k = 1);
                k := pick(k); l := k + 1;
                expect_error(k < 3 or l > 4, "slices of two arrays"); v(k to l) := w(k to l); passed;
                check(v(1) = 10 and v(3) = 30 and v(4) = 40, "value");
        end case;
        reach("end");
        done;
    end process;
end architecture;
