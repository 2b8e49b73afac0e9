package arith_orc is
    procedure orc_range(lo, hi : integer);
    procedure orc_op(op, a, b : integer);
    procedure orc_done(r : integer);
    procedure orc_then(op, b : integer);
    procedure orc_rel(a, b : integer; lt, le, eq, ne, ge, gt : boolean);
    type t64 is range -9223372036854775807 to 9223372036854775807;
    procedure orc_range64(lo, hi : t64);
    procedure orc_op64(op : integer; a, b : t64);
    procedure orc_done64(r : t64);
    procedure orc_rel64(a, b : t64; lt, le, eq, ne, ge, gt : boolean);
    attribute foreign of orc_range : procedure is "INTERNAL _orc_range";
    attribute foreign of orc_op : procedure is "INTERNAL _orc_op";
    attribute foreign of orc_done : procedure is "INTERNAL _orc_done";
    attribute foreign of orc_then : procedure is "INTERNAL _orc_then";
    attribute foreign of orc_rel : procedure is "INTERNAL _orc_rel";
    attribute foreign of orc_range64 : procedure is "INTERNAL _orc_range";
    attribute foreign of orc_op64 : procedure is "INTERNAL _orc_op";
    attribute foreign of orc_done64 : procedure is "INTERNAL _orc_done";
    attribute foreign of orc_rel64 : procedure is "INTERNAL _orc_rel";
    impure function nd_real return real;   -- any value but NaN
    procedure orc_real(op : integer; a, b : real);
    procedure orc_rdone(r : real);
    procedure orc_rrel(a, b : real; lt, le, eq, ne, ge, gt : boolean);
    attribute foreign of nd_real : function is "INTERNAL _orc_ndreal";
    attribute foreign of orc_real : procedure is "INTERNAL _orc_real";
    attribute foreign of orc_rdone : procedure is "INTERNAL _orc_rdone";
    attribute foreign of orc_rrel : procedure is "INTERNAL _orc_rrel";
    impure function nd64(lo, hi : t64) return t64;
    attribute foreign of nd64 : function is "INTERNAL _sx_nd";
end package;
package body arith_orc is
    procedure orc_range(lo, hi : integer) is begin end procedure;
    procedure orc_op(op, a, b : integer) is begin end procedure;
    procedure orc_then(op, b : integer) is begin end procedure;
    procedure orc_done(r : integer) is begin end procedure;
    procedure orc_rel(a, b : integer; lt, le, eq, ne, ge, gt : boolean) is begin end procedure;
    procedure orc_range64(lo, hi : t64) is begin end procedure;
    procedure orc_op64(op : integer; a, b : t64) is begin end procedure;
    procedure orc_done64(r : t64) is begin end procedure;
    procedure orc_rel64(a, b : t64; lt, le, eq, ne, ge, gt : boolean) is begin end procedure;
    impure function nd_real return real is begin return 0.0; end function;
    procedure orc_real(op : integer; a, b : real) is begin end procedure;
    procedure orc_rdone(r : real) is begin end procedure;
    procedure orc_rrel(a, b : real; lt, le, eq, ne, ge, gt : boolean) is begin end procedure;
    impure function nd64(lo, hi : t64) return t64 is begin return 0; end function;
end package body;

use work.sx.all;
use work.arith_orc.all;
entity arith32 is generic (OL : integer := 0; OH : integer := 12); end entity;
architecture a of arith32 is
begin
    process is
        type iv is array (natural range <>) of integer;
        constant cs : iv := (integer'low, -65536, -7, -2, -1, 0, 1, 2, 3, 10, 46341, integer'high);
        constant es : iv := (integer'low, -1291, -2, -1, 0, 1, 2, 3, 10, 1290, integer'high);
        constant ps : iv := (-1, 3, 4, 5, 9, 10, 16, 19, 20, 30, 31, 32, 33, 64);
        variable a, b, r : integer;
        variable op : integer;
    begin
        op := pick(nd_int(OL, OH));
        a := nd_int(integer'low, integer'high);
        b := nd_int(integer'low, integer'high);
        if op >= 2 and op <= 5 then
            if pick(nd_int(0, 1)) = 0 then
                b := cs(pick(nd_int(0, cs'length - 1)));
            else
                assume(conj(a >= -20, a <= 20) and conj(b >= -7, b <= 7));
            end if;
        end if;
        orc_range(integer'low, integer'high);
        if op = 8 then
            if pick(nd_int(0, 1)) = 0 then
                b := pick(nd_int(-2, 2));
                assume(a >= -50000 and a <= 50000);
            else
                a := es(pick(nd_int(0, es'length - 1)));
                b := ps(pick(nd_int(0, ps'length - 1)));
            end if;
        end if;
        if op < 12 then
            orc_op(op, a, b);
        end if;
        case op is
            when 0 => r := a + b;
            when 1 => r := a - b;
            when 2 => r := a * b;
            when 3 => r := a / b;
            when 4 => r := a mod b;
            when 5 => r := a rem b;
            when 6 => r := abs a;
            when 7 => r := -a;
            when 8 => r := a ** b;
            when 9 => r := minimum(a, b);
            when 10 => r := maximum(a, b);
            when 11 => r := +a;
            when others =>
                orc_rel(a, b, a < b, a <= b, a = b, a /= b, a >= b, a > b);
                reach("rel");
                done;
        end case;
        orc_done(r);
        reach("end");
        done;
    end process;
end architecture;

use work.sx.all;
use work.arith_orc.all;
entity arith64 is end entity;
architecture a of arith64 is
begin
    process is
        variable a, b, r : t64;
        variable op : integer;
    begin
        op := pick(nd_int(0, 12));
        a := nd64(t64'low, t64'high);
        b := nd64(t64'low, t64'high);
        orc_range64(t64'low, t64'high);
        assume(op /= 8);
        if op < 6 then
            -- sums of these cannot overflow in the oracle
            assume(a >= -2 ** 62 and a < 2 ** 62);
            assume(b >= -2 ** 62 and b < 2 ** 62);
        end if;
        if op = 2 then
            assume(a >= -2 ** 31 and a < 2 ** 31);
            assume(b >= -2 ** 31 and b < 2 ** 31);
        end if;
        if op >= 3 and op <= 5 then
            assume(b >= -1000 and b <= 1000);
            assume(a >= -1000000000 and a <= 1000000000);
        end if;
        if op < 12 then
            orc_op64(op, a, b);
        end if;
        case op is
            when 0 => r := a + b;
            when 1 => r := a - b;
            when 2 => r := a * b;
            when 3 => r := a / b;
            when 4 => r := a mod b;
            when 5 => r := a rem b;
            when 6 => r := abs a;
            when 7 => r := -a;
            when 9 => r := minimum(a, b);
            when 10 => r := maximum(a, b);
            when 11 => r := +a;
            when others =>
                orc_rel64(a, b, a < b, a <= b, a = b, a /= b, a >= b, a > b);
                reach("rel");
                done;
        end case;
        orc_done64(r);
        reach("end");
        done;
    end process;
end architecture;

-- Types and subtypes with smaller ranges
use work.sx.all;
use work.arith_orc.all;
entity arith_sub is end entity;
architecture a of arith_sub is
    type t8 is range -100 to 127;
    subtype s8 is integer range -7 to 99;
    type tu is range 0 to 255;
begin
    process is
        variable x, y : t8;
        variable u, v : tu;
        variable s : s8;
        variable n : natural;
        variable a, b, op : integer;
        type iv is array (natural range <>) of integer;
        constant cs : iv := (-100, -5, -1, 0, 1, 3, 16, 99, 127);
    begin
        op := pick(nd_int(0, 5));
        a := nd_int(-1000, 1000);
        b := nd_int(-1000, 1000);
        if op >= 3 then
            b := cs(pick(nd_int(0, cs'length - 1)));
        end if;
        if pick(nd_int(0, 2)) = 0 then
            assume(a >= -100 and a <= 127 and b >= -100 and b <= 127);
            x := t8(a);
            y := t8(b);
            orc_range(-100, 127);
            orc_op(op, integer(x), integer(y));
            case op is
                when 0 => x := x + y;
                when 1 => x := x - y;
                when 2 => x := x * y;
                when 3 => x := x / y;
                when 4 => x := x mod y;
                when others => x := x rem y;
            end case;
            orc_done(integer(x));
        elsif pick(nd_int(0, 1)) = 0 then
            assume(a >= 0 and a <= 255 and b >= 0 and b <= 255);
            u := tu(a);
            v := tu(b);
            orc_range(0, 255);
            orc_op(op, integer(u), integer(v));
            case op is
                when 0 => u := u + v;
                when 1 => u := u - v;
                when 2 => u := u * v;
                when 3 => u := u / v;
                when 4 => u := u mod v;
                when others => u := u rem v;
            end case;
            orc_done(integer(u));
        else
            orc_range(-7, 99);
            orc_op(op, a, b);
            case op is
                when 0 => s := a + b;
                when 1 => s := a - b;
                when 2 => s := a * b;
                when 3 => s := a / b;
                when 4 => s := a mod b;
                when others => s := a rem b;
            end case;
            orc_done(s);
        end if;
        reach("end");
        done;
    end process;
end architecture;

-- Physical types
use work.sx.all;
use work.arith_orc.all;
entity arith_phys is end entity;
architecture a of arith_phys is
    type len is range -1000000 to 1000000
        units mm; cm = 10 mm; m = 100 cm; end units;
begin
    process is
        variable a, b, op : integer;
        type iv is array (natural range <>) of integer;
        constant cs : iv := (-1000000, -70000, -3, -1, 0, 1, 7, 10, 1000000, 100000000);
        variable t, u : time;
        variable l : len;
    begin
        a := nd_int(-2000000, 2000000);
        b := nd_int(-2000000, 2000000);
        op := pick(nd_int(0, 9));
        if op >= 3 and op <= 6 then
            b := cs(pick(nd_int(0, cs'length - 1)));
        end if;
        orc_range(-1000000, 1000000);
        case op is
            when 0 =>
                assume(abs a <= 1000000);
                assume(abs b <= 1000000);
                orc_op(0, a, b);
                l := a * mm + b * mm;
                orc_done(l / mm);
            when 1 =>
                orc_op(2, a, 10);
                l := cm * a;
                orc_done(len'pos(l));
            when 2 =>
                orc_op(2, a, 1000);
                l := a * m;
                orc_done(len'pos(l));
            when 3 =>
                assume(abs a <= 1000000);
                orc_op(3, a, b);
                l := (a * mm) / b;
                orc_done(len'pos(l));
            when 4 =>
                assume(abs a <= 1000000);
                assume(abs b <= 1000000);
                orc_op(3, a, b);
                orc_done((a * mm) / (b * mm));
            when 5 =>
                assume(abs a <= 1000000);
                assume(abs b <= 1000000);
                orc_op(4, a, b);
                l := (a * mm) mod (b * mm);
                orc_done(len'pos(l));
            when 6 =>
                assume(abs a <= 1000000);
                assume(abs b <= 1000000);
                orc_op(5, a, b);
                l := (a * mm) rem (b * mm);
                orc_done(len'pos(l));
            when 7 =>
                assume(conj(a >= -100, a <= 100));
                t := a * ns;
                u := b * ps;
                check(conj(t / 1 ns = a, u / 1 ps = b), "time units");
                check((t > u) = (t - u > 0 ns), "time order");
            when 8 =>
                assume(conj(a >= 0, a < 65536));
                a := a + 65000;
                assume(a /= 65536);
                orc_op(2, a, 20);
                l := a * (20 * mm);
                orc_done(len'pos(l));
            when others =>
                assume(abs a <= 1000000);
                l := a * mm;
                check(abs l = (abs a) * mm and -l = (-a) * mm, "sign");
        end case;
        reach("end");
        done;
    end process;
end architecture;
