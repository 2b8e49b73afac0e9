-- Operations of numeric_std, numeric_bit, std_logic_1164 and the Synopsys
-- packages against arithmetic on the bits and tables
library ieee;
use ieee.std_logic_1164.all;
package num_pkg is
    type word is range -9223372036854775807 to 9223372036854775807;
    function orc_word(v : std_ulogic_vector; sign : boolean) return word;
    function orc_op(op : integer; a, b : word) return word;
    function orc_is(r : std_ulogic_vector; w : word) return boolean;
    attribute foreign of orc_word : function is "INTERNAL _orc_word";
    attribute foreign of orc_op : function is "INTERNAL _orc_wop";
    attribute foreign of orc_is : function is "INTERNAL _orc_is";
    function orc_logic(op : integer; a, b : std_ulogic) return integer;
    attribute foreign of orc_logic : function is "INTERNAL _orc_logic";
    function orc_vec(op : integer; r, a, b : std_ulogic_vector) return boolean;
    attribute foreign of orc_vec : function is "INTERNAL _orc_vec";
    function orc_bad(a : std_ulogic_vector) return boolean;
    attribute foreign of orc_bad : function is "INTERNAL _orc_bad";
    function orc_all(a : std_ulogic_vector; x : std_ulogic) return boolean;
    attribute foreign of orc_all : function is "INTERNAL _orc_all";
    function orc_same(a, b : std_ulogic_vector) return boolean;
    attribute foreign of orc_same : function is "INTERNAL _orc_same";
    constant ADD : integer := 0;
    constant SUBT : integer := 1;
    constant MUL : integer := 2;
    constant DIV : integer := 3;
    constant RMD : integer := 4;
    constant MDL : integer := 5;
    constant LSL : integer := 6;
    constant ASR : integer := 7;
    constant MAXW : integer := 8;
    constant MINW : integer := 9;
    constant ORW : integer := 10;
    constant ANDW : integer := 11;
    constant ABSW : integer := 12;
    function pos(x : std_ulogic) return integer;
    function sel(c : boolean; t, f : integer) return integer;
    impure function binary(n : integer) return std_ulogic_vector;    -- of 0 and 1
    impure function sparse(n : integer) return std_ulogic_vector;    -- all 0 or 1 but one
    impure function logic(n : integer) return std_ulogic_vector;     -- of all values
    impure function logic_at(n, p, q : integer) return std_ulogic_vector;  -- symbolic at p and q
    procedure check_bits(r : std_ulogic_vector; n : integer; w : word; msg : string);
    procedure check_dir(lft, rgt, n : integer; asc : boolean);
    function size(k : integer) return integer;
    function size2(k : integer) return integer;
    function size3(k : integer) return integer;
    function size4(k : integer) return integer;
    function size5(k : integer) return integer;
    function size6(k : integer) return integer;
end package;
use work.sx.all;
package body num_pkg is
    function orc_logic(op : integer; a, b : std_ulogic) return integer is
    begin
        return 0;
    end function;
    function orc_vec(op : integer; r, a, b : std_ulogic_vector) return boolean is
    begin
        return false;
    end function;
    function orc_bad(a : std_ulogic_vector) return boolean is
    begin
        return false;
    end function;
    function orc_all(a : std_ulogic_vector; x : std_ulogic) return boolean is
    begin
        return false;
    end function;
    function orc_same(a, b : std_ulogic_vector) return boolean is
    begin
        return false;
    end function;
    function orc_word(v : std_ulogic_vector; sign : boolean) return word is
    begin
        return 0;
    end function;
    function orc_op(op : integer; a, b : word) return word is
    begin
        return 0;
    end function;
    function orc_is(r : std_ulogic_vector; w : word) return boolean is
    begin
        return false;
    end function;
    function pos(x : std_ulogic) return integer is
    begin
        return std_ulogic'pos(x);
    end function;
    function sel(c : boolean; t, f : integer) return integer is
    begin
        return f + boolean'pos(c) * (t - f);
    end function;
    impure function binary(n : integer) return std_ulogic_vector is
        variable r : std_ulogic_vector(n - 1 downto 0);
    begin
        for i in r'range loop r(i) := std_ulogic'val(2 + nd_int(0, 1)); end loop;
        return r;
    end function;
    impure function sparse(n : integer) return std_ulogic_vector is
        variable r : std_ulogic_vector(n - 1 downto 0) := (others => std_ulogic'val(2 + pick(nd_int(0, 1))));
        type ints is array (natural range <>) of integer;
        constant at : ints := (n - 1, n / 2, 0);
    begin
        r(at(2 * pick(nd_int(0, 1)))) := std_ulogic'val(2 + nd_int(0, 1));
        return r;
    end function;
    impure function logic(n : integer) return std_ulogic_vector is
        variable r : std_ulogic_vector(1 to n);
    begin
        for i in r'range loop r(i) := std_ulogic'val(nd_int(0, 8)); end loop;
        return r;
    end function;
    impure function logic_at(n, p, q : integer) return std_ulogic_vector is
        variable r : std_ulogic_vector(1 to n);
    begin
        for i in r'range loop r(i) := std_ulogic'val((i * 5 + p) mod 9); end loop;
        if p <= n then r(p) := std_ulogic'val(nd_int(0, 8)); end if;
        if q <= n then r(q) := std_ulogic'val(nd_int(0, 8)); end if;
        return r;
    end function;
    procedure check_bits(r : std_ulogic_vector; n : integer; w : word; msg : string) is
    begin
        check(r'length = n, "length of result");
        check(orc_is(r, w), msg);
    end procedure;
    procedure check_dir(lft, rgt, n : integer; asc : boolean) is
    begin
        check(lft = n - 1 and rgt = 0 and not asc, "bounds of result");
    end procedure;
    -- around the sizes that are handled at once
    function size(k : integer) return integer is
        type ints is array (natural range <>) of integer;
        constant s : ints := (1, 2, 7, 8, 9, 17);
    begin
        return s(k);
    end function;
    function size2(k : integer) return integer is
        type ints is array (natural range <>) of integer;
        constant s : ints := (1, 2, 4, 9);
    begin
        return s(k);
    end function;
    function size3(k : integer) return integer is
        type ints is array (natural range <>) of integer;
        constant s : ints := (1, 3, 2, 4);
    begin
        return s(k);
    end function;
    function size4(k : integer) return integer is
        type ints is array (natural range <>) of integer;
        constant s : ints := (2, 2, 7, 5);
    begin
        return s(k);
    end function;
    function size5(k : integer) return integer is
        type ints is array (natural range <>) of integer;
        constant s : ints := (1, 4, 9, 2);
    begin
        return s(k);
    end function;
    function size6(k : integer) return integer is
        type ints is array (natural range <>) of integer;
        constant s : ints := (2, 3, 9, 9);
    begin
        return s(k);
    end function;
end package body;

-- Arithmetic of numeric_std on binary values
entity num1 is generic (SECT : integer); end entity;
library ieee;
use ieee.std_logic_1164.all;
use ieee.numeric_std.all;
use work.sx.all;
use work.num_pkg.all;
architecture a of num1 is
begin
    process is
        variable n, m, k, l : integer;

        procedure add_unsigned(a, b : std_ulogic_vector) is
            constant s : integer := maximum(a'length, b'length);
            constant x : word := orc_word(a, false);
            constant y : word := orc_word(b, false);
            constant p : unresolved_unsigned := unresolved_unsigned(a) + unresolved_unsigned(b);
            constant q : unresolved_unsigned := unresolved_unsigned(a) - unresolved_unsigned(b);
        begin
            check_dir(p'left, p'right, s, p'ascending);
            check_dir(q'left, q'right, s, q'ascending);
            check_bits(std_ulogic_vector(p), s, orc_op(ADD, x, y), "+ of unsigned");
            check_bits(std_ulogic_vector(q), s, orc_op(SUBT, x, y), "- of unsigned");
        end procedure;

        procedure add_signed(a, b : std_ulogic_vector) is
            constant s : integer := maximum(a'length, b'length);
            constant x : word := orc_word(a, true);
            constant y : word := orc_word(b, true);
            constant p : unresolved_signed := unresolved_signed(a) + unresolved_signed(b);
            constant q : unresolved_signed := unresolved_signed(a) - unresolved_signed(b);
        begin
            check_dir(p'left, p'right, s, p'ascending);
            check_dir(q'left, q'right, s, q'ascending);
            check_bits(std_ulogic_vector(p), s, orc_op(ADD, x, y), "+ of signed");
            check_bits(std_ulogic_vector(q), s, orc_op(SUBT, x, y), "- of signed");
        end procedure;

        procedure add_integer(a : std_ulogic_vector; x : integer) is
            constant n : integer := a'length;
            constant u : unresolved_unsigned := unresolved_unsigned(a);
            constant v : unresolved_signed := unresolved_signed(a);
            constant w : word := orc_word(a, false);
            constant z : word := orc_word(a, true);
        begin
            if x >= 0 then
                check_bits(std_ulogic_vector(u + x), n, orc_op(ADD, w, word(x)), "unsigned + natural");
                check_bits(std_ulogic_vector(x + u), n, orc_op(ADD, w, word(x)), "natural + unsigned");
                check_bits(std_ulogic_vector(u - x), n, orc_op(SUBT, w, word(x)), "unsigned - natural");
                check_bits(std_ulogic_vector(x - u), n, orc_op(SUBT, word(x), w), "natural - unsigned");
            end if;
            check_bits(std_ulogic_vector(v + x), n, orc_op(ADD, z, word(x)), "signed + integer");
            check_bits(std_ulogic_vector(x - v), n, orc_op(SUBT, word(x), z), "integer - signed");
        end procedure;

        procedure multiply(a, b : std_ulogic_vector) is
            constant s : integer := a'length + b'length;
            constant p : unresolved_unsigned := unresolved_unsigned(a) * unresolved_unsigned(b);
            constant q : unresolved_signed := unresolved_signed(a) * unresolved_signed(b);
        begin
            check_dir(p'left, p'right, s, p'ascending);
            check_dir(q'left, q'right, s, q'ascending);
            check_bits(std_ulogic_vector(p), s, orc_op(MUL, orc_word(a, false), orc_word(b, false)), "* of unsigned");
            check_bits(std_ulogic_vector(q), s, orc_op(MUL, orc_word(a, true), orc_word(b, true)), "* of signed");
        end procedure;

        procedure divide(a, b : std_ulogic_vector; k : integer) is
            constant u : word := orc_word(a, false);
            constant v : word := orc_word(b, false);
            constant x : word := orc_word(a, true);
            constant y : word := orc_word(b, true);
            constant n : integer := a'length;
            constant m : integer := b'length;
        begin
            assume(v /= 0);
            case k is
                when 0 => check_bits(std_ulogic_vector(unresolved_unsigned(a) / unresolved_unsigned(b)), n, orc_op(DIV, u, v), "/ of unsigned");
                when 1 => check_bits(std_ulogic_vector(unresolved_unsigned(a) rem unresolved_unsigned(b)), m, orc_op(RMD, u, v), "rem of unsigned");
                when 2 => check_bits(std_ulogic_vector(unresolved_unsigned(a) mod unresolved_unsigned(b)), m, orc_op(MDL, u, v), "mod of unsigned");
                when 3 => check_bits(std_ulogic_vector(unresolved_signed(a) / unresolved_signed(b)), n, orc_op(DIV, x, y), "/ of signed");
                when 4 => check_bits(std_ulogic_vector(unresolved_signed(a) rem unresolved_signed(b)), m, orc_op(RMD, x, y), "rem of signed");
                when 5 => check_bits(std_ulogic_vector(unresolved_signed(a) mod unresolved_signed(b)), m, orc_op(MDL, x, y), "mod of signed");
                when others => null;
            end case;
        end procedure;

        procedure compare(a, b : std_ulogic_vector; k : integer) is
            constant ua : unresolved_unsigned := unresolved_unsigned(a);
            constant ub : unresolved_unsigned := unresolved_unsigned(b);
            constant sa : unresolved_signed := unresolved_signed(a);
            constant sb : unresolved_signed := unresolved_signed(b);
            variable u, v, x, y : word;
        begin
            u := orc_word(a, false);
            v := orc_word(b, false);
            x := orc_word(a, true);
            y := orc_word(b, true);
            case k is
                when 0 => check((ua < ub) = (u < v), "< of unsigned");
                when 1 => check((ua <= ub) = (u <= v), "<= of unsigned");
                when 2 => check((ua > ub) = (u > v), "> of unsigned");
                when 3 => check((ua >= ub) = (u >= v), ">= of unsigned");
                when 4 => check((ua = ub) = (u = v), "= of unsigned");
                when 5 => check((ua /= ub) = (u /= v), "/= of unsigned");
                when 6 => check((sa < sb) = (x < y), "< of signed");
                when 7 => check((sa <= sb) = (x <= y), "<= of signed");
                when 8 => check((sa > sb) = (x > y), "> of signed");
                when 9 => check((sa >= sb) = (x >= y), ">= of signed");
                when 10 => check((sa = sb) = (x = y), "= of signed");
                when 11 => check((sa /= sb) = (x /= y), "/= of signed");
                when others => null;
            end case;
        end procedure;

        procedure compare_integer(a : std_ulogic_vector; c : integer; k : integer) is
            constant ua : unresolved_unsigned := unresolved_unsigned(a);
            constant sa : unresolved_signed := unresolved_signed(a);
            variable u, x, i : word;
        begin
            i := word(c);
            u := orc_word(a, false);
            x := orc_word(a, true);
            if i >= 0 then
                case k is
                    when 0 => check((ua < c) = (u < i) and (c < ua) = (i < u), "< of unsigned and natural");
                    when 1 => check((ua >= c) = (u >= i) and (c >= ua) = (i >= u), ">= of unsigned and natural");
                    when 2 => check((ua = c) = (u = i) and (c /= ua) = (i /= u), "= of unsigned and natural");
                    when others => null;
                end case;
            end if;
            case k is
                when 3 => check((sa < c) = (x < i) and (c < sa) = (i < x), "< of signed and integer");
                when 4 => check((sa >= c) = (x >= i) and (c >= sa) = (i >= x), ">= of signed and integer");
                when 5 => check((sa = c) = (x = i) and (c /= sa) = (i /= x), "= of signed and integer");
                when others => null;
            end case;
        end procedure;

        procedure convert(a : std_ulogic_vector; s, x, k : integer) is
            constant n : integer := a'length;
            constant u : unresolved_unsigned := unresolved_unsigned(a);
            constant v : unresolved_signed := unresolved_signed(a);
            constant w : word := orc_word(a, false);
            constant z : word := orc_word(a, true);
            variable e : word;
        begin
            case k is
                when 0 =>
                    check_bits(std_ulogic_vector(resize(u, s)), s, w, "resize of unsigned");
                    check_dir(resize(u, s)'left, resize(v, s)'right, s, resize(u, s)'ascending);
                when 1 =>
                    e := z;
                    if s < n then       -- keeps the sign
                        e := orc_op(ORW, orc_op(ANDW, z, 2**(s - 1) - 1), orc_op(LSL, orc_op(ASR, z, 63), word(s - 1)));
                    end if;
                    check_bits(std_ulogic_vector(resize(v, s)), s, e, "resize of signed");
                when 2 => check(word(to_integer(u)) = w, "to_integer of unsigned");
                when 3 => check(word(to_integer(v)) = z, "to_integer of signed");
                when 4 =>
                    assume(x >= 0);
                    check_bits(std_ulogic_vector(to_unsigned(x, s)), s, word(x), "to_unsigned");
                when 5 => check_bits(std_ulogic_vector(to_signed(x, s)), s, word(x), "to_signed");
                when others => null;
            end case;
        end procedure;

        procedure shifts(a : std_ulogic_vector; s : integer) is
            constant n : integer := a'length;
            constant x : word := orc_word(a, false);
            constant z : word := orc_word(a, true);
            constant t : integer := s mod n;
            constant u : unresolved_unsigned := unresolved_unsigned(a);
            constant v : unresolved_signed := unresolved_signed(a);
            variable l, r, lr, rr, ar : word;
            variable fl, fr : integer;
        begin
            fl := -1;
            fr := -1;
            for i in 0 to n - 1 loop
                fl := sel(orc_op(ANDW, x, 2**i) /= 0, i, fl);
                fr := sel(orc_op(ANDW, x, 2**(n - 1 - i)) /= 0, n - 1 - i, fr);
            end loop;
            l := orc_op(LSL, x, word(s));
            r := orc_op(ASR, x, word(s));
            ar := orc_op(ASR, z, word(s));
            lr := orc_op(ORW, orc_op(LSL, x, word(t)), orc_op(ASR, x, word(n - t)));
            rr := orc_op(ORW, orc_op(ASR, x, word(t)), orc_op(LSL, x, word(n - t)));
            check_bits(std_ulogic_vector(shift_left(u, s)), n, l, "shift_left of unsigned");
            check_bits(std_ulogic_vector(shift_right(u, s)), n, r, "shift_right of unsigned");
            check_bits(std_ulogic_vector(rotate_left(u, s)), n, lr, "rotate_left of unsigned");
            check_bits(std_ulogic_vector(rotate_right(u, s)), n, rr, "rotate_right of unsigned");
            check_bits(std_ulogic_vector(shift_left(v, s)), n, l, "shift_left of signed");
            check_bits(std_ulogic_vector(shift_right(v, s)), n, ar, "shift_right of signed");
            check_bits(std_ulogic_vector(u sll s), n, l, "sll of unsigned");
            check_bits(std_ulogic_vector(u srl s), n, r, "srl of unsigned");
            check_bits(std_ulogic_vector(u sll (-s)), n, r, "sll of unsigned by negative");
            check_bits(std_ulogic_vector(v ror s), n, rr, "ror of signed");
            check_bits(std_ulogic_vector(v sra s), n, ar, "sra of signed");
            check_bits(a sll s, n, l, "sll of std_ulogic_vector");
            check_bits(a srl s, n, r, "srl of std_ulogic_vector");
            check_bits(a rol s, n, lr, "rol of std_ulogic_vector");
            check(find_leftmost(u, '1') = fl and find_rightmost(u, '1') = fr, "find_leftmost, find_rightmost");
        end procedure;

        procedure misc(a, b : std_ulogic_vector) is
            constant ua : unresolved_unsigned := unresolved_unsigned(a);
            constant ub : unresolved_unsigned := unresolved_unsigned(b);
            constant sa : unresolved_signed := unresolved_signed(a);
            constant sb : unresolved_signed := unresolved_signed(b);
            constant u : word := orc_word(a, false);
            constant v : word := orc_word(b, false);
            constant x : word := orc_word(a, true);
            constant y : word := orc_word(b, true);
            constant s : integer := maximum(a'length, b'length);
        begin
            check_bits(std_ulogic_vector(maximum(ua, ub)), s, orc_op(MAXW, u, v), "maximum of unsigned");
            check_bits(std_ulogic_vector(minimum(sa, sb)), s, orc_op(MINW, x, y), "minimum of signed");
            check_bits(std_ulogic_vector(abs sa), a'length, orc_op(ABSW, x, 0), "abs of signed");
            check_bits(std_ulogic_vector(-unresolved_signed(a)), a'length, orc_op(SUBT, 0, x), "negation of signed");
            check(pos(ua ?= ub) - 2 = boolean'pos(u = v), "?= of unsigned");
            check(pos(sa ?< sb) - 2 = boolean'pos(x < y), "?< of signed");
            check(pos(ua ?>= ub) - 2 = boolean'pos(u >= v), "?>= of unsigned");
            check(pos(and ua) - 2 = boolean'pos(u = 2**a'length - 1), "and of unsigned");
            check(pos(or sa) - 2 = boolean'pos(u /= 0), "or of signed");
            check(std_match(ua, ub) = conj(u = v, a'length = b'length), "std_match");
        end procedure;
    begin
        k := 0;
        l := 0;
        if SECT < 3 or SECT = 5 then k := pick(nd_int(0, 5)); end if;
        if SECT < 3 then l := pick(nd_int(0, 5)); end if;
        if SECT = 9 then k := pick(nd_int(0, 3)); end if;
        if SECT = 7 then k := pick(nd_int(0, 2)); end if;
        if SECT = 3 or SECT = 4 then l := pick(nd_int(0, 3)); end if;
        n := size(k);
        m := size(l);
        case SECT is
            when 1 => add_unsigned(binary(n), binary(m));
            when 2 => add_signed(binary(n), binary(m));
            when 3 =>
                n := size2(l);
                add_integer(binary(n), nd_int(integer'low, integer'high));
            when 4 =>
                n := size3(l);
                m := size4(l);
                multiply(binary(n), binary(m));
            when 5 =>
                n := pick(nd_int(1, 3));
                m := pick(nd_int(1, 3));
                divide(binary(n), binary(m), k);
            when 6 =>
                m := pick(nd_int(0, 11));
                if m < 4 then        -- others take a path for each value
                    k := pick(nd_int(0, 3));
                    l := pick(nd_int(0, 3));
                else
                    k := pick(nd_int(0, 1));
                    l := pick(nd_int(0, 1));
                end if;
                compare(binary(size5(k)), binary(size6(l)), m);
            when 7 => compare_integer(binary(size2(k)), nd_int(-20, 20), pick(nd_int(0, 5)));
            when 8 =>
                l := pick(nd_int(0, 5));
                m := 1;
                if l < 2 or l > 3 then m := pick(nd_int(1, 10)); end if;
                k := 0;
                if l < 2 then k := size(pick(nd_int(0, 5))); elsif l < 4 then k := pick(nd_int(1, 5)); else k := 1; end if;
                convert(binary(k), m, nd_int(integer'low, integer'high), l);
            when 9 => shifts(binary(size2(k)), pick(nd_int(0, 1)) + k * pick(nd_int(0, 3)));
            when 11 =>       -- of very different lengths
                m := pick(nd_int(0, 11));
                k := 2;
                if pick(nd_int(0, 1)) = 0 then
                    compare(binary(k), sparse(k + 11), m);
                else
                    compare(sparse(k + 13), binary(k), m);
                end if;
            when 10 => misc(binary(pick(nd_int(1, 3))), binary(pick(nd_int(1, 3))));
            when others => null;
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- std_logic_1164 on all values, metavalues in numeric_std
entity num2 is generic (SECT : integer); end entity;
library ieee;
use ieee.std_logic_1164.all;
use ieee.numeric_std.all;
use work.sx.all;
use work.num_pkg.all;
architecture a of num2 is
    procedure scalars(a, b : std_ulogic) is
        constant v : std_ulogic_vector(1 to 2) := (a, b);
    begin
        check(pos(a and b) = orc_logic(0, a, b), "and of std_ulogic");
        check(pos(a or b) = orc_logic(1, a, b), "or of std_ulogic");
        check(pos(a xor b) = orc_logic(2, a, b), "xor of std_ulogic");
        check(pos(a nand b) = orc_logic(3, a, b), "nand of std_ulogic");
        check(pos(a nor b) = orc_logic(4, a, b), "nor of std_ulogic");
        check(pos(a xnor b) = orc_logic(5, a, b), "xnor of std_ulogic");
        check(pos(not a) = orc_logic(6, a, b), "not of std_ulogic");
        check(pos(resolved(v)) = orc_logic(8, a, b), "resolved");
        check(pos(to_x01(a)) = orc_logic(7, a, b), "to_x01");
        check(is_x(a) = (orc_logic(7, a, b) = 1), "is_x");
    end procedure;

    procedure vectors(a, b : std_ulogic_vector; op : integer) is
        constant n : integer := a'length;
        procedure bounds(r : std_ulogic_vector) is
        begin
            check(r'left = 1 and r'length = n and (n = 0 or r'right = n), "bounds of result");
        end procedure;
    begin
        case op is
            when 0 => bounds(a and b); check(orc_vec(0, a and b, a, b), "and of vectors");
            when 1 => bounds(a or b); check(orc_vec(1, a or b, a, b), "or of vectors");
            when 2 => bounds(a xor b); check(orc_vec(2, a xor b, a, b), "xor of vectors");
            when 3 => check(orc_vec(3, a nand b, a, b), "nand of vectors");
            when 4 => check(orc_vec(4, a nor b, a, b), "nor of vectors");
            when 5 => check(orc_vec(5, a xnor b, a, b), "xnor of vectors");
            when 6 =>
                check(orc_vec(6, not a, a, b), "not of vectors");
                check(orc_vec(7, to_x01(a), a, b), "to_x01 of vectors");
            when 7 =>
                check((a = b) = orc_same(a, b), "equality of vectors");
                check((a /= b) = not orc_same(a, b), "inequality of vectors");
            when others => null;
        end case;
    end procedure;

    -- results of operations with at least one metavalue
    procedure meta(a, b : std_ulogic_vector; sect : integer) is
        constant ua : unresolved_unsigned := unresolved_unsigned(a);
        constant ub : unresolved_unsigned := unresolved_unsigned(b);
        constant sa : unresolved_signed := unresolved_signed(a);
        constant sb : unresolved_signed := unresolved_signed(b);
        variable bad : boolean;
        procedure result(r : std_ulogic_vector; n : integer; bad : boolean; ok : word; msg : string) is
        begin
            check(r'length = n, "length of result");
            check(orc_all(r, 'X') = bad, msg);
            check(orc_is(r, ok) /= bad, msg);
        end procedure;
        constant s : integer := maximum(a'length, b'length);
        constant u : word := orc_word(a, false);
        constant v : word := orc_word(b, false);
        constant x : word := orc_word(a, true);
        constant y : word := orc_word(b, true);
    begin
        bad := orc_bad(a & b);
        case sect is
            when 0 =>
                result(std_ulogic_vector(ua + ub), s, bad, orc_op(ADD, u, v), "+ with metavalues");
            when 1 =>
                result(std_ulogic_vector(sa + sb), s, bad, orc_op(ADD, x, y), "+ of signed with metavalues");
            when 2 =>
                result(std_ulogic_vector(ua - ub), s, bad, orc_op(SUBT, u, v), "- with metavalues");
            when 3 =>
                result(std_ulogic_vector(sa - sb), s, bad, orc_op(SUBT, x, y), "- of signed with metavalues");
            when 4 =>
                check((ua < ub) = conj(not bad, u < v), "< with metavalues");
                check((ua <= ub) = conj(not bad, u <= v), "<= with metavalues");
                check((ua > ub) = conj(not bad, u > v), "> with metavalues");
                check((ua >= ub) = conj(not bad, u >= v), ">= with metavalues");
                check((ua = ub) = conj(not bad, u = v), "= with metavalues");
                check((ua /= ub) = (not conj(not bad, u = v)), "/= with metavalues");
            when 6 =>
                result(std_ulogic_vector(ua + 1), a'length, orc_bad(a), orc_op(ADD, u, 1), "unsigned + natural with metavalues");
            when 7 =>
                result(std_ulogic_vector(ua * ub), a'length + b'length, bad, orc_op(MUL, u, v), "* with metavalues");
            when others => null;
        end case;
    end procedure;

    procedure to_01_all(a : std_ulogic_vector) is
        constant u : unresolved_unsigned := unresolved_unsigned(a);
        constant bad : boolean := orc_bad(a);
        variable r, q : std_ulogic_vector(a'length downto 1);
    begin
        r := std_ulogic_vector(to_01(u, '1'));
        q := std_ulogic_vector(to_01(u));
        if bad then
            check(orc_all(r, '1') and orc_all(q, '0'), "to_01");
        else
            check(orc_vec(7, r, a, a) and orc_vec(7, q, a, a), "to_01");
        end if;
    end procedure;
begin
    process is
        variable n, m, k, s : integer;
    begin
        s := 0;
        if SECT = 2 or SECT = 3 or SECT = 7 then s := pick(nd_int(0, 7)); end if;
        case SECT is
            when 1 => scalars(std_ulogic'val(nd_int(0, 8)), std_ulogic'val(nd_int(0, 8)));
            when 2 =>
                n := pick(nd_int(0, 3));
                vectors(logic(n), logic(n), s);
            when 3 =>          -- long vectors
                k := pick(nd_int(0, 4));
                n := 15 + k + 15 * (k / 3);
                k := pick(nd_int(0, 1));
                vectors(logic_at(n, 1 + 7 * k, 16), logic_at(n, 1 + 7 * k, 16 + k), s);
            when 4 => meta(logic(2), logic(1), pick(nd_int(0, 4)));
            when 5 => meta(logic(pick(nd_int(1, 2))), logic(1), pick(nd_int(6, 7)));
            when 6 => to_01_all(logic(pick(nd_int(1, 3))));
            when 7 => meta(logic_at(9, 1 + s, 9), logic_at(8, 1 + s, 3), pick(nd_int(0, 4)));
            when others => null;
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- Arithmetic of std_logic_unsigned, weak values too
entity num3 is generic (SECT : integer); end entity;
library ieee;
use ieee.std_logic_1164.all;
use ieee.std_logic_unsigned.all;
use work.sx.all;
use work.num_pkg.all;
architecture a of num3 is
begin
    process is
        variable k, l : integer;
        impure function weak(n : integer) return std_ulogic_vector is
            variable r : std_ulogic_vector(n - 1 downto 0);
        begin
            for i in r'range loop
                r(i) := std_ulogic'val(2 + nd_int(0, 1) + 4 * nd_int(0, 1));
            end loop;
            return r;
        end function;
        procedure test(a, b : std_logic_vector; k : integer) is
            constant n : integer := maximum(a'length, b'length);
            constant x : word := orc_word(a, false);
            constant y : word := orc_word(b, false);
            variable i : integer;
        begin
            case k is
                when 0 => check_bits(a + b, n, orc_op(ADD, x, y), "+");
                when 1 => check_bits(a - b, n, orc_op(SUBT, x, y), "-");
                when 2 => check_bits(a * b, a'length + b'length, orc_op(MUL, x, y), "*");
                when 3 => check((a = b) = (x = y) and (a /= b) = (x /= y), "= and /=");
                when 4 => check((a < b) = (x < y) and (a >= b) = (x >= y), "< and >=");
                when 5 => check((a > b) = (x > y) and (a <= b) = (x <= y), "> and <=");
                when 6 =>
                    check_bits(a + b(b'left), a'length, orc_op(ADD, x, orc_word(b(b'left downto b'left), false)), "+ and bit");
                    check_bits(b(b'left) + a, a'length, orc_op(ADD, x, orc_word(b(b'left downto b'left), false)), "bit + vector");
                when 7 =>
                    i := nd_int(0, 2**a'length - 1);
                    check_bits(a + i, a'length, orc_op(ADD, x, word(i)), "+ and integer");
                    check_bits(i - a, a'length, orc_op(SUBT, word(i), x), "integer - vector");
                    check((a = i) = (x = word(i)) and (i < a) = (word(i) < x), "comparison with integer");
                when 8 => check(conv_integer(a) = integer(x), "conv_integer");
                when others => null;
            end case;
        end procedure;
    begin
        k := SECT;
        if SECT = 0 then
            k := pick(nd_int(0, 8));
            l := pick(nd_int(0, 3));
            if k = 2 then
                test(binary(size3(l)), binary(size4(l)), k);
            elsif k = 6 then
                test(binary(size5(l)), binary(1), k);
            elsif k < 3 then
                test(binary(size5(l)), binary(size6(l)), k);
            elsif k = 3 then
                test(binary(size5(l)), binary(size6(3 - l)), k);
            else
                test(binary(1 + l), binary(2), k);
            end if;
        else        -- weak values
            k := pick(nd_int(0, 3));
            l := pick(nd_int(1, 3));
            test(weak(l), weak(pick(nd_int(1, 2))), k);
        end if;
        reach("end");
        done;
    end process;
end architecture;

-- Arithmetic of std_logic_signed, weak values too
entity num4 is generic (SECT : integer); end entity;
library ieee;
use ieee.std_logic_1164.all;
use ieee.std_logic_signed.all;
use work.sx.all;
use work.num_pkg.all;
architecture a of num4 is
begin
    process is
        variable k, l : integer;
        impure function weak(n : integer) return std_ulogic_vector is
            variable r : std_ulogic_vector(n - 1 downto 0);
        begin
            for i in r'range loop
                r(i) := std_ulogic'val(2 + nd_int(0, 1) + 4 * nd_int(0, 1));
            end loop;
            return r;
        end function;
        procedure test(a, b : std_logic_vector; k : integer) is
            constant n : integer := maximum(a'length, b'length);
            constant x : word := orc_word(a, true);
            constant y : word := orc_word(b, true);
            variable i : integer;
        begin
            case k is
                when 0 => check_bits(a + b, n, orc_op(ADD, x, y), "+");
                when 1 => check_bits(a - b, n, orc_op(SUBT, x, y), "-");
                when 2 => check_bits(a * b, a'length + b'length, orc_op(MUL, x, y), "*");
                when 3 => check((a = b) = (x = y) and (a /= b) = (x /= y), "= and /=");
                when 4 => check((a < b) = (x < y) and (a >= b) = (x >= y), "< and >=");
                when 5 => check((a > b) = (x > y) and (a <= b) = (x <= y), "> and <=");
                when 6 =>
                    check_bits(a + b(b'left), a'length, orc_op(ADD, x, orc_word(b(b'left downto b'left), false)), "+ and bit");
                    check_bits(b(b'left) + a, a'length, orc_op(ADD, x, orc_word(b(b'left downto b'left), false)), "bit + vector");
                when 7 =>
                    i := nd_int(-2**(a'length - 1), 2**(a'length - 1) - 1);
                    check_bits(a + i, a'length, orc_op(ADD, x, word(i)), "+ and integer");
                    check_bits(i - a, a'length, orc_op(SUBT, word(i), x), "integer - vector");
                    check((a = i) = (x = word(i)) and (i < a) = (word(i) < x), "comparison with integer");
                when 8 => check(conv_integer(a) = integer(x), "conv_integer");
                when others => null;
            end case;
        end procedure;
    begin
        k := SECT;
        if SECT = 0 then
            k := pick(nd_int(0, 8));
            l := pick(nd_int(0, 3));
            if k = 2 then
                test(binary(size3(l)), binary(size4(l)), k);
            elsif k = 6 then
                test(binary(size5(l)), binary(1), k);
            elsif k < 3 then
                test(binary(size5(l)), binary(size6(l)), k);
            elsif k = 3 then
                test(binary(size5(l)), binary(size6(3 - l)), k);
            else
                test(binary(1 + l), binary(2), k);
            end if;
        else        -- weak values
            k := pick(nd_int(0, 3));
            l := pick(nd_int(1, 3));
            test(weak(l), weak(pick(nd_int(1, 2))), k);
        end if;
        reach("end");
        done;
    end process;
end architecture;
