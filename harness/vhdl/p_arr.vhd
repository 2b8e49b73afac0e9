-- Predefined operations of arrays against definitions by element
package arr_pkg is
    type int_vec is array (natural range <>) of integer;
    type down_vec is array (integer range <>) of integer;
    type small is range 5 to 20;
    type small_vec is array (small range <>) of integer;
    type enum is (e0, e1, e2, e3);
    type by_enum is array (enum range <>) of integer;
    type enum_vec is array (integer range <>) of enum;
    type bool_vec is array (natural range <>) of boolean;
    type grid is array (integer range <>, integer range <>) of integer;
    type rows is array (natural range <>) of int_vec;      -- unconstrained elements
    type fixed_rows is array (natural range <>) of int_vec(1 to 2);
    type rec is record
        a : integer;
        v : int_vec(1 to 3);
    end record;
    type rec_vec is array (natural range <>) of rec;
    impure function any_ints(n : integer) return int_vec;   -- 1 to n
    impure function any_bits(n : integer) return bit_vector;
    impure function any_bools(n : integer) return boolean_vector;
    function sel(c : boolean; t, f : integer) return integer;
    function id(v : int_vec) return int_vec;
    function part(v : int_vec; l, h : integer) return int_vec;
    function b2i(b : bit) return integer;
    function b2i(b : boolean) return integer;
    function total(v : int_vec) return integer;
    function len(v : int_vec) return integer;
    function at(f : fixed_rows; i, j : integer) return integer;
end package;
use work.sx.all;
package body arr_pkg is
    impure function any_ints(n : integer) return int_vec is
        variable r : int_vec(1 to n);
    begin
        for i in r'range loop r(i) := nd_int(-100, 100); end loop;
        return r;
    end function;
    impure function any_bits(n : integer) return bit_vector is
        variable r : bit_vector(1 to n);
    begin
        for i in r'range loop r(i) := bit'val(nd_int(0, 1)); end loop;
        return r;
    end function;
    impure function any_bools(n : integer) return boolean_vector is
        variable r : boolean_vector(1 to n);
    begin
        for i in r'range loop r(i) := nd_bool; end loop;
        return r;
    end function;
    function sel(c : boolean; t, f : integer) return integer is
    begin
        return f + boolean'pos(c) * (t - f);
    end function;
    function id(v : int_vec) return int_vec is
    begin
        return v;
    end function;
    function part(v : int_vec; l, h : integer) return int_vec is
    begin
        return v(l to h);
    end function;
    function b2i(b : bit) return integer is
    begin
        return bit'pos(b);
    end function;
    function b2i(b : boolean) return integer is
    begin
        return boolean'pos(b);
    end function;
    function len(v : int_vec) return integer is
    begin
        return v'length;
    end function;
    function at(f : fixed_rows; i, j : integer) return integer is
    begin
        return f(i)(j);
    end function;
    function total(v : int_vec) return integer is
        variable r : integer := 0;
    begin
        for i in v'range loop r := r + v(i); end loop;
        return r;
    end function;
end package body;

-- Concatenation and slices
entity arr1 is generic (SECT : integer); end entity;
use work.sx.all;
use work.arr_pkg.all;
architecture a of arr1 is
    constant null_int : int_vec(1 to 0) := (others => 0);
begin
    process is
        variable n, m, i, j, k, x, y : integer;
        variable acc : integer;

        procedure check_cat(r : int_vec; v, w : int_vec; null_right : boolean) is
        begin
            check(r'length = v'length + w'length, "length of concatenation");
            if r'length > 0 then
                check(r'left = 0 and r'ascending, "bounds of concatenation");
            end if;
            for p in 0 to v'length - 1 loop
                check(r(r'left + p) = v(v'left + p), "left operand of concatenation");
            end loop;
            for p in 0 to w'length - 1 loop
                check(r(r'left + v'length + p) = w(w'left + p), "right operand of concatenation");
            end loop;
        end procedure;

        procedure cat_arrays(v, w : int_vec) is
            variable z : int_vec(1 to v'length + w'length);
            variable one : int_vec(1 to 1);
        begin
            check_cat(v & w, v, w, w'length = 0);
            z := v & w;
            check_cat(id(z(1 to z'right) & null_int), z, null_int, true);
            one(1) := 77;
            check_cat(v & 77, v, one, false);
            check_cat(77 & v, one, v, false);
            check(total(v & 77 & w & v & 77) = 2 * total(v) + total(w) + 154, "several concatenations");
            check(len(v & 77 & w) = v'length + w'length + 1, "length of several concatenations");
        end procedure;

        procedure cat_down(v, w : down_vec) is
            constant r : down_vec := v & w;
        begin
            check(r'length = v'length + w'length, "length of concatenation");
            if v'length + w'length > 0 then
                check(r'ascending and r'left = integer'low, "bounds of concatenation");
            end if;
            for p in 0 to v'length - 1 loop
                check(r(r'left + p) = v(v'left - p), "left operand of concatenation");
            end loop;
            for p in 0 to w'length - 1 loop
                check(r(r'left + v'length + p) = w(w'left - p), "right operand of concatenation");
            end loop;
        end procedure;

        impure function downs(n : integer) return down_vec is
            variable r : down_vec(n downto 1);
        begin
            for p in r'range loop r(p) := nd_int(-100, 100); end loop;
            return r;
        end function;

        -- known findings
        procedure null_bounds(v : int_vec; d : down_vec; l, r : integer) is
            constant c : down_vec := d & d;
        begin
            if nd_bool then
                check(id(v(l to r))'right = r, "right bound of null slice");
            else
                check(c'left = d'left and c'right = d'right and c'ascending = d'ascending,
                    "bounds of null concatenation");
            end if;
        end procedure;

        procedure cat_elems(a, b : integer) is
            constant r : int_vec := a & b;
            constant s : small_vec := a & b & a;
            constant e : by_enum := a & b & a & b;
        begin
            check(r'left = 0 and r'right = 1 and r(0) = a and r(1) = b, "concatenation of elements");
            check(s'left = 5 and s'right = 7 and s(5) = a and s(6) = b and s(7) = a, "concatenation of elements");
            check(e'left = e0 and e'right = e3 and e(e1) = b and e(e2) = a, "concatenation of elements");
        end procedure;

        procedure cat_rows(v : int_vec) is
            variable f : fixed_rows(1 to 2);
            variable g : rec_vec(1 to 3);
        begin
            f := (v(1 to 2), v(2 to 3));
            check(at(f & v(1 to 2), 2, 2) = v(2), "concatenation of array and element array");
            check(at(v(2 to 3) & f, 0, 1) = v(2), "concatenation of element array and array");
            check(at(v(2 to 3) & f, 2, 2) = v(3), "concatenation of element array and array");
            check(at(f & f, 3, 1) = v(2), "concatenation of arrays of arrays");
            g := rec'(v(1), v(1 to 3)) & rec_vec'(rec'(v(2), v(1 to 3)), rec'(v(3), v(3) & v(2) & v(1)));
            for p in 1 to 3 loop
                check(g(p).a = v(p), "concatenation of records");
                check(g(3).v(p) = v(4 - p), "concatenation of records");
            end loop;
        end procedure;

        procedure slices(v : int_vec; l, r : integer) is
            variable w : int_vec(v'range) := v;
            variable d : down_vec(10 downto 11 - v'length) := down_vec(v);
            variable acc : integer := 0;
        begin
            -- reading
            check(v(l to r)'length = maximum(r - l + 1, 0), "length of slice");
            for p in 0 to r - l loop
                check(id(v(l to r))(l + p) = v(l + p), "element of slice");
                acc := acc + v(l + p);
            end loop;
            check(total(v(l to r)) = acc, "elements of slice");
            check(id(v(l to r))'left = l and (l > r or id(v(l to r))'right = r), "bounds of slice");
            -- writing
            for q in l to r loop w(q) := 1000 + q; end loop;
            check(total(w) = total(v) - acc + total(w(l to r)), "elements outside of slice");
            w := v;
            w(l to r) := (others => 7);
            for q in v'range loop
                check(w(q) = sel(q >= l and q <= r, 7, v(q)), "assignment to slice");
            end loop;
            -- overlapping
            if l <= r and r < v'right then
                w := v;
                w(l to r) := w(l + 1 to r + 1);
                for q in v'range loop
                    check(w(q) = sel(q >= l and q <= r, v(minimum(q + 1, v'right)), v(q)), "overlapping slices");
                end loop;
                w := v;
                w(l + 1 to r + 1) := w(l to r);
                for q in v'range loop
                    check(w(q) = sel(q >= l + 1 and q <= r + 1, v(maximum(q - 1, v'left)), v(q)), "overlapping slices");
                end loop;
            end if;
            -- descending
            for q in v'range loop
                check(d(11 - q) = v(q), "conversion of array");
            end loop;
            d(11 - l downto 11 - r) := (others => 9);
            for q in v'range loop
                check(d(11 - q) = sel(q >= l and q <= r, 9, v(q)), "assignment to descending slice");
            end loop;
            check(d(11 - l downto 11 - r)'length = maximum(r - l + 1, 0), "length of descending slice");
        end procedure;

        procedure row_slices(v : int_vec) is
            variable f, g : fixed_rows(0 to 3);
            variable rr : rec_vec(0 to 2);
            variable i : integer;
        begin
            f := (v(1 to 2), v(2 to 3), v(3 to 4), v(1) & v(4));
            g := f;
            i := nd_int(0, 2);
            g(i to i + 1) := f(2 to 3);
            for p in 0 to 3 loop
                for q in 1 to 2 loop
                    check(g(p)(q) = sel(p = i, f(2)(q), sel(p = i + 1, f(3)(q), f(p)(q))), "slice of array of arrays");
                end loop;
            end loop;
            i := pick(i);
            g(i)(1 to 1) := (1 => 55);
            check(g(i)(1) = 55, "slice of element");
            rr := (others => (a => v(1), v => v(2 to 4)));
            rr(i).v(2 to 3) := v(1 to 2);
            check(rr(i).v(1) = v(2) and rr(i).v(2) = v(1) and rr(i).v(3) = v(2), "slice of field");
            check(rr((i + 1) mod 3).v(3) = v(4), "other records");
            rr(1 to 2) := rr(0 to 1);
            if i < 2 then
                check(rr(i + 1).v(3) = v(2), "overlapping slices of records");
            end if;
        end procedure;

        -- result of an unconstrained function used in other subprograms
        procedure nest(v : int_vec; a, b : integer) is
            variable t : int_vec(a to b) := part(part(v, a, b), a, b);
            constant c : int_vec := t & part(v, 1, 2);
        begin
            check(c'length = b - a + 3, "length of nested result");
            for p in a to b loop
                check(c(p - a) = v(p), "element of nested result");
                check(t(p) = v(p), "element of nested result");
            end loop;
            check(c(c'right) = v(2) and c(c'right - 1) = v(1), "element of nested result");
        end procedure;
    begin
        n := pick(nd_int(0, 3));
        m := pick(nd_int(0, 3));
        case SECT is
            when 1 => cat_arrays(any_ints(n), any_ints(m));
            when 2 => cat_down(downs(n), downs(m));
            when 3 => cat_elems(nd_int(-100, 100), nd_int(-100, 100)); cat_rows(any_ints(3));
            when 4 => slices(any_ints(4), n + 1, m + 1);
            when 5 => row_slices(any_ints(4));
            when 6 => if n > 0 and m >= n then nest(any_ints(4), n, m); end if;
            when 10 => null_bounds(any_ints(4), downs(0), 4, nd_int(1, 2));
            when others => null;
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- Relations, logical operators, shifts, reductions
entity arr2 is generic (SECT : integer; BIG : integer := 0); end entity;
library ieee;
use ieee.std_logic_1164.std_ulogic;
use ieee.std_logic_1164.std_ulogic_vector;
use work.sx.all;
use work.arr_pkg.all;
architecture a of arr2 is
    type int_pair is array (1 to 2, -1 to 1) of integer;

    function fold_lt(v, w : int_vec) return integer is
        variable r : integer := sel(v'length < w'length, 1, 0);
        variable x, y : integer;
    begin
        for p in minimum(v'length, w'length) - 1 downto 0 loop
            x := v(v'left + p);
            y := w(w'left + p);
            r := sel(x < y, 1, sel(x = y, r, 0));
        end loop;
        return r;
    end function;
    function fold_eq(v, w : int_vec) return integer is
        variable r : integer := sel(v'length = w'length, 1, 0);
    begin
        for p in minimum(v'length, w'length) - 1 downto 0 loop
            r := sel(v(v'left + p) = w(w'left + p), r, 0);
        end loop;
        return r;
    end function;

    procedure relations(v, w : int_vec) is
        variable lt, eq : integer;
        variable ev : enum_vec(v'right downto v'left);
        variable ew : enum_vec(1 to w'length);
        variable sv, sw : integer;
        variable cv, cw : string(1 to v'length);
    begin
        lt := fold_lt(v, w);
        eq := fold_eq(v, w);
        check(b2i(v < w) = lt, "< of arrays");
        check(b2i(v = w) = eq, "= of arrays");
        check(b2i(v /= w) = 1 - eq, "/= of arrays");
        check(b2i(v <= w) = sel(eq = 1, 1, lt), "<= of arrays");
        check(b2i(v > w) = sel(eq = 1, 0, 1 - lt), "> of arrays");
        check(b2i(v >= w) = 1 - lt, ">= of arrays");
        check(fold_eq(maximum(v, w), v) = sel(lt = 1, eq, 1), "maximum of arrays");
        check(fold_eq(maximum(v, w), w) = sel(lt = 1, 1, eq), "maximum of arrays");
        check(fold_eq(minimum(v, w), v) = sel(lt = 1, 1, eq), "minimum of arrays");
        check(fold_eq(minimum(v, w), w) = sel(lt = 1, eq, 1), "minimum of arrays");
        check(b2i(v = v) = 1 and not (v < v), "an array equals itself");
    end procedure;

    procedure enum_relations(n, m : integer) is
        variable v : int_vec(1 to n);
        variable w : int_vec(1 to m);
        variable ev : enum_vec(n downto 1);
        variable ew : enum_vec(-m to -1);
        variable bv : bit_vector(1 to n);
        variable bw : bit_vector(m downto 1);
        variable cv : string(1 to n);
        variable cw : string(11 to m + 10);
    begin
        for p in 1 to n loop
            v(p) := nd_int(0, 3);
            ev(n - p + 1) := enum'val(v(p));
            bv(p) := bit'val(v(p) / 2);
            cv(p) := character'val(v(p) * 70);
        end loop;
        for p in 1 to m loop
            w(p) := nd_int(0, 3);
            ew(p - m - 1) := enum'val(w(p));
            bw(m - p + 1) := bit'val(w(p) / 2);
            cw(p + 10) := character'val(w(p) * 70);
        end loop;
        check(b2i(ev < ew) = fold_lt(v, w) and b2i(ev = ew) = fold_eq(v, w), "relations of arrays of enumeration");
        check(b2i(ew > ev) = fold_lt(v, w) and b2i(ew /= ev) = 1 - fold_eq(v, w), "relations of arrays of enumeration");
        check(b2i(cv < cw) = fold_lt(v, w) and b2i(cv = cw) = fold_eq(v, w), "relations of strings");
        check(b2i(cv >= cw) = 1 - fold_lt(v, w) and b2i(cw <= cv) = 1 - fold_lt(v, w), "relations of strings");
        for p in v'range loop v(p) := v(p) / 2; end loop;
        for p in w'range loop w(p) := w(p) / 2; end loop;
        check(b2i(bv < bw) = fold_lt(v, w) and b2i(bv = bw) = fold_eq(v, w), "relations of bit vectors");
        if n = m then
            check(bit'pos(bv ?= bw) = fold_eq(v, w), "matching equality of bit vectors");
            check(bit'pos(bv ?/= bw) = 1 - fold_eq(v, w), "matching inequality of bit vectors");
        end if;
    end procedure;

    procedure composite_eq(v, w : int_vec) is       -- six elements
        variable gv, gw : grid(1 to 2, -1 to 1);
        variable fv, fw : fixed_rows(1 to 3);
        variable hw : fixed_rows(7 downto 5);
        variable rv, rw : rec;
        variable qv, qw : rec_vec(1 to 1);
        variable eq : integer;
        type nested is record
            g : grid(1 to 2, -1 to 1);
            c : character;
            r : rec;
        end record;
        variable nv, nw : nested;
    begin
        eq := fold_eq(v, w);
        for i in 1 to 2 loop
            for j in -1 to 1 loop
                gv(i, j) := v((i - 1) * 3 + j + 2);
                gw(i, j) := w((i - 1) * 3 + j + 2);
            end loop;
        end loop;
        for i in 1 to 3 loop
            fv(i) := v(2 * i - 1 to 2 * i);
            fw(i) := w(2 * i - 1 to 2 * i);
            hw(8 - i) := w(2 * i - 1 to 2 * i);
        end loop;
        check(b2i(gv = gw) = eq and b2i(gv /= gw) = 1 - eq, "equality of two-dimensional arrays");
        check(b2i(fv = fw) = eq and b2i(fv /= fw) = 1 - eq, "equality of arrays of arrays");
        check(b2i(fv = hw) = eq and b2i(hw = fw) = 1, "equality of arrays of arrays");
        rv := (v(1), v(2 to 4));
        rw := (w(1), w(2 to 4));
        qv(1) := rv;
        qw(1) := rw;
        check(b2i(rv = rw) = fold_eq(v(1 to 4), w(1 to 4)), "equality of records");
        check(b2i(qv /= qw) = 1 - fold_eq(v(1 to 4), w(1 to 4)), "equality of arrays of records");
        nv := (gv, character'val(v(6) mod 256), rv);
        nw := (gw, character'val(w(6) mod 256), rw);
        check(b2i(nv = nw) = eq, "equality of nested records");
        nw := nv;
        nw.r.v(2) := w(1);
        check(b2i(nv = nw) = b2i(v(3) = w(1)), "equality of nested records");
    end procedure;

    procedure logical(v, w : bit_vector; c : bit) is
        variable d : bit_vector(20 downto 21 - v'length) := v;
        variable x, y, k : integer;
        variable r_and, r_or, r_xor : integer;
        variable n : integer := v'length;
        function bits(b : boolean_vector) return bit_vector is
            variable r : bit_vector(b'range);
        begin
            for i in b'range loop r(i) := bit'val(boolean'pos(b(i))); end loop;
            return r;
        end function;
        function bools(b : bit_vector) return boolean_vector is
            variable r : boolean_vector(b'range);
        begin
            for i in b'range loop r(i) := b(i) = '1'; end loop;
            return r;
        end function;
        procedure bounds(r : bit_vector) is
        begin
            check(r'length = n and (n = 0 or (r'left = 20 and not r'ascending)), "bounds of logical operation");
        end procedure;
        constant ra : bit_vector := d and w;
        constant rn : bit_vector := not d;
        variable s_and, s_or, s_nand, s_nor, s_xor, s_xnor, q : bit_vector(1 to n);
        variable bx, bn : boolean_vector(1 to n);
    begin
        bounds(d and w);
        bounds(d xnor w);
        bounds(not d);
        bounds(d or c);
        bounds(c xor d);
        s_and := v and w; s_or := d or w; s_nand := v nand w; s_nor := v nor w; s_xor := v xor w; s_xnor := v xnor w;
        bx := bools(v) xor bools(w);
        bn := not bools(d);
        k := bit'pos(c);
        r_and := 1; r_or := 0; r_xor := 0;
        for i in 1 to n loop
            x := b2i(v(i));
            y := b2i(w(i));
            check(b2i(s_and(i)) = x * y, "and of arrays");
            check(b2i(s_or(i)) = x + y - x * y, "or of arrays");
            check(b2i(s_nand(i)) = 1 - x * y, "nand of arrays");
            check(b2i(s_nor(i)) = (1 - x) * (1 - y), "nor of arrays");
            check(b2i(s_xor(i)) = (x - y) * (x - y), "xor of arrays");
            check(b2i(s_xnor(i)) = 1 - (x - y) * (x - y), "xnor of arrays");
            check(b2i(rn(21 - i)) = 1 - x, "not of array");
            check(b2i(bx(i)) = (x - y) * (x - y), "xor of boolean arrays");
            check(b2i(bn(i)) = 1 - x, "not of boolean array");
            r_and := r_and * x;
            r_or := r_or + x - r_or * x;
            r_xor := (r_xor - x) * (r_xor - x);
        end loop;
        s_and := v and c; s_or := c or v; s_nand := c nand v; s_nor := v nor c; s_xor := c xor v; s_xnor := v xnor c;
        for i in 1 to n loop
            x := b2i(v(i));
            check(b2i(s_and(i)) = x * k, "and of array and element");
            check(b2i(s_or(i)) = x + k - x * k, "or of array and element");
            check(b2i(s_nand(i)) = 1 - x * k, "nand of array and element");
            check(b2i(s_nor(i)) = (1 - x) * (1 - k), "nor of array and element");
            check(b2i(s_xor(i)) = (x - k) * (x - k), "xor of array and element");
            check(b2i(s_xnor(i)) = 1 - (x - k) * (x - k), "xnor of array and element");
        end loop;
        check(b2i(and v) = r_and and b2i(nand v) = 1 - r_and, "and reduction");
        check(b2i(or v) = r_or and b2i(nor v) = 1 - r_or, "or reduction");
        check(b2i(xor v) = r_xor and b2i(xnor v) = 1 - r_xor, "xor reduction");
        check(b2i(and bools(v)) = r_and and b2i(nor bools(v)) = 1 - r_or, "reduction of boolean array");
        check(b2i(xor bools(v)) = r_xor and b2i(xnor bools(d)) = 1 - r_xor, "reduction of boolean array");
    end procedure;

    procedure shifts(v : bit_vector; k : integer) is
        constant n : integer := v'length;
        variable d : bit_vector(20 downto 21 - n) := v;
        variable x : int_vec(-20 + 20 to 40);
        variable lft, rgt, s : integer;
        variable r1, r2, r3, r4, r5, r6 : bit_vector(1 to n);
        variable b3 : boolean_vector(1 to n);
    begin
        r1 := v sll k; r2 := d srl k; r3 := v sla k; r4 := v sra k; r5 := v rol k; r6 := d ror k;
        for i in 1 to n loop
            b3(i) := v(i) = '1';
        end loop;
        b3 := b3 sra k;
        for i in 1 to n loop
            s := 0; lft := 0; rgt := 0;
            -- value from k places to the right
            for j in 1 to n loop
                s := s + sel(j = i + k, b2i(v(j)), 0);
                lft := lft + sel((j - i - k) mod n = 0, b2i(v(j)), 0);
                rgt := rgt + sel((j - i + k) mod n = 0, b2i(v(j)), 0);
            end loop;
            check(b2i(r1(i)) = s, "sll");
            check(b2i(r3(i)) = sel(i + k > n, b2i(v(n)), sel(i + k < 1, b2i(v(1)), s)), "sla");
            s := 0;
            for j in 1 to n loop
                s := s + sel(j = i - k, b2i(v(j)), 0);
            end loop;
            check(b2i(r2(i)) = s, "srl");
            check(b2i(r4(i)) = sel(i - k > n, b2i(v(n)), sel(i - k < 1, b2i(v(1)), s)), "sra");
            check(b2i(b3(i)) = sel(i - k > n, b2i(v(n)), sel(i - k < 1, b2i(v(1)), s)), "sra of boolean array");
            check(b2i(r5(i)) = lft, "rol");
            check(b2i(r6(i)) = rgt, "ror");
        end loop;
    end procedure;

    procedure extremes(v : int_vec) is
        variable m, n, c, d : integer;
        variable ev : enum_vec(3 to v'length + 2);
    begin
        for i in v'range loop
            ev(i + 2) := enum'val(v(i) mod 4);
        end loop;
        m := maximum(v);
        n := minimum(v);
        c := 0;
        d := 0;
        for i in v'range loop
            check(m >= v(i), "maximum of elements");
            check(n <= v(i), "minimum of elements");
            c := c + sel(v(i) = m, 1, 0);
            d := d + sel(v(i) = n, 1, 0);
        end loop;
        check(c > 0, "maximum of elements");
        check(d > 0, "minimum of elements");
        m := enum'pos(maximum(ev));
        n := enum'pos(minimum(ev));
        c := 0;
        d := 0;
        for i in v'range loop
            check(m >= v(i) mod 4, "maximum of enumeration elements");
            check(n <= v(i) mod 4, "minimum of enumeration elements");
            c := c + sel(v(i) mod 4 = m, 1, 0);
            d := d + sel(v(i) mod 4 = n, 1, 0);
        end loop;
        check(c > 0, "maximum of enumeration elements");
        check(d > 0, "minimum of enumeration elements");
    end procedure;

    -- matching relations of single and several std_ulogic elements
    procedure matching(i, j, m, n : integer) is
        type table is array (0 to 8) of string(1 to 9);
        -- U  X  0  1  Z  W  L  H  -
        constant eq : table := (
            "UUUUUUUU1", "UXXXXXXX1", "UX10XX101", "UX01XX011", "UXXXXXXX1",
            "UXXXXXXX1", "UX10XX101", "UX01XX011", "111111111");
        constant inv : table := (
            "UUUUUUUU0", "UXXXXXXX0", "UX01XX010", "UX10XX100", "UXXXXXXX0",
            "UXXXXXXX0", "UX01XX010", "UX10XX100", "000000000");
        constant ltt : table := (
            "UUUUUUUUX", "UXXXXXXXX", "UX01XX01X", "UX00XX00X", "UXXXXXXXX",
            "UXXXXXXXX", "UX01XX01X", "UX00XX00X", "XXXXXXXXX");
        constant lit : string := "UX01ZWLH-";
        variable a, b : std_ulogic;
        variable e, f : std_ulogic_vector(1 to 2);
        function ch(x : std_ulogic) return character is
        begin
            return lit(std_ulogic'pos(x) + 1);
        end function;
        variable p, q, c : character;
    begin
        a := std_ulogic'val(i);
        b := std_ulogic'val(j);
        check(ch(a ?= b) = eq(i)(j + 1), "?=");
        check(ch(a ?/= b) = inv(i)(j + 1), "?/=");
        if i < 8 and j < 8 then
            check(ch(a ?< b) = ltt(i)(j + 1), "?<");
            check(ch(a ?> b) = ltt(j)(i + 1), "?>");
        end if;
        check((?? a) = (a = '1' or a = 'H'), "condition operator");
        e := (a, std_ulogic'val(m));
        f := (b, std_ulogic'val(n));
        p := eq(i)(j + 1);
        q := eq(m)(n + 1);
        if p = '0' or q = '0' then c := '0';
        elsif p = 'U' or q = 'U' then c := 'U';
        elsif p = 'X' or q = 'X' then c := 'X';
        else c := '1'; end if;
        check(ch(e ?= f) = c, "?= of arrays");
    end procedure;
begin
    process is
        variable n, m : integer;
    begin
        case SECT is
            when 1 =>
                n := pick(nd_int(0, 3));
                m := pick(nd_int(0, 3));
                relations(any_ints(n), any_ints(m));
            when 2 => enum_relations(pick(nd_int(0, 3)), pick(nd_int(0, 3)));
            when 3 => composite_eq(any_ints(6), any_ints(6));
            when 4 =>
                n := pick(nd_int(0, 4));
                if n = 4 then n := 6 + BIG; end if;
                logical(any_bits(n), any_bits(n), bit'val(nd_int(0, 1)));
            when 5 =>
                n := pick(nd_int(1, 4));
                shifts(any_bits(n), pick(nd_int(-6, 6)));
            when 6 => extremes(any_ints(pick(nd_int(1, 3))));
            when 7 => matching(pick(nd_int(0, 8)), pick(nd_int(0, 8)), 3, pick(nd_int(1, 4)));
            when 8 => matching(3, 3, nd_int(0, 8), nd_int(0, 8));
            when others => null;
        end case;
        reach("end");
        done;
    end process;
end architecture;

-- Aggregates, attributes, shapes
entity arr3 is generic (SECT : integer); end entity;
use work.sx.all;
use work.arr_pkg.all;
architecture a of arr3 is
    type table is array (natural range <>, bit range <>) of integer;
    type cube is array (1 to 2, 0 to 1, 7 downto 6) of integer;
    type bits2 is array (natural range <>, natural range <>) of bit;
    type pair is record
        l, r : integer;
    end record;
    type big_rec is record
        a, b : integer;
        p : pair;
        v : int_vec(0 to 2);
        c : character;
    end record;

    procedure one_dim(v : int_vec; x, y : integer; l, h : integer) is  -- v: 1 to 4
        variable t : int_vec(1 to 4);
        variable d : int_vec(8 downto 5);
        variable e : by_enum(e1 to e3);
        procedure bounds(r : int_vec; lft, rgt : integer; n : integer) is
        begin
            check(r'left = lft, "left bound of aggregate");
            check(r'right = rgt, "right bound of aggregate");
            check(r'length = n, "length of aggregate");
        end procedure;
        procedure values(r : int_vec; a, b, c, d : integer) is
            constant q : int_vec(1 to 4) := r;
        begin
            check(q(1) = a and q(2) = b and q(3) = c and q(4) = d, "elements of aggregate");
        end procedure;
    begin
        values((x, y, v(1), x), x, y, v(1), x);
        bounds((x, y, v(1), x), 0, 3, 4);
        values((4 => v(4), 2 => y, 3 => x, 5 => v(1)), y, x, v(4), v(1));
        bounds((4 => v(4), 2 => y, 3 => x, 5 => v(1)), 2, 5, 4);
        values((3 | 1 => x, 4 => v(2), 2 => y), x, y, x, v(2));
        values((2 to 3 => x, 1 | 4 => y), y, x, x, y);
        values((4 downto 2 => x, 1 => y), y, x, x, x);       -- direction of the choice
        t := (2 to 3 => x, others => y);
        values(t, y, x, x, y);
        t := (x, others => y);
        values(t, x, y, y, y);
        d := (8 => x, 6 => y, others => v(1));
        values(d, x, v(1), y, v(1));
        d := (x, y, v(3), v(4));
        check(d(8) = x and d(7) = y and d(6) = v(3) and d(5) = v(4), "positions of aggregate");
        e := (e2 => x, e1 => y, e3 => v(1));
        check(e(e1) = y and e(e2) = x and e(e3) = v(1), "aggregate indexed by enumeration");
        -- choices of one range that need not be static
        check(total((l to h => x)) = x * maximum(h - l + 1, 0), "aggregate with dynamic range");
        if l <= h then
            bounds((l to h => x), l, h, h - l + 1);
        end if;
        t := (others => 0);
        t(2 to 3) := (x, y);
        values(t, 0, x, y, 0);
        -- arrays as parts of aggregates
        t := (x, v(2 to 3), y);
        values(t, x, v(2), v(3), y);
        t := (v(3 to 4), v(1 to 2));
        values(t, v(3), v(4), v(1), v(2));
        t := (1 to 3 => v(2 to 4), 4 => x);
        values(t, v(2), v(3), v(4), x);
        t := (4 => x, 1 to 2 => v(3 to 4), 3 => y);
        values(t, v(3), v(4), y, x);
        d := (8 downto 7 => v(2 to 3), 6 => x, 5 => y);
        values(d, v(2), v(3), x, y);
        t := (1 => x, others => v(2));
        t := (t(4), t(3), t(2), t(1));              -- the target is read by the value
        values(t, v(2), v(2), v(2), x);
        t := (2 => t(4), others => t(1));
        values(t, v(2), x, v(2), v(2));
    end procedure;

    procedure targets(v : int_vec; x, y : integer) is
        variable a, b, c, d : integer;
        variable t, u : int_vec(1 to 2);
        variable p : pair;
        variable q : big_rec;
        variable w : int_vec(7 downto 5);
        variable e : character;
    begin
        (a, b, c, d) := v;
        check(a = v(1) and b = v(2) and c = v(3) and d = v(4), "aggregate target");
        (3 => a, 1 => b, 2 => c, 4 => d) := v;
        check(a = v(3) and b = v(1) and c = v(2) and d = v(4), "named aggregate target");
        (t, u) := v;
        check(t(1) = v(1) and t(2) = v(2) and u(1) = v(3) and u(2) = v(4), "aggregate target with arrays");
        (a, t, b) := v;
        check(a = v(1) and t(1) = v(2) and t(2) = v(3) and b = v(4), "aggregate target with arrays");
        (b, a) := int_vec'(a, b);
        check(b = v(1) and a = v(4), "exchange with aggregate target");
        p := (x, y);
        (a, b) := p;
        check(a = x and b = y, "record aggregate target");
        (r => a, l => b) := p;
        check(a = y and b = x, "named record aggregate target");
        (t(1), t(2)) := int_vec'(t(2), t(1));
        check(t(1) = v(3) and t(2) = v(2), "exchange of elements");
        q := (a => 1, b => 2, p => (x, y), v => v(1 to 3), c => 'x');
        (a, b, p, w, e) := q;
        check(a = 1 and b = 2 and p.l = x and p.r = y and w(7) = v(1) and w(5) = v(3) and e = 'x',
            "record aggregate target with composites");
    end procedure;

    -- known findings: the value of the expression is not copied
    procedure alias_targets(x, y : integer) is
        variable p : pair;
        variable t : int_vec(1 to 2);
    begin
        p := (x, y);
        t := (x, y);
        if nd_bool then
            (p.r, p.l) := p;
            check(p.r = x and p.l = y, "aggregate target of fields of the value");
        else
            (t(2), t(1)) := t;
            check(t(2) = x and t(1) = y, "aggregate target of elements of the value");
        end if;
    end procedure;

    procedure shapes(v : int_vec; x, y : integer) is    -- v: 1 to 6
        variable g : grid(1 to 2, -1 to 1);
        variable h : grid(2 downto 1, 1 downto -1);
        variable tb : table(0 to 2, '0' to '1');
        variable cu : cube;
        variable bm : bits2(0 to 1, 1 to 3);
        variable f : fixed_rows(0 to 2);
        variable k : integer;
    begin
        g := ((v(1), v(2), v(3)), (v(4), v(5), v(6)));
        h := g;
        for i in 1 to 2 loop
            for j in -1 to 1 loop
                check(g(i, j) = v(3 * i + j - 1), "two-dimensional aggregate");
                check(h(3 - i, -j) = g(i, j), "assignment of two-dimensional array");
            end loop;
        end loop;
        g := (2 => (1 => x, -1 => y, others => v(1)), 1 => (others => v(2)));
        check(g(2, 1) = x and g(2, -1) = y and g(2, 0) = v(1) and g(1, 0) = v(2) and g(1, 1) = v(2),
            "named two-dimensional aggregate");
        h := (2 => (1 => x, -1 => y, others => v(1)), 1 => (others => v(2)));
        check(h(2, 1) = x and h(2, -1) = y and h(2, 0) = v(1) and h(1, 0) = v(2) and h(1, 1) = v(2),
            "named two-dimensional aggregate of descending ranges");
        h := ((v(1), v(2), v(3)), (v(4), v(5), v(6)));
        check(h(2, 1) = v(1) and h(2, -1) = v(3) and h(1, 1) = v(4), "positional aggregate of descending ranges");
        tb := ((x, y), (v(1), v(2)), (others => v(3)));
        check(tb(0, '1') = y and tb(1, '0') = v(1) and tb(2, '0') = v(3) and tb(2, '1') = v(3),
            "aggregate indexed by enumeration");
        cu := (1 => ((v(1), v(2)), (v(3), v(4))), 2 => (1 => (6 => x, 7 => y), 0 => (others => v(5))));
        check(cu(1, 0, 7) = v(1) and cu(1, 0, 6) = v(2) and cu(1, 1, 7) = v(3), "three-dimensional aggregate");
        check(cu(2, 1, 6) = x and cu(2, 1, 7) = y and cu(2, 0, 6) = v(5), "three-dimensional aggregate");
        bm := ("011", (1 => bit'val(b2i(x > 0)), others => '0'));
        check(bm(0, 1) = '0' and bm(0, 3) = '1' and (bm(1, 1) = '1') = (x > 0), "string as part of aggregate");
        f := (v(1 to 2), (x, y), others => (others => v(3)));
        check(f(0)(2) = v(2) and f(1)(1) = x and f(1)(2) = y and f(2)(1) = v(3), "array of arrays");
    end procedure;

    procedure records(v : int_vec; x, y : integer) is
        variable p : pair;
        variable q, r : big_rec;
        variable a : rec_vec(0 to 1);
    begin
        p := (x, y);
        check(p.l = x and p.r = y, "record aggregate");
        p := (r => x, l => y);
        check(p.l = y and p.r = x, "named record aggregate");
        p := (l | r => x);
        check(p.l = x and p.r = x, "record aggregate with several choices");
        p := (others => y);
        check(p.l = y and p.r = y, "record aggregate with others");
        p := (p.r + 1, p.l + 2);
        check(p.l = y + 1 and p.r = y + 2, "target read by the record aggregate");
        p := (x, y);
        p := (p.r, p.l);
        check(p.l = y and p.r = x, "exchange of fields");
        q := (x, y, (v(1), v(2)), v(3 to 5), character'val(v(6) mod 256));
        check(q.a = x and q.b = y and q.p.l = v(1) and q.p.r = v(2), "fields of record aggregate");
        check(q.v(0) = v(3) and q.v(1) = v(4) and q.v(2) = v(5), "array in record aggregate");
        r := (v => (2 => x, others => y), p => q.p, a | b => v(1), c => q.c);
        check(r.v(2) = x and r.v(0) = y and r.v(1) = y and r.p = q.p and r.a = v(1) and r.b = v(1),
            "named record aggregate");
        r := q;
        q.p.l := x;
        q.v(1) := y;
        check(r.p.l = v(1) and r.v(1) = v(4), "copies of records are independent");
        a := ((x, (v(1), v(2), v(3))), (a => y, v => (others => x)));
        check(a(0).a = x and a(0).v(3) = v(3) and a(1).a = y and a(1).v(2) = x, "aggregates of records");
        a := (a(1), a(0));
        check(a(1).a = x and a(1).v(3) = v(3) and a(0).a = y and a(0).v(2) = x, "exchange of records");
    end procedure;

    procedure attributes(l, h, l2, h2 : integer) is
        variable u : down_vec(l to h);
        variable d : down_vec(h downto l);
        variable g : grid(l to h, h2 downto l2);
        variable n, m, k : integer;
        subtype sub is down_vec(l to h);
        alias al : down_vec(100 to 100 + h - l) is d;
        procedure formal(a : down_vec; lft, rgt, lo, hi, len : integer; asc : boolean) is
            variable n : integer := 0;
        begin
            check(a'left = lft and a'right = rgt, "'left and 'right of formal");
            check(a'low = lo and a'high = hi, "'low and 'high of formal");
            check(a'length = len and a'ascending = asc, "'length and 'ascending of formal");
            for i in a'range loop
                check(i = sel(asc, lft + n, lft - n), "'range of formal");
                n := n + 1;
            end loop;
            check(n = len, "'range of formal");
            n := 0;
            for i in a'reverse_range loop
                check(i = sel(asc, rgt - n, rgt + n), "'reverse_range of formal");
                n := n + 1;
            end loop;
            check(n = len, "'reverse_range of formal");
        end procedure;
    begin
        n := maximum(h - l + 1, 0);
        m := maximum(h2 - l2 + 1, 0);
        check(u'left = l and u'right = h and u'low = l and u'high = h, "bounds of ascending array");
        check(d'left = h and d'right = l and d'low = l and d'high = h, "bounds of descending array");
        check(u'length = n and d'length = n and u'ascending and not d'ascending, "'length and 'ascending");
        check(g'length = n and g'length(1) = n and g'length(2) = m, "'length of dimensions");
        check(g'left(1) = l and g'right(1) = h and g'left(2) = h2 and g'right(2) = l2, "bounds of dimensions");
        check(g'low(2) = l2 and g'high(2) = h2 and g'low(1) = l and g'high(1) = h, "bounds of dimensions");
        check(g'ascending(1) and not g'ascending(2), "'ascending of dimensions");
        k := 0;
        for i in g'range(1) loop
            for j in g'range(2) loop
                g(i, j) := k;
                k := k + 1;
            end loop;
        end loop;
        check(k = n * m, "'range of dimensions");
        k := 0;
        for i in g'reverse_range(1) loop
            for j in g'reverse_range(2) loop
                check(g(i, j) = n * m - 1 - k, "'reverse_range of dimensions");
                k := k + 1;
            end loop;
        end loop;
        check(sub'left = l and sub'right = h and sub'length = n, "bounds of subtype");
        check(al'left = 100 and al'length = n, "bounds of alias");
        for i in d'range loop d(i) := i; end loop;
        k := 0;
        for i in al'range loop
            check(al(i) = h - k, "elements of alias");
            k := k + 1;
        end loop;
        formal(d, h, l, l, h, n, false);
        formal(sub'(others => 1), l, h, l, h, n, true);
        if n > 0 then
            formal(al, 100, 100 + n - 1, 100, 100 + n - 1, n, true);
            formal(d(h downto l + 1), h, l + 1, l + 1, h, n - 1, false);
        end if;
    end procedure;

    procedure two_shapes(n, m, p, q : integer; x : integer) is
        variable a : grid(1 to n, 1 to m);
        variable b : grid(p downto 1, q downto 1);
        variable eq : integer;
    begin
        for i in a'range(1) loop
            for j in a'range(2) loop
                a(i, j) := x;
            end loop;
        end loop;
        for i in b'range(1) loop
            for j in b'range(2) loop
                b(i, j) := x;
            end loop;
        end loop;
        eq := sel((n = p and m = q) or (n * m = 0 and p * q = 0), 1, 0);
        check(b2i(a = b) = eq, "equality of arrays of other shapes");
        check(b2i(a /= b) = 1 - eq, "inequality of arrays of other shapes");
    end procedure;

    procedure row_vec(n, m : integer; v : int_vec) is
        variable r : rows(1 to n)(1 to m);
        variable s : rows(n downto 1)(m + 5 downto 6);
        variable k : integer := 0;
        impure function make(x : integer) return rows is
            variable t : rows(0 to n - 1)(x to x + m - 1);
        begin
            for i in t'range loop
                for j in t'element'range loop
                    t(i)(j) := v((i * m + j - x) mod 4 + 1);
                end loop;
            end loop;
            return t;
        end function;
        procedure see(t : rows; lft : integer) is
        begin
            check(t'length = n and t'element'length = m, "lengths of array of arrays");
            check(t'element'left = lft or lft = 0, "bounds of elements");
            for i in 0 to n - 1 loop
                check(t(t'left + i)'length = m, "length of element");
                for j in 0 to m - 1 loop
                    check(t(t'left + i)(t'element'left + j) = v((i * m + j) mod 4 + 1), "elements of elements");
                end loop;
            end loop;
        end procedure;
        procedure change(t : inout rows; i, x : integer) is
        begin
            for j in t(i)'range loop t(i)(j) := x; end loop;
        end procedure;
    begin
        see(make(3), 3);
        r := make(7);
        see(r, 1);
        s := r;
        for i in 1 to n loop
            for j in 1 to m loop
                check(s(n + 1 - i)(m + 6 - j) = r(i)(j), "assignment of array of arrays");
            end loop;
        end loop;
        check(r = s and make(1) = r, "equality of arrays of arrays");
        see(make(4)(0 to 0) & r(2 to n), 0);
        change(r, n, 1234);
        check(r(n)(m) = 1234 and (n = 1 or r(1)(m) /= 1234), "inout array of arrays");
        s(n) := r(n);
        check(s(n)(6) = 1234, "assignment of element");
    end procedure;
    signal sa, sb, sc, sd : integer := 0;
    signal st, su : int_vec(1 to 2) := (others => 0);
    signal sp : pair := (0, 0);
begin
    process is
        variable n, m, p, q : integer;
        procedure signal_targets(w : int_vec; x, y : integer) is
            variable v : int_vec(1 to 4) := w;
            variable pv : pair;
            variable qv : big_rec;
        begin
            (sa, sb, sc, sd) <= v;
            wait for 1 fs;
            check(sa = v(1) and sb = v(2) and sc = v(3) and sd = v(4), "aggregate target of signals");
            (3 => sa, 1 => sb, 2 => sc, 4 => sd) <= v;
            wait for 1 fs;
            check(sa = v(3) and sb = v(1) and sc = v(2) and sd = v(4), "named aggregate target of signals");
            (st, su) <= v;
            wait for 1 fs;
            check(st(1) = v(1) and st(2) = v(2) and su(1) = v(3) and su(2) = v(4),
                "aggregate target of signals with arrays");
            (sa, st, sb) <= v;
            wait for 1 fs;
            check(sa = v(1) and st(1) = v(2) and st(2) = v(3) and sb = v(4),
                "aggregate target of signals with arrays");
            (2 to 3 => st, 1 => sa, 4 => sb) <= v after 3 fs;
            wait for 3 fs;
            wait for 0 fs;
            check(sa = v(1) and st(1) = v(2) and st(2) = v(3) and sb = v(4),
                "named aggregate target of signals with arrays");
            (sb, sa) <= int_vec'(sa, sb);
            wait for 1 fs;
            check(sb = v(1) and sa = v(4), "exchange of signals");
            pv := (x, y);
            (r => sa, l => sb) <= pv;
            wait for 1 fs;
            check(sa = y and sb = x, "record aggregate target of signals");
            (sp.r, sp.l) <= pv;
            wait for 1 fs;
            check(sp.r = x and sp.l = y, "fields of signals in aggregate target");
            (sp.r, sp.l) <= sp;
            wait for 1 fs;
            check(sp.r = y and sp.l = x, "exchange of fields of signals");
            (st(1), st(2)) <= int_vec'(st(2), st(1));
            wait for 1 fs;
            check(st(1) = v(3) and st(2) = v(2), "exchange of elements of signals");
        end procedure;
    begin
        n := pick(nd_int(0, 3));
        m := pick(nd_int(0, 3));
        case SECT is
            when 1 => one_dim(any_ints(4), nd_int(-100, 100), nd_int(-100, 100), n, m);
            when 2 => targets(any_ints(4), nd_int(-100, 100), nd_int(-100, 100));
            when 3 => shapes(any_ints(6), nd_int(-100, 100), nd_int(-100, 100));
            when 4 => records(any_ints(6), nd_int(-100, 100), nd_int(-100, 100));
            when 5 =>
                p := pick(nd_int(-2, 2)) * 1000;
                q := 5 - 3 * n;
                attributes(p, p + n - 1, q, q + m - 1);
            when 6 => two_shapes(n, m, pick(nd_int(0, 3)), pick(nd_int(0, 3)), nd_int(-5, 5));
            when 8 =>
                -- all different: fewer paths
                signal_targets(int_vec'(nd_int(1, 9), nd_int(11, 19), nd_int(21, 29), nd_int(31, 39)),
                    nd_int(41, 49), nd_int(51, 59));
            when 10 => alias_targets(nd_int(-100, 100), nd_int(-100, 100));
            when 7 => row_vec(n + 1, m + 1, any_ints(4));
            when others => null;
        end case;
        reach("end");
        done;
    end process;
end architecture;
